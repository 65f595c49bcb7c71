#pragma once
// Common helpers of the script-driven harnesses. A script is a sequence of lines on stdin;
// "@ n" starts an independent segment; events are written as ndjson to stdout.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace h {

inline std::string hex(void const* p, size_t n)
{
	static char const* d = "0123456789abcdef";
	std::string s;
	for(size_t i = 0; i < n; i++) {
		uint8_t b = static_cast<uint8_t const*>(p)[i];
		s += d[b >> 4];
		s += d[b & 15];
	}
	return s;
}
inline std::string hex(std::string const& s)
{
	return hex(s.data(), s.size());
}
inline std::string unhex(std::string const& s)
{
	std::string r;
	auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
	for(size_t i = 0; i + 1 < s.size(); i += 2)
		r += (char)(v(s[i]) * 16 + v(s[i + 1]));
	return r;
}
inline std::string bytes(std::string const& s) // JSON array of byte values
{
	std::string r = "[";
	for(size_t i = 0; i < s.size(); i++)
		r += (i ? "," : "") + std::to_string((unsigned)(uint8_t)s[i]);
	return r + "]";
}
inline std::string quote(std::string const& s)
{
	std::string r = "\"";
	for(char c : s) {
		if(c == '"' || c == '\\')
			(r += '\\') += c;
		else if((uint8_t)c < 32 || (uint8_t)c > 126) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", (unsigned)(uint8_t)c);
			r += b;
		} else
			r += c;
	}
	return r + "\"";
}

__attribute__((format(printf, 1, 2))) inline void ev(char const* fmt, ...)
{
	va_list a;
	va_start(a, fmt);
	vprintf(fmt, a);
	va_end(a);
	putchar('\n');
}

typedef std::vector<std::string> Args;

inline long num(Args const& a, size_t i, long def = 0)
{
	return i < a.size() ? strtol(a[i].c_str(), nullptr, 0) : def;
}

inline Args split(std::string const& l)
{
	std::istringstream s(l);
	Args r;
	std::string w;
	while(s >> w)
		r.push_back(w);
	return r;
}

// begin(): new segment; line(args): one command; end(): segment finished.
inline int run(std::function<void()> begin, std::function<void(Args const&)> line, std::function<void()> end)
{
	static char buf[1 << 16];
	setvbuf(stdout, buf, _IOFBF, sizeof(buf));
	std::string l;
	bool active = false;
	while(std::getline(std::cin, l)) {
		Args a = split(l);
		if(a.empty())
			continue;
		if(a[0] == "@") {
			if(active)
				end();
			active = false;
			printf("{\"seg\":%s}\n", a[1].c_str());
			fflush(stdout);
			if(a[1] == "-1")
				break;
			active = true;
			begin();
			continue;
		}
		line(a);
		// Make sure that events up to a crash are visible, without a flush per event.
	}
	fflush(stdout);
	return 0;
}

} // namespace h

extern "C" void __asan_on_error() __attribute__((weak, visibility("default"), used));
extern "C" void __asan_on_error()
{
	fflush(stdout);
}
