// C21: the C++ side, driven line by line by pyproto.py.
#include "common.h"
#include <stored>
#include <memory>
using namespace h;

static std::string hx(std::string const& s) { return s.empty() ? "-" : hex(s); }
static std::string un(std::string const& s) { return s == "-" ? "" : unhex(s); }
static int count = 0;
static bool server = false;

struct App : public stored::ProtocolLayer {
	void decode(void* b, size_t n) override
	{
		std::string m((char*)b, n);
		if(!server) {
			printf("up %s\n", hx(m).c_str());
			return;
		}
		// Execute the request. The result depends on how often there has been one.
		count++;
		std::string r;
		size_t len = n ? (uint8_t)m[0] % 64 * (1 + (uint8_t)m[0] / 64) : 0;
		for(size_t i = 0; i < len; i++)
			r += (char)((uint8_t)m[i % n] + (unsigned)count * (i < 4 ? 1 : 0));
		printf("exec %s %s\n", hx(m).c_str(), hx(r).c_str());
		if(len > 5)
			encode(&r[0], 3, false);
		encode(&r[0] + (len > 5 ? 3 : 0), len > 5 ? len - 3 : len, true);
	}
	using stored::ProtocolLayer::encode;
};
struct Sink : public stored::ProtocolLayer {
	std::string part;
	size_t m = 0;
	void encode(void const* b, size_t n, bool last) override
	{
		part.append((char const*)b, n);
		if(!last)
			return;
		printf("tx %s\n", hx(part).c_str());
		part.clear();
	}
	using stored::ProtocolLayer::encode;
	size_t mtu() const override { return m; }
};
struct Stack {
	App app;
	std::vector<std::unique_ptr<stored::ProtocolLayer>> l;
	stored::TerminalLayer* term = nullptr;
	stored::SegmentationLayer* seg = nullptr;
	Sink sink;
};
static std::unique_ptr<Stack> s;

int main()
{
	static char buf[1 << 16];
	setvbuf(stdout, buf, _IOFBF, sizeof(buf));
	std::string ln;
	while(std::getline(std::cin, ln)) {
		Args a = split(ln);
		if(a.empty())
			continue;
		if(a[0] == "init") { // mtu server layers...
			s.reset(new Stack());
			s->sink.m = (size_t)num(a, 1);
			server = num(a, 2);
			count = 0;
			for(size_t i = 3; i < a.size(); i++) {
				std::string n = a[i];
				size_t arg = 0, c = n.find(':');
				if(c != std::string::npos) {
					arg = (size_t)atoi(n.c_str() + c + 1);
					n.resize(c);
				}
				stored::ProtocolLayer* p = nullptr;
				if(n == "asc") p = new stored::AsciiEscapeLayer();
				else if(n == "seg") p = s->seg = new stored::SegmentationLayer(arg);
				else if(n == "arq") p = new stored::DebugArqLayer();
				else if(n == "crc8") p = new stored::Crc8Layer();
				else if(n == "crc16") p = new stored::Crc16Layer();
				else if(n == "term") p = s->term = new stored::TerminalLayer([](void* b, size_t len) { printf("nd %s\n", hx(std::string((char*)b, len)).c_str()); });
				p->wrap(s->l.empty() ? (stored::ProtocolLayer&)s->app : *s->l.back());
				s->l.emplace_back(p);
			}
			s->sink.wrap(*s->l.back());
			printf("segmtu %zu\n", s->seg ? s->seg->lowerMtu() : 0);
		} else if(a[0] == "enc") {
			std::string m = un(a[1]);
			s->app.encode(m.data(), m.size(), true);
		} else if(a[0] == "rx") {
			std::string m = un(a[1]);
			std::unique_ptr<char[]> b(new char[m.size()]);
			memcpy(b.get(), m.data(), m.size());
			s->l.back()->decode(b.get(), m.size());
		} else if(a[0] == "nd") {
			std::string m = un(a[1]);
			s->term->nonDebugEncode(m.data(), m.size());
			s->sink.part.clear();
		} else if(a[0] == "quit")
			break;
		printf(".\n");
		fflush(stdout);
	}
	s.reset();
	fflush(stdout);
	return 0;
}
