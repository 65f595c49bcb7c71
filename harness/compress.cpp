// C22: compression layer.
#include "common.h"
#include <libstored/compress.h>
#include <libstored/protocol.h>
#include <memory>
using namespace h;
struct Down final : stored::ProtocolLayer {
	std::string out;
	void encode(void const* b, size_t n, bool last = true) override
	{
		out += (out.empty() ? "{\"d\":" : ",{\"d\":") + bytes(std::string((char const*)b, n)) + ",\"last\":" + (last ? "true}" : "false}");
	}
	using stored::ProtocolLayer::encode;
};
struct Up final : stored::ProtocolLayer {
	std::string up;
	void decode(void* b, size_t n) override { up += (up.empty() ? "" : ",") + bytes(std::string((char const*)b, n)); }
};
struct Set {
	Up up;
	stored::CompressLayer z;
	Down down;
	Set()
	{
		z.wrap(up);
		down.wrap(z);
	}
};
static std::map<int, std::unique_ptr<Set>> S;
static std::string last; // last complete compressed message
static std::string cur;
static void line(Args const& a)
{
	if(a[0] == "new") {
		S.clear();
		S[0].reset(new Set);
		ev("{\"e\":\"init\"}");
		return;
	}
	Set& s = *S[0];
	if(a[0] == "enc" || a[0] == "end") {
		std::string d = a.size() > 1 ? unhex(a[1]) : "";
		bool l = a[0] == "end";
		s.down.out.clear();
		std::vector<char> buf(d.begin(), d.end()); // tight buffer
		s.up.encode(buf.empty() ? nullptr : buf.data(), buf.size(), l);
		ev("{\"e\":\"enc\",\"d\":%s,\"last\":%s,\"idle\":%s,\"out\":[%s]}", bytes(d).c_str(), l ? "true" : "false", s.z.idle() ? "true" : "false", s.down.out.c_str());
	} else if(a[0] == "dec") {
		std::string d = a.size() > 1 ? unhex(a[1]) : "";
		std::vector<char> buf(d.begin(), d.end());
		s.up.up.clear();
		s.z.decode(buf.data(), buf.size());
		ev("{\"e\":\"dec\",\"d\":%s,\"idle\":%s,\"up\":[%s]}", bytes(d).c_str(), s.z.idle() ? "true" : "false", s.up.up.c_str());
	}
}
int main()
{
	return run([]() { }, line, []() { S.clear(); });
}
