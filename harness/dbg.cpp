// A debugger with stores; requests in, responses out.
#include "common.h"
#include <stored>
#include <DbgA.h>
#include <DbgB.h>
#include <DbgC.h>
#include <memory>
using namespace h;

typedef std::map<std::string, std::string> Regs; // values of the functions
template <typename T>
static void reg(std::string& r, bool set, T& v)
{
	if(set)
		memcpy(&r[0], &v, sizeof(T));
	else
		memcpy((void*)&v, &r[0], sizeof(T));
}

class DbgA;
class DbgA : public STORE_BASE_CLASS(DbgABase, DbgA) {
	STORE_CLASS_BODY(DbgABase, DbgA)
public:
	Regs regs{{"fun", std::string(4, 0)}, {"fbool", std::string(1, 0)}, {"fdouble", std::string(8, 0)}, {"fblob", std::string(4, 0)}, {"scope/f", std::string(2, 0)}, {"ftext", ""}};
	DbgA() is_default
	void __fun(bool set, int32_t& v) { reg(regs["fun"], set, v); }
	void __fbool(bool set, bool& v)
	{
		std::string& r = regs["fbool"];
		if(set)
			r[0] = *(char*)&v;
		else
			*(char*)&v = r[0];
	}
	void __fdouble(bool set, double& v) { reg(regs["fdouble"], set, v); }
	void __scope__f(bool set, uint16_t& v) { reg(regs["scope/f"], set, v); }
	size_t __fblob(bool set, void* v, size_t len)
	{
		std::string& r = regs["fblob"];
		len = std::min<size_t>(len, 4);
		if(set)
			memcpy(&r[0], v, len);
		else
			memcpy(v, &r[0], len);
		return len;
	}
	size_t __ftext(bool set, char* v, size_t len)
	{
		std::string& r = regs["ftext"];
		if(set) {
			r.assign(v, strnlen(v, std::min<size_t>(len, 5)));
			return len;
		}
		len = std::min(len, r.size());
		memcpy(v, r.data(), len);
		return len;
	}
};
class DbgB : public STORE_BASE_CLASS(DbgBBase, DbgB) {
	STORE_CLASS_BODY(DbgBBase, DbgB)
public:
	DbgB() is_default
};
class DbgC : public STORE_BASE_CLASS(DbgCBase, DbgC) {
	STORE_CLASS_BODY(DbgCBase, DbgC)
public:
	DbgC() is_default
};

static std::string fun(DbgA& s, char const* n)
{
	return s.regs[n];
}
template <typename S>
static std::string fun(S&, char const*)
{
	return "";
}

struct Any {
	virtual ~Any() {}
	virtual void map(stored::Debugger& d, char const* n) = 0;
	std::string name, kind;
	// in order of the list; get by variant
	virtual std::map<std::string, std::string> values() = 0;
};
template <typename S>
struct T : public Any {
	S s;
	void map(stored::Debugger& d, char const* n) override { d.map(s, n); }
	std::map<std::string, std::string> values() override
	{
		std::map<std::string, std::string> r;
		s.list(
			[](void* c, char const* n, stored::Type::type t, void* b, size_t l, void* a) {
				std::string x;
				if(stored::Type::isFunction(t))
					x = fun(*(S*)c, n + 1);
				else {
					std::vector<char> buf(l + 1);
					size_t k = stored::Variant<S>(*(S*)c, t, b, l).get(buf.data(), l);
					x.assign(buf.data(), k);
				}
				(*(std::map<std::string, std::string>*)a)[n + 1] = x;
			},
			&r);
		return r;
	}
};

struct Down : public stored::ProtocolLayer {
	int n = 0;
	bool purge = false, after = false;
	std::string r;
	void encode(void const* b, size_t l, bool last) override
	{
		if(n)
			after = true; // anything after the end of the response
		if(l)
			r.append((char const*)b, l);
		if(last)
			n++;
	}
	using stored::ProtocolLayer::encode;
	void setPurgeableResponse(bool p) override { purge = p; }
};

static std::unique_ptr<stored::Debugger> dbg;
static std::unique_ptr<Down> down;
static std::map<std::string, std::unique_ptr<Any>> st; // by prefix
static unsigned char* mem;
static int ids;
static std::string id_, ver_;

static std::string subst(std::string const& q)
{
	std::string r;
	for(size_t i = 0; i < q.size(); i++)
		if((uint8_t)q[i] == 254 && i + 1 < q.size()) {
			char b[32];
			snprintf(b, sizeof(b), "%016lx", (unsigned long)(uintptr_t)(mem + (uint8_t)q[++i]));
			r += b;
		} else
			r += q[i];
	return r;
}
static void clearal()
{
	for(char c = 32; c < 127; c++)
		if(c != '/') {
			char b[2] = {'a', c};
			dbg->decode(b, 2);
		}
}
static void emitmap()
{
	std::string s;
	for(auto& p : st)
		s += (s.empty() ? "" : ",") + std::string("{\"pre\":") + bytes(p.first) + ",\"kind\":\"" + p.second->kind
		     + "\",\"id\":" + std::to_string(strtol(p.second->name.c_str(), 0, 0)) + "}";
	ev("{\"e\":\"map\",\"st\":[%s]}", s.c_str());
}
static void begin()
{
	dbg.reset();
	st.clear();
	down.reset(new Down);
	if(!mem)
		mem = (unsigned char*)malloc(256);
	ids = 0;
	for(int i = 0; i < 256; i++)
		mem[i] = (unsigned char)(i * 7);
}
static void line(Args const& a)
{
	std::string const& c = a[0];
	if(c == "init") { // id ver
		id_ = a.size() > 1 && a[1] != "-" ? unhex(a[1]) : "";
		ver_ = a.size() > 2 && a[2] != "-" ? unhex(a[2]) : "";
		dbg.reset(new stored::Debugger(id_.c_str(), ver_.c_str()));
		down->wrap(*dbg);
		std::string ver = std::to_string(stored::Config::DebuggerVersion);
		if(!ver_.empty())
			ver += " " + ver_;
		if(stored::Config::Debug)
			ver += " debug";
		std::string caps = "?rwelamvRWst";
		if(!id_.empty())
			caps += "i";
		if(stored::Config::CompressStreams)
			caps += "f";
		ev("{\"e\":\"init\",\"c\":{\"alias\":%d,\"macro\":%d,\"streams\":%d,\"sbuf\":%d,\"sover\":%d,\"lpa\":%s,\"f\":%s,\"id\":%s,\"ver\":%s,\"caps\":%s,\"word\":%d},\"st\":[],\"mem\":%s}",
		   (int)stored::Config::DebuggerAlias, (int)stored::Config::DebuggerMacro, (int)stored::Config::DebuggerStreams,
		   (int)stored::Config::DebuggerStreamBuffer, (int)stored::Config::DebuggerStreamBufferOverflow,
		   stored::Config::DebuggerListPrefixAlways ? "true" : "false", stored::Config::CompressStreams ? "true" : "false", bytes(id_).c_str(), bytes(ver).c_str(), bytes(caps).c_str(),
		   (int)sizeof(void*), bytes(std::string((char*)mem, 256)).c_str());
	} else if(c == "map") { // kind prefix
		std::unique_ptr<Any> s;
		if(a[1] == "A")
			s.reset(new T<DbgA>);
		else if(a[1] == "B")
			s.reset(new T<DbgB>);
		else
			s.reset(new T<DbgC>);
		s->kind = a[1];
		s->name = std::to_string(++ids);
		std::string pre = a.size() > 2 ? unhex(a[2]) : "/Dbg" + a[1];
		clearal();
		auto old = std::move(st[pre]);
		st[pre] = std::move(s);
		// The name is not copied: pass the stable key.
		st[pre]->map(*dbg, old ? pre.c_str() : st.find(pre)->first.c_str());
		emitmap();
	} else if(c == "unmap") { // prefix
		std::string pre = unhex(a[1]);
		clearal();
		dbg->unmap(pre.c_str());
		st.erase(pre);
		emitmap();
	} else if(c == "q") {
		std::string q = a.size() > 1 ? unhex(a[1]) : "";
		std::string r = subst(q);
		down->n = 0;
		down->r.clear();
		down->purge = down->after = false;
		// exactly sized
		std::unique_ptr<char[]> b(new char[r.size()]);
		memcpy(b.get(), r.data(), r.size());
		dbg->decode(b.get(), r.size());
		ev("{\"e\":\"q\",\"q\":%s,\"n\":%d,\"r\":%s,\"p\":%s}", bytes(q).c_str(), down->after ? 99 : down->n, bytes(down->r).c_str(), down->purge ? "true" : "false");
	} else if(c == "w") { // stream data
		std::string b = a.size() > 2 ? unhex(a[2]) : "";
		size_t n = dbg->stream((char)num(a, 1), b.data(), b.size());
		ev("{\"e\":\"w\",\"s\":%d,\"b\":%s,\"n\":%d}", (int)num(a, 1), bytes(b).c_str(), (int)n);
	} else if(c == "t") {
		for(long i = 0; i < num(a, 1, 1); i++) {
			dbg->trace();
			ev("{\"e\":\"t\"}");
		}
	} else if(c == "tracing") {
		ev("{\"e\":\"tracing\",\"on\":%s}", dbg->tracing() ? "true" : "false");
	} else if(c == "dump") {
		std::string v;
		for(auto& p : st) {
			v += (v.empty() ? "" : ",") + std::string("{\"id\":") + p.second->name + ",\"kind\":\"" + p.second->kind + "\",\"named\":{";
			bool f = true;
			for(auto& x : p.second->values()) {
				v += (f ? "" : ",") + quote(x.first) + ":" + bytes(x.second);
				f = false;
			}
			v += "}}";
		}
		ev("{\"e\":\"dump\",\"v\":[%s],\"mem\":%s}", v.c_str(), bytes(std::string((char*)mem, 256)).c_str());
	}
}
int main()
{
	return run(begin, line, [] {});
}
