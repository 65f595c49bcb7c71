// A producer and a consumer of a FIFO, on the runtime of tsanrt.cpp (C16).
#include "common.h"
#include "tsanrt.h"
#include <libstored/fifo.h>
#include <memory>
using namespace h;
struct Pod {
	uint32_t a;
	uint16_t b[3];
};
template <typename T> T mk(int x) { return (T)x; }
template <> Pod mk<Pod>(int x) { Pod p; p.a = (uint32_t)x; p.b[0] = p.b[1] = p.b[2] = (uint16_t)(x * 3); return p; }
static int val(uint8_t const& x) { return x; }
static int val(uint32_t const& x) { return (int)x; }
static int val(Pod const& p) { return p.b[0] == (uint16_t)(p.a * 3) && p.b[1] == p.b[0] && p.b[2] == p.b[0] ? (int)p.a : -1; }

static void report(char const* e, std::string const& v, std::string const& r = "")
{
	rt::Quiet q;
	rt::event(std::string("{\"e\":\"") + e + "\",\"v\":" + v + (r.empty() ? "" : ",\"r\":" + r) + "}");
}
#define QUIET(x) do { rt::Quiet _q; x; } while(0)

struct Obj {
	virtual ~Obj() {}
	virtual void op(int th, Args const& a) = 0; // executed by thread th
	virtual void drain() = 0;
	virtual void* p() = 0;
	virtual size_t n() = 0;
};
template <typename T, typename F>
struct FifoObj : public Obj {
	F f;
	int next = 1;
	void* p() override { return &f; }
	size_t n() override { return sizeof(f); }
	void got(T const& x)
	{
		int v = val(x);
		report("got", std::to_string(v));
	}
	void put(int cnt, int how)
	{
		std::vector<T> vs;
		QUIET(for(int i = 0; i < cnt; i++) vs.push_back(mk<T>(next + i)));
		T const* p = vs.data();
		std::string l = "[";
		QUIET(for(int i = 0; i < cnt; i++) l += (i ? "," : "") + std::to_string(next + i); l += "]");
		report("put", l); // about to
		switch(how) {
		case 0: for(int i = 0; i < cnt; i++) f.push_back(p[i]); break;
		case 1: for(int i = 0; i < cnt; i++) f.emplace_back(p[i]); break;
		case 2: f.push_back(p, p + cnt); break;
		case 3: if(cnt == 1) f.push_back({p[0]}); else if(cnt == 2) f.push_back({p[0], p[1]}); else f.push_back(p, (size_t)cnt); break;
		default: f.push_back(p, (size_t)cnt);
		}
		report("pushed", std::to_string(cnt), "\"yes\"");
		next += cnt;
	}
	void op(int th, Args const& a) override
	{
		std::string o;
		int x = 0, y = 0;
		QUIET(o = a[0]; x = (int)num(a, 1); y = (int)num(a, 2));
		if(o == "put") { // put <count> <how>
			size_t s = f.space();
			if(x == 1 ? !f.full() : s >= (size_t)x) put(x, y);
		} else if(o == "pop") {
			switch(x) {
			case 0: if(!f.empty()) { got(f.front()); f.pop_front(); } break;
			case 1: { // all
				size_t k = f.available();
				for(size_t i = 0; i < k; i++) got(f.peek(i));
				if(k) f.pop_front(k);
				break; }
			case 2: for(auto const& e : f) got(e); break;
			case 3: {
				size_t k = f.available();
				F const& c = f;
				for(size_t i = 0; i < k; i++) { got(c[i]); }
				for(size_t i = 0; i < k; i++) f.pop_front();
				break; }
			case 4: {
				auto v = f.view();
				size_t k = v.size();
				for(size_t i = 0; i < k; i++) got(v[i]);
				if(k) f.pop_front(k);
				break; }
			case 5: {
				auto v = f.view();
				std::vector<T> b;
				size_t k = v.size();
				QUIET(b.resize(k + 1));
				T* p = b.data();
				v.copy(p);
				if(k) f.pop_front(k);
				for(size_t i = 0; i < k; i++) got(p[i]);
				break; }
			default: { auto it = f.begin(); if(it != f.end()) { got(*it); ++it; } }
			}
		}
		(void)th;
	}
	void drain() override { while(!f.empty()) { got(f.front()); f.pop_front(); } }
};
template <typename F>
struct MsgObj : public Obj {
	F f;
	int next = 1;
	std::string part;
	void* p() override { return &f; }
	size_t n() override { return sizeof(f); }
	std::string payload(int n)
	{
		std::string s;
		for(int i = 0; i < n; i++) s += (char)(uint8_t)(next * 16 + i);
		next++;
		return s;
	}
	void got(char const* p, size_t n)
	{
		// read it, instrumented
		unsigned char b[64];
		for(size_t i = 0; i < n && i < sizeof(b); i++) b[i] = (unsigned char)p[i];
		std::string s;
		QUIET(s = bytes(std::string((char const*)b, n)));
		report("got", s);
	}
	void op(int, Args const& a) override
	{
		std::string o, d, l;
		int x = 0, y = 0;
		QUIET(o = a[0]; x = (int)num(a, 1); y = (int)num(a, 2));
		if(o == "push") {
			QUIET(d = payload(x); l = bytes(part + d));
			report("put", "[" + l + "]");
			bool r = f.push_back(d.data(), d.size());
			if(r) QUIET(part.clear());
			report("pushed", "1", r ? "\"yes\"" : "\"no\"");
		} else if(o == "app") {
			QUIET(d = payload(x));
			if(part.size() + (size_t)x > F().capacity()) return;
			bool r = f.append_back(d.data(), d.size());
			if(r) QUIET(part += d);
		} else if(o == "done") {
			QUIET(l = bytes(part));
			report("put", "[" + l + "]");
			bool r = f.push_back();
			if(r) QUIET(part.clear());
			report("pushed", "1", r ? "\"yes\"" : "\"no\"");
		} else if(o == "reset") {
			f.reset_back();
			QUIET(part.clear());
		} else if(o == "full") {
			// what is free can be used
			size_t s = f.space();
			if(s == 0) return;
			QUIET(d = payload((int)s); l = bytes(part + d));
			report("put", "[" + l + "]");
			bool r = f.push_back(d.data(), d.size());
			if(r) QUIET(part.clear());
			report("pushed", "1", r ? "\"yes\"" : "\"no\"");
			if(!r) report("refused", "1");
		} else if(o == "pop") {
			switch(x) {
			case 0: if(!f.empty()) { auto m = f.front(); got(m.data(), m.size()); f.pop_front(); } break;
			case 1: for(auto m : f) got(m.data(), m.size()); break;
			default: {
				size_t k = f.available();
				F const& c = f;
				for(size_t i = 0; i < k; i++) { auto m = c.front(); got(m.data(), m.size()); f.pop_front(); }
				break; }
			}
		}
		(void)y;
	}
	void drain() override { while(!f.empty()) { auto m = f.front(); got(m.data(), m.size()); f.pop_front(); } }
};
template <typename F>
struct LoopObj : public Obj {
	struct Sink : public stored::ProtocolLayer {
		void decode(void* buffer, size_t len) override
		{
			unsigned char b[64];
			for(size_t i = 0; i < len && i < sizeof(b); i++) b[i] = ((unsigned char*)buffer)[i];
			std::string s;
			QUIET(s = bytes(std::string((char const*)b, len)));
			report("got", s);
		}
	};
	Sink sink;
	F f{&sink};
	int next = 1;
	std::string part;
	LoopObj() { sink.setDown(&f); f.setOverflowHandler([]() { return false; }); }
	void* p() override { return &f; }
	size_t n() override { return sizeof(f); }
	void op(int, Args const& a) override
	{
		std::string o, d, l;
		int x = 0, y = 0;
		QUIET(o = a[0]; x = (int)num(a, 1); y = (int)num(a, 2));
		if(o == "enc") {
			QUIET(for(int i = 0; i < x; i++) d += (char)(uint8_t)(next * 16 + i); next++; part += d; if(y) l = bytes(part));
			if(y) report("put", "[" + l + "]");
			f.encode(d.data(), d.size(), y);
			// may have been dropped
			if(y) { QUIET(part.clear()); report("pushed", "1", "\"?\""); }
		} else if(o == "pop") {
			if(x) f.recvAll(); else f.recv(0);
		}
	}
	void drain() override { while(f.recv(0) == 0); }
};

typedef std::function<Obj*()> Maker;
static std::map<std::string, Maker> makers;
template <typename T, size_t C> void regFifo(char const* t) { makers[std::string("fifo ") + t + " " + std::to_string(C)] = []() { return new FifoObj<T, stored::Fifo<T, C>>(); }; }
template <size_t C, size_t M> void regMsg() { makers["msg " + std::to_string(C) + " " + std::to_string(M)] = []() { return new MsgObj<stored::MessageFifo<C, M>>(); }; }

int main()
{
	regFifo<uint8_t, 1>("u8");
	regFifo<uint8_t, 3>("u8");
	regFifo<uint32_t, 2>("u32");
	regFifo<Pod, 2>("pod");
	regFifo<uint32_t, 4>("u32");
	regMsg<6, 2>();
	regMsg<8, 3>();
	regMsg<10, 4>();
	makers["loop 8 3"] = []() { return new LoopObj<stored::FifoLoopback1<8, 3>>(); };
	std::unique_ptr<Obj> o;
	std::vector<Args> th[3];
	run([&]() { o.reset(); th[1].clear(); th[2].clear(); },
		[&](Args const& a) {
			if(a[0] == "new") {
				std::string key;
				for(size_t i = 1; i < a.size(); i++) key += (i > 1 ? " " : "") + a[i];
				o.reset(makers.at(key)());
				rt::watch(o->p(), o->n());
				ev("{\"e\":\"init\",\"k\":%s,\"msg\":%s,\"size\":%zu}", quote(key).c_str(), a[1] == "fifo" ? "false" : "true", o->n());
			} else if(a[0] == "P" || a[0] == "C")
				th[a[0] == "P" ? 1 : 2].push_back(Args(a.begin() + 1, a.end()));
			else if(a[0] == "go") { // go <seed> <pswitch> <pstale> <first> <deviations...>
				rt::Choices c;
				c.seed = (unsigned)num(a, 1);
				c.pswitch = (int)num(a, 2);
				c.pstale = (int)num(a, 3);
				c.first = (int)num(a, 4, 1);
				for(size_t i = 5; i < a.size(); i++) c.deviate.insert((int)num(a, i));
				auto f = [&](int t) {
					size_t n = th[t].size();
					for(size_t i = 0; i < n; i++) {
						rt::point();
						o->op(t, th[t][i]);
					}
				};
				rt::run(c, [&]() { f(1); }, [&]() { f(2); });
				ev("{\"e\":\"join\",\"c\":%d}", rt::choices());
				o->drain();
				ev("{\"e\":\"fin\"}");
			}
		},
		[&]() { o.reset(); });
}
