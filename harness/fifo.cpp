// FIFOs of many capacities and element types, driven by a script (C15).
#include "common.h"
#include <libstored/fifo.h>
#include <cerrno>
#include <list>
#include <memory>
using namespace h;

template <typename T> T mk(long x) { return (T)x; }
template <> std::string mk<std::string>(long x) { return "a string that is not small, and does not fit: " + std::to_string(x); }
struct Pod { int a; double b; char c[3]; };
template <> Pod mk<Pod>(long x) { Pod p; p.a = (int)x; p.b = (double)x / 4; p.c[0] = p.c[1] = p.c[2] = (char)x; return p; }
template <> std::vector<int> mk<std::vector<int>>(long x) { return std::vector<int>((size_t)(x % 5 + 2), (int)x); }
static std::string val(uint8_t x) { return std::to_string((unsigned)x); }
static std::string val(int x) { return std::to_string(x); }
static std::string val(std::string const& x) { long v = strtol(x.c_str() + std::min(x.size(), (size_t)46), nullptr, 10); return x == mk<std::string>(v) ? std::to_string(v) : "-1"; }
static std::string val(Pod const& x) { return x.b * 4 == x.a && x.c[0] == (char)x.a && x.c[1] == (char)x.a && x.c[2] == (char)x.a ? std::to_string(x.a) : "-1"; }
static std::string val(std::vector<int> const& x) { return x.size() >= 2 && x == mk<std::vector<int>>(x[0]) ? std::to_string(x[0]) : "-1"; }

struct Obj {
	virtual ~Obj() {}
	virtual void run(Args const& a) = 0;
};
static char const* tf(bool b) { return b ? "true" : "false"; }
static std::string num0(size_t x) { return x > 1000000000u ? std::string("-1") : std::to_string(x); }

struct List {
	std::string s = "[";
	template <typename V> void add(V const& v) { if(s.size() > 1) s += ","; s += v; }
	std::string str() const { return s + "]"; }
};

template <typename T, typename F>
struct FifoObj : public Obj {
	F f;
	std::string obs()
	{
		List items, idx, view;
		for(size_t i = 0; i < f.available(); i++) {
			items.add(val(f.peek(i)));
			F const& c = f;
			idx.add(val(i & 1 ? f[i] : c[i]));
		}
		auto v = f.view();
		for(size_t i = 0; i < v.size(); i++)
			view.add(val(v[i]));
		F const& c = f;
		return std::string("{\"avail\":") + std::to_string(f.available()) + ",\"empty\":" + tf(f.empty()) + ",\"full\":" + tf(f.full())
			+ ",\"space\":" + num0(f.space()) + ",\"chunk\":" + num0(f.available_chunk()) + ",\"items\":" + items.str() + ",\"idx\":" + idx.str()
			+ ",\"view\":" + view.str() + ",\"front\":[" + (f.empty() ? "" : val(c.front())) + "]}";
	}
	void run(Args const& a) override
	{
		std::string const& op = a[0];
		if(op == "put") { // put <how> <first value> <count>
			long x = num(a, 2);
			size_t n = (size_t)num(a, 3);
			int how = (int)num(a, 1);
			if(n > f.space()) n = f.space();
			if(how < 2 && n > 1) n = 1;
			if(how == 3 && n > 3) n = 3;
			std::vector<T> vs;
			List l;
			for(size_t i = 0; i < n; i++) { vs.push_back(mk<T>((x + (long)i) % 100 + 1)); l.add(std::to_string((x + (long)i) % 100 + 1)); }
			switch(how) {
			case 0: if(n) f.push_back(vs[0]); break;
			case 1: if(n) f.emplace_back(vs[0]); break;
			case 2: { std::list<T> ls(vs.begin(), vs.end()); f.push_back(ls.begin(), ls.end()); break; }
			case 3:
				if(n == 0) f.push_back(std::initializer_list<T>{});
				if(n == 1) f.push_back({vs[0]});
				if(n == 2) f.push_back({vs[0], vs[1]});
				if(n == 3) f.push_back({vs[0], vs[1], vs[2]});
				break;
			default: f.push_back(vs.data(), n);
			}
			ev("{\"e\":\"put\",\"v\":%s,\"o\":%s}", l.str().c_str(), obs().c_str());
		} else if(op == "pop") {
			size_t n = std::min((size_t)num(a, 1, 1), f.available());
			if(n == 1 && a.size() < 2) f.pop_front(); else f.pop_front(n);
			ev("{\"e\":\"pop\",\"n\":%zu,\"o\":%s}", n, obs().c_str());
		} else if(op == "iter") { // by iterator; at most n
			size_t n = (size_t)num(a, 1), c = 0;
			List l;
			bool end = false;
			if(num(a, 2) == 1) {
				for(auto const& x : f) { l.add(val(x)); c++; }
				end = true;
			} else {
				auto it = f.begin();
				for(; c < n && it != f.end(); c++) {
					if(num(a, 2) == 2) { auto w = it++; l.add(val(*w)); }
					else { l.add(val(*it)); ++it; }
				}
				end = it == f.end();
			}
			ev("{\"e\":\"iter\",\"n\":%zu,\"v\":%s,\"end\":%s,\"o\":%s}", c, l.str().c_str(), tf(end), obs().c_str());
		} else if(op == "poke") {
			if(f.empty()) return;
			size_t i = (size_t)num(a, 1) % f.available();
			long x = num(a, 2) % 100 + 1;
			if(i == 0 && num(a, 3) == 0) f.front() = mk<T>(x);
			else if(num(a, 3) == 1) f[i] = mk<T>(x);
			else f.peek(i) = mk<T>(x);
			ev("{\"e\":\"poke\",\"i\":%zu,\"v\":%ld,\"o\":%s}", i + 1, x, obs().c_str());
		} else if(op == "clear") {
			f.clear();
			ev("{\"e\":\"clear\",\"o\":%s}", obs().c_str());
		} else if(op == "view") { // view <how> <from> <len>
			auto v = f.view();
			size_t av = f.available(), from = std::min((size_t)num(a, 2), av), n = std::min((size_t)num(a, 3), av - from);
			switch(num(a, 1)) {
			case 0: v = v.subview(from, n); break;
			case 1: v = v.subview(from); n = av - from; break;
			case 2: v.lstrip(from); v.rstrip(av - from - n); break;
			case 3: v.rstrip(av - from - n); v.lstrip(from); break;
			default: v = v.subview(from).subview(0, n); break;
			}
			std::vector<T> cp(v.size() + 1), sp(av + 1);
			v.copy(cp.data());
			T const* ct = v.contiguous(sp.data());
			List idx, cpl, cont, it;
			for(size_t i = 0; i < v.size(); i++) { idx.add(val(v[i])); cpl.add(val(cp[i])); cont.add(val(ct[i])); }
			for(auto const& x : v) it.add(val(x));
			ev("{\"e\":\"view\",\"from\":%zu,\"n\":%zu,\"size\":%zu,\"empty\":%s,\"idx\":%s,\"copy\":%s,\"cont\":%s,\"it\":%s,\"o\":%s}", from, n, v.size(), tf(v.empty()),
				idx.str().c_str(), cpl.str().c_str(), cont.str().c_str(), it.str().c_str(), obs().c_str());
		}
	}
};

template <typename F>
static std::string obsMsg(F& f, std::string const& front)
{
	return std::string("{\"avail\":") + std::to_string(f.available()) + ",\"empty\":" + tf(f.empty()) + ",\"full\":" + tf(f.full())
		+ ",\"space\":" + num0(f.space()) + ",\"front\":[" + front + "]}";
}

template <typename F>
struct MsgObj : public Obj {
	F f;
	std::string obs()
	{
		F const& c = f;
		std::string fr;
		if(!f.empty()) {
			auto m = c.front();
			auto n = f.front();
			std::string s(m.data(), m.size()), t(n.data(), n.size());
			fr = s == t ? bytes(s) : "[-1]";
		}
		return obsMsg(f, fr);
	}
	template <typename C>
	std::string attempt(C&& c)
	{
		try { return tf(c()); } catch(std::bad_alloc const&) { return "throw"; }
	}
	static std::string payload(long x, size_t n)
	{
		std::string s;
		for(size_t i = 0; i < n; i++) s += (char)(uint8_t)(x * 7 + (long)i * 3 + 1);
		return s;
	}
	void run(Args const& a) override
	{
		std::string const& op = a[0];
		if(op == "app" || op == "push") { // op <seed> <len> <how>
			std::string d = payload(num(a, 1), (size_t)num(a, 2));
			std::unique_ptr<char[]> p(new char[d.size()]); // exact size
			memcpy(p.get(), d.data(), d.size());
			bool m = num(a, 3);
			std::string r = attempt([&]() {
				if(op == "app") return m ? f.append_back(stored::MessageView(p.get(), d.size())) : f.append_back(p.get(), d.size());
				return m ? f.push_back(stored::MessageView(p.get(), d.size())) : f.push_back(p.get(), d.size());
			});
			ev("{\"e\":\"%s\",\"v\":%s,\"r\":\"%s\",\"o\":%s}", op.c_str(), bytes(d).c_str(), r.c_str(), obs().c_str());
		} else if(op == "pushn") { // a list of messages: <seed> <how> <len...>
			std::vector<std::string> ds;
			List l;
			for(size_t i = 3; i < a.size(); i++) { ds.push_back(payload(num(a, 1) + (long)i, (size_t)num(a, i))); l.add(bytes(ds.back())); }
			size_t r = 0;
			if(num(a, 2) == 0) {
				std::vector<stored::MessageView> vs;
				for(auto& d : ds) vs.emplace_back(d.data(), d.size());
				r = f.push_back(vs.begin(), vs.end());
			} else {
				if(ds.size() == 1) r = f.push_back({stored::MessageView{ds[0]}});
				if(ds.size() == 2) r = f.push_back({stored::MessageView{ds[0]}, stored::MessageView{ds[1]}});
				if(ds.size() >= 3) { r = f.push_back({stored::MessageView{ds[0]}, stored::MessageView{ds[1]}, stored::MessageView{ds[2]}}); l = List(); for(int i = 0; i < 3; i++) l.add(bytes(ds[(size_t)i])); }
			}
			ev("{\"e\":\"pushn\",\"v\":%s,\"r\":%zu,\"o\":%s}", l.str().c_str(), r, obs().c_str());
		} else if(op == "done") {
			std::string r = attempt([&]() { return f.push_back(); });
			ev("{\"e\":\"done\",\"r\":\"%s\",\"o\":%s}", r.c_str(), obs().c_str());
		} else if(op == "reset") {
			if(num(a, 1)) f.pop_back(); else f.reset_back();
			ev("{\"e\":\"reset\",\"o\":%s}", obs().c_str());
		} else if(op == "pop") {
			if(f.empty()) return;
			f.pop_front();
			ev("{\"e\":\"pop\",\"n\":1,\"o\":%s}", obs().c_str());
		} else if(op == "iter") {
			size_t n = (size_t)num(a, 1), c = 0;
			List l;
			bool end = false;
			if(num(a, 2) == 1) {
				for(auto const& x : f) { l.add(bytes(std::string(x.data(), x.size()))); c++; }
				end = true;
			} else {
				auto it = f.begin();
				for(; c < n && it != f.end(); c++) { auto x = *it; l.add(bytes(std::string(x.data(), x.size()))); ++it; }
				end = it == f.end();
			}
			ev("{\"e\":\"iter\",\"n\":%zu,\"v\":%s,\"end\":%s,\"o\":%s}", c, l.str().c_str(), tf(end), obs().c_str());
		} else if(op == "clear") {
			f.clear();
			ev("{\"e\":\"clear\",\"o\":%s}", obs().c_str());
		}
	}
};

template <typename F>
struct LoopObj : public Obj {
	struct Sink : public stored::ProtocolLayer {
		std::vector<std::string> got;
		void decode(void* buffer, size_t len) override { got.emplace_back(static_cast<char*>(buffer), len); }
	};
	Sink sink;
	F f{&sink};
	bool handler = false;
	LoopObj() { sink.setDown(&f); }
	std::string gotten()
	{
		List l;
		for(auto const& s : sink.got) l.add(bytes(s));
		sink.got.clear();
		return l.str();
	}
	// The front cannot be observed without receiving.
	std::string obs() { return obsMsg(f, ""); }
	void run(Args const& a) override
	{
		std::string const& op = a[0];
		if(op == "enc") { // enc <seed> <len> <last>
			std::string d = MsgObj<int>::payload(num(a, 1), (size_t)num(a, 2));
			bool last = num(a, 3);
			f.encode(d.data(), d.size(), last);
			ev("{\"e\":\"enc\",\"v\":%s,\"last\":%s,\"h\":%s,\"got\":%s,\"err\":%s,\"o\":%s}", bytes(d).c_str(), tf(last), tf(handler), gotten().c_str(), tf(f.lastError() != 0), obs().c_str());
		} else if(op == "recv") {
			int r = 0;
			if(num(a, 1)) f.recvAll(); else r = f.recv(0);
			ev("{\"e\":\"recv\",\"all\":%s,\"r\":%d,\"got\":%s,\"err\":%s,\"o\":%s}", tf(num(a, 1)), r, gotten().c_str(), tf(f.lastError() != 0), obs().c_str());
		} else if(op == "lreset") {
			f.reset();
			ev("{\"e\":\"lreset\",\"err\":%s,\"o\":%s}", tf(f.lastError() != 0), obs().c_str());
		} else if(op == "mtu")
			ev("{\"e\":\"mtu\",\"mtu\":%zu,\"o\":%s}", f.mtu(), obs().c_str());
		else if(op == "handler") {
			handler = num(a, 1);
			if(handler) f.setOverflowHandler([this]() { return f.recv(0) == 0; });
			else f.setOverflowHandler();
		}
	}
};

typedef std::function<Obj*()> Maker;
static std::map<std::string, Maker> makers;
template <typename T, size_t C, bool S> void regFifo(char const* t)
{
	makers[std::string("fifo ") + t + " " + std::to_string(C) + " " + std::to_string((int)S)] = []() { return new FifoObj<T, stored::Fifo<T, C, S>>(); };
}
template <size_t C, size_t M, bool S> void regMsg()
{
	makers["msg " + std::to_string(C) + " " + std::to_string(M) + " " + std::to_string((int)S)] = []() { return new MsgObj<stored::MessageFifo<C, M, S>>(); };
}
template <size_t C, size_t M> void regLoop()
{
	makers["loop " + std::to_string(C) + " " + std::to_string(M)] = []() { return new LoopObj<stored::FifoLoopback1<C, M>>(); };
}
template <typename T> void regs(char const* t)
{
	regFifo<T, 0, false>(t);
	regFifo<T, 1, true>(t);
	regFifo<T, 2, true>(t);
	regFifo<T, 3, false>(t);
	regFifo<T, 8, true>(t);
	regFifo<T, 127, true>(t);
	regFifo<T, 130, true>(t);
	regFifo<T, 254, true>(t);
	regFifo<T, 255, false>(t);
	regFifo<T, 300, true>(t);
}

int main()
{
	regs<uint8_t>("u8");
	regs<int>("int");
	regs<std::string>("string");
	regs<Pod>("pod");
	regs<std::vector<int>>("vector");
	regMsg<0, 0, false>();
	regMsg<0, 3, false>();
	regMsg<16, 0, false>();
	regMsg<2, 2, true>();
	regMsg<3, 1, true>();
	regMsg<8, stored::impl::defaultMessages(8), true>();
	regMsg<10, 4, true>();
	regMsg<16, 16, false>();
	regMsg<64, stored::impl::defaultMessages(64), true>();
	regMsg<128, 40, true>();
	regMsg<200, 5, true>();
	regMsg<255, 40, true>();
	regMsg<256, 300, true>();
	regMsg<300, 200, true>();
	regLoop<4, 2>();
	regLoop<10, 4>();
	regLoop<64, 8>();
	regLoop<255, 40>();
	std::unique_ptr<Obj> o;
	run([&]() { o.reset(); },
		[&](Args const& a) {
			if(a[0] == "new") { // new <key...>
				std::string key;
				for(size_t i = 1; i < a.size(); i++) key += (i > 1 ? " " : "") + a[i];
				o.reset(makers.at(key)());
				bool fifo = a[1] == "fifo";
				ev("{\"e\":\"init\",\"k\":{\"t\":\"%s\",\"cap\":%ld,\"max\":%ld,\"key\":%s}}", a[1].c_str(), num(a, fifo ? 3 : 2), fifo ? 0 : num(a, 3), quote(key).c_str());
			} else
				o->run(a);
		},
		[&]() { o.reset(); });
}
