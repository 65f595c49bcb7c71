// C20: pipes. The networks are generated; see checks/pipegen.py.
#pragma once
#include "common.h"
#include "PipeStore.h"
#include <libstored/pipes.h>
#include <chrono>
#include <memory>
using namespace h;
struct FakeClock {
	typedef std::chrono::milliseconds duration;
	typedef duration::rep rep;
	typedef duration::period period;
	typedef std::chrono::time_point<FakeClock> time_point;
	static constexpr bool is_steady = true;
	static time_point now() { return time_point(duration(t)); }
	static long t;
};
extern std::string rec;
inline void note(long a, long b) { rec += (rec.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(b) + "]"; }
class PipeStore : public STORE_T(PipeStore, stored::PipeStoreDefaultFunctions, stored::PipeStoreBase) {
	STORE_CLASS(PipeStore, stored::PipeStoreDefaultFunctions, stored::PipeStoreBase)
public:
	PipeStore() = default;
	int32_t v = 0;
	void __fn(bool set, int32_t& x) { if(set) v = x; else x = v; }
};
struct Add { // converter
	int k;
	int exit_cast(int x) const { return x > 1000000 || x < -1000000 ? 0 : x + k; }
	int entry_cast(int x) const { return x > 1000000 || x < -1000000 ? 0 : x - k; }
};
struct Near {
	bool operator()(int a, int b) const { return (a > b ? a - b : b - a) <= 2; }
};
struct World {
	PipeStore store;
	stored::Variant<PipeStore> none;
	stored::Signal<void*, void*, int> sig;
	stored::pipes::Group group;
	World()
	{
		for(long k = 0; k < 3; k++)
			for(long n = k == 2 ? 2 : 1; n; n--)
			{
				auto f = [](int x) { note(1000, x); };
				if(k)
					sig.connect((void*)k, f);
				else
					sig.connect(f);
			}
	}
	~World() { group.destroy(); }
};
struct Any {
	virtual ~Any() {}
	int id = 0;
	bool open = false, ref = false;
	virtual long inject(int how, long x) = 0;
	virtual long extract(int how) = 0;
	virtual long trigger(int how, bool& t, bool& hasout) = 0;
	virtual long ecast(long x) = 0;
	virtual long xcast(long x) = 0;
	virtual std::string cmp(long x, long y) = 0;
	virtual bool connect(Any&, int how) = 0;
	virtual void disconnect() = 0;
	virtual void const* connection() = 0;
	virtual stored::pipes::PipeBase* base() = 0;
	virtual void const* entry() = 0;
};
template <typename P>
struct Handle final : Any {
	typedef typename P::type_in I;
	typedef typename P::type_out O;
	typedef stored::pipes::Pipe<I, O> B;
	P& p;
	B& b;
	Handle(int i, P& x, int o) : p(x), b(x) { id = i; open = o == 1; ref = o == 2; }
	long inject(int how, long x) override
	{
		I i = static_cast<I>(x);
		switch(how) {
		case 0: return (long)p.inject(i).get();
		case 1: return (long)(i >> b).get();
		case 2: return (long)(b << i).get();
		case 3: return (long)b(i).get();
		case 4: {
			auto v = b.inject(i);
			auto w = std::move(v);
			return (long)w.get();
		}
		case 5: {
			O o{};
			b.inject(i).move(o);
			return (long)o;
		}
		default: {
			stored::pipes::PipeEntry<I>& e = b;
			if(how == 6)
				e.inject(i);
			else if(how == 7)
				i >> e;
			else
				e << i;
			return 0;
		}
		}
	}
	long extract(int how) override
	{
		O o{};
		switch(how) {
		case 0: return (long)p.extract().get();
		case 1: b >> o; return (long)o;
		case 2: o << b; return (long)o;
		default: {
			auto v = b.extract();
			auto w = std::move(v);
			O const& r = w;
			return (long)r;
		}
		}
	}
	long trigger(int how, bool& t, bool& hasout) override
	{
		O o{};
		hasout = false;
		stored::pipes::PipeBase& base = b;
		stored::pipes::PipeEntry<I>& e = b;
		stored::pipes::PipeExit<O>& x = b;
		switch(how) {
		case 0: x.trigger(&t, o); hasout = true; break;
		case 1: base.trigger(&t); break;
		case 2: e.trigger(&t); break;
		default: x.trigger(&t);
		}
		return (long)o;
	}
	long ecast(long x) override { return (long)p.entry_cast(static_cast<O>(x)); }
	long xcast(long x) override { return (long)p.exit_cast(static_cast<I>(x)); }
	std::string cmp(long x, long y) override
	{
		I i = static_cast<I>(x);
		O o = static_cast<O>(y);
		auto v = b.inject(i);
		std::string s;
		for(bool c : {v == o, v != o, v > o, v < o, v >= o, v <= o, o == v, o != v, o > v, o < v, o >= v, o <= v})
			s += std::string(s.empty() ? "" : ",") + (c ? "1" : "0");
		return "[" + s + "]";
	}
	bool connect(Any& q, int how) override
	{
		typedef stored::pipes::Pipe<O, O> Q;
		if(how == 2) {
			auto* x = dynamic_cast<Q*>(q.base());
			if(x)
				b.extend(*x);
			return x;
		}
		auto* x = dynamic_cast<stored::pipes::PipeEntry<O>*>(q.base());
		auto* y = dynamic_cast<Q*>(q.base());
		if(how == 1 && y)
			b >> *y;
		else if(x)
			b.connect(*x);
		return x;
	}
	void disconnect() override { b.disconnect(); }
	void const* connection() override { return b.connected() ? b.connection() : nullptr; }
	stored::pipes::PipeBase* base() override { return &b; }
	void const* entry() override { return static_cast<stored::pipes::PipeEntry<I>*>(&b); }
};
struct Table {
	World& w;
	std::map<int, std::unique_ptr<Any>> h;
	explicit Table(World& x) : w(x) {}
	template <typename P> void add(int i, P& p, int kind) { h.emplace(i, std::make_unique<Handle<P>>(i, p, kind)); }
	void run(std::string const& desc);
};
void net(int n, std::string const& desc);
