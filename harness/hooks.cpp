// Accesses to two stores (of the same kind) by all kinds of accessors. All hooks are recorded.
#include "common.h"
#include <stored>
#include <Hooks.h>
#include <memory>
using namespace h;

__attribute__((no_sanitize("address"), noinline)) static std::string raw(void const* p, size_t n)
{
	std::string s(n, 0);
	char const volatile* c = (char const volatile*)p;
	for(size_t i = 0; i < n; i++)
		s[i] = c[i];
	return s;
}

struct Obj {
	std::string name;
	stored::Type::type t;
	void* p;
	size_t n;
	bool fun() const { return stored::Type::isFunction(t); }
	size_t room() const { return fun() ? 0 : n + (t == stored::Type::String ? 1U : 0U); }
};

static std::vector<std::string> hooks;

#define FUNS(F) F(fnb, bool) F(fn8, int8_t) F(fn16, uint16_t) F(fn32, int32_t) F(fn64, uint64_t) F(fnf, float) F(fnd, double)
#define VARS(F) F(p) F(b0) F(b1) F(i8) F(u8) F(i16) F(u16) F(i32) F(u32) F(i64) F(u64) F(f) F(fn) F(d) F(d0) F(bl1) F(bl5) F(bl20) F(s1) F(s6) F(s20) F(s8) F(arr_0) F(arr_1) F(arr_2) F(sc__x) F(sc__y)
#define MEMS(F) F(b0) F(b1) F(i8) F(u8) F(i16) F(u16) F(i32) F(u32) F(i64) F(u64) F(f) F(fn) F(d) F(d0) F(arr_0) F(arr_1) F(arr_2) F(sc__x) F(fnb) F(fn8) F(fn16) F(fn32) F(fn64) F(fnf) F(fnd)
#define SPECIALS(F) F(bl1) F(bl5) F(bl20) F(s1) F(s6) F(s20) F(s8) F(sc__y) F(fnbl) F(fns)

class HookStore : public STORE_SYNC_BASE_CLASS(HooksBase, HookStore) {
	STORE_SYNC_CLASS_BODY(HooksBase, HookStore)
public:
	int me = 0;
	std::vector<Obj> objs;
	std::map<std::string, std::string> regs;
	HookStore() is_default
	void prepare(int n)
	{
		me = n;
		list(
			[](void*, char const* name, stored::Type::type t, void* b, size_t l, void* arg) {
				static_cast<HookStore*>(arg)->objs.push_back(Obj{name, t, b, l});
			},
			this);
	}
	int index(void* p) const
	{
		for(size_t i = 0; i < objs.size(); i++)
			if(!objs[i].fun() && objs[i].p == p)
				return (int)i + 1;
		return 0;
	}
	int index(std::string const& name) const
	{
		for(size_t i = 0; i < objs.size(); i++)
			if(objs[i].name == name)
				return (int)i + 1;
		return 0;
	}
	void rec(char const* k, stored::Type::type t, void* p, size_t len, int c)
	{
		int i = index(p);
		hooks.push_back(std::string("{\"k\":\"") + k + "\",\"s\":" + std::to_string(me) + ",\"o\":" + std::to_string(i) + ",\"t\":" + std::to_string((int)t) + ",\"n\":" + std::to_string(len)
			+ ",\"c\":" + std::to_string(c) + ",\"b\":" + bytes(i ? raw(p, objs[(size_t)i - 1].room()) : "") + "}");
	}
	void recf(char const* name, int set, std::string const& b, size_t len)
	{
		hooks.push_back(std::string("{\"k\":\"fn\",\"s\":") + std::to_string(me) + ",\"o\":" + std::to_string(index(std::string(name))) + ",\"t\":0,\"n\":" + std::to_string(len) + ",\"c\":" + std::to_string(set)
			+ ",\"b\":" + bytes(b) + "}");
	}
	void __hookEntryX(stored::Type::type t, void* p, size_t n) noexcept
	{
		rec("EX", t, p, n, 0);
		base::__hookEntryX(t, p, n);
	}
	void __hookExitX(stored::Type::type t, void* p, size_t n, bool c) noexcept
	{
		rec("XX", t, p, n, c ? 1 : 0);
		base::__hookExitX(t, p, n, c);
	}
	bool full = false; // when synchronizing, many objects are entered at the same time
	void __hookEntryRO(stored::Type::type t, void* p, size_t n) noexcept
	{
		rec("ER", t, p, n, 0);
		if(!full)
			base::__hookEntryRO(t, p, n);
	}
	void __hookExitRO(stored::Type::type t, void* p, size_t n) noexcept
	{
		rec("XR", t, p, n, 0);
		if(!full)
			base::__hookExitRO(t, p, n);
	}
	void __hookChanged(stored::Type::type t, void* p, size_t n) noexcept
	{
		rec("CH", t, p, n, 1);
		base::__hookChanged(t, p, n);
	}
#define CH(x) \
	void __##x##__changed() noexcept \
	{ \
		rec("cb", stored::Type::Invalid, x.variant().buffer(), 0, 1); \
	}
	VARS(CH)
#undef CH
	template <typename T>
	void fun(char const* name, bool set, T& v)
	{
		std::string& r = regs[name];
		r.resize(sizeof(T), 0);
		if(set)
			memcpy(&r[0], (void*)&v, sizeof(T));
		else
			memcpy((void*)&v, r.data(), sizeof(T));
		recf(name, set, r, sizeof(T));
	}
#define FN(x, T) \
	void __##x(bool set, T& v) { fun("/" #x, set, v); }
	FUNS(FN)
#undef FN
	size_t __fnbl(bool set, void* v, size_t len)
	{
		std::string& r = regs["/fnbl"];
		r.resize(7, 0);
		size_t l = std::min<size_t>(len, 7);
		if(set)
			memcpy(&r[0], v, l);
		else
			memcpy(v, r.data(), l);
		recf("/fnbl", set, r.substr(0, l), len);
		return l;
	}
	size_t __fns(bool set, char* v, size_t len)
	{
		std::string& r = regs["/fns"];
		size_t l = std::min<size_t>(len, 9);
		if(set)
			r.assign(v, strnlen(v, l));
		else {
			l = std::min(l, r.size());
			memcpy(v, r.data(), l);
			if(l < len)
				v[l] = 0;
		}
		recf("/fns", set, r.substr(0, l), len);
		return l;
	}
};

template <typename F>
static void withType(stored::Type::type t, F&& f)
{
	switch((int)t & ~(int)stored::Type::FlagFunction) {
	case stored::Type::Bool: f(bool()); break;
	case stored::Type::Int8: f(int8_t()); break;
	case stored::Type::Uint8: f(uint8_t()); break;
	case stored::Type::Int16: f(int16_t()); break;
	case stored::Type::Uint16: f(uint16_t()); break;
	case stored::Type::Int32: f(int32_t()); break;
	case stored::Type::Uint32: f(uint32_t()); break;
	case stored::Type::Int64: f(int64_t()); break;
	case stored::Type::Uint64: f(uint64_t()); break;
	case stored::Type::Float: f(float()); break;
	case stored::Type::Double: f(double()); break;
	case stored::Type::Pointer: f((void*)nullptr); break;
	default:;
	}
}
template <typename T>
static std::string str(T const& v)
{
	return std::string((char const*)&v, sizeof(T));
}
template <typename T>
static T val(std::string const& s)
{
	T v;
	memcpy((void*)&v, s.data(), sizeof(T));
	return v;
}

struct Loop : public stored::ProtocolLayer {
	std::vector<std::string> out;
	std::string cur;
	void encode(void const* b, size_t n, bool last = true) override
	{
		cur.append((char const*)b, n);
		if(last)
			out.push_back(cur), cur.clear();
	}
	using stored::ProtocolLayer::encode;
	void decodes(std::string const& s)
	{
		std::vector<uint32_t> b(s.size() / 4 + 2);
		memcpy((char*)b.data() + 1, s.data(), s.size()); // an odd alignment may happen
		decode((char*)b.data() + 1, s.size());
	}
};

struct World {
	std::unique_ptr<HookStore> s[2];
	std::unique_ptr<stored::Synchronizer> sy[2];
	std::unique_ptr<Loop> lp[2];
	std::unique_ptr<stored::Debugger> dbg[2];
	std::unique_ptr<Loop> dl[2];
	std::vector<std::vector<std::string>> mem;
	World()
	{
		for(int i = 0; i < 2; i++) {
			s[i].reset(new HookStore());
			s[i]->prepare(i + 1);
			sy[i].reset(new stored::Synchronizer());
			lp[i].reset(new Loop());
			sy[i]->map(*s[i]);
			sy[i]->connect(*lp[i]);
			dbg[i].reset(new stored::Debugger("x"));
			dl[i].reset(new Loop());
			dl[i]->wrap(*dbg[i]);
			dbg[i]->map(*s[i]);
		}
	}
	~World()
	{
		for(int i = 0; i < 2; i++)
			sy[i]->disconnect(*lp[i]), sy[i]->unmap(*s[i]);
	}
	std::string diff(bool all = false)
	{
		std::string r;
		mem.resize(2);
		for(int i = 0; i < 2; i++) {
			mem[(size_t)i].resize(s[i]->objs.size());
			for(size_t o = 0; o < s[i]->objs.size(); o++) {
				Obj const& x = s[i]->objs[o];
				std::string m = x.fun() ? "" : raw(x.p, x.room());
				if(all || m != mem[(size_t)i][o])
					r += (r.empty() ? "" : ",") + ("{\"s\":" + std::to_string(i + 1) + ",\"o\":" + std::to_string(o + 1) + ",\"b\":" + bytes(m) + "}");
				mem[(size_t)i][o] = m;
			}
		}
		return "[" + r + "]";
	}
	std::string hk()
	{
		std::string r;
		for(auto const& x : hooks)
			r += (r.empty() ? "" : ",") + x;
		hooks.clear();
		return "[" + r + "]";
	}
	// all messages until there are no more
	void deliver()
	{
		for(bool any = true; any;) {
			any = false;
			for(int i = 0; i < 2; i++) {
				std::vector<std::string> m;
				m.swap(lp[i]->out);
				for(auto const& x : m)
					lp[1 - i]->decodes(x), any = true;
			}
		}
	}
};

// a buffer at an offset
struct Buf {
	std::vector<uint64_t> w;
	size_t off;
	Buf(size_t n, size_t o)
		: w(n / 8 + 4, 0xa5a5a5a5a5a5a5a5U)
		, off(o)
	{}
	char* p() { return (char*)w.data() + off; }
};

static std::string cstr(std::string s)
{
	s.resize(strnlen(s.data(), s.size()));
	return s;
}

static void access(World& w, Args const& a)
{
	// get|set store object accessor offset value
	bool set = a[0] == "set";
	int si = (int)(num(a, 1) & 1);
	HookStore& s = *w.s[si];
	size_t oi = (size_t)num(a, 2) % s.objs.size();
	Obj& o = s.objs[oi];
	std::string acc = a[3];
	size_t off = (size_t)num(a, 4) % 8;
	std::string v = a.size() > 5 && a[5] != "-" ? unhex(a[5]) : "";
	bool fixed = stored::Type::isFixed(o.t), isstr = stored::Type::type(o.t & ~stored::Type::FlagFunction) == stored::Type::String;
	if(fixed)
		v.resize(o.n, '\x3c');
	if(stored::Type::type(o.t & ~stored::Type::FlagFunction) == stored::Type::Bool)
		v[0] &= 1;
	std::string r; // what is read
	size_t want = v.size();
	stored::Variant<HookStore> x = o.fun() ? stored::Variant<HookStore>(s, o.t, (unsigned int)(uintptr_t)o.p, o.n) : stored::Variant<HookStore>(s, o.t, o.p, o.n);
	std::string used = "variant";
	if(fixed && (acc == "typed" || acc == "op" || acc == "free")) {
		used = acc;
		bool done = false;
		withType(o.t, [&](auto tag) {
			typedef decltype(tag) T;
			done = true;
			if(o.fun()) {
				auto f = acc == "free" ? s.template freeFunction<T>(o.name.c_str()).apply(s) : x.template function<T>();
				if(acc == "op") {
					if(set) f = val<T>(v);
					else r = str<T>((T)f);
				} else {
					if(set) f.set(val<T>(v));
					else r = str<T>(f.get());
				}
			} else {
				auto f = acc == "free" ? s.template freeVariable<T>(o.name.c_str()).apply(s) : x.template variable<T>();
				if(acc == "op") {
					if(set) f = val<T>(v);
					else r = str<T>((T)f);
				} else {
					if(set) f.set(val<T>(v));
					else r = str<T>(f.get());
				}
			}
		});
		if(!done)
			used = "none";
	} else if(fixed && acc == "buf" && o.fun()) {
		// a typed function with a buffer
		used = "buf";
		Buf b(o.n, off);
		memcpy(b.p(), v.data(), v.size());
		withType(o.t, [&](auto tag) {
			typedef decltype(tag) T;
			auto f = x.template function<T>();
			size_t n = set ? f.set((void*)b.p(), o.n) : f.get((void*)b.p(), o.n);
			if(n != o.n)
				used = "badlen";
		});
		r = std::string(b.p(), o.n);
	} else if(fixed && acc == "tvar") {
		used = acc;
		withType(o.t, [&](auto tag) {
			typedef decltype(tag) T;
			stored::Variant<HookStore> y = x;
			(void)y;
			if(o.fun()) {
				if(set) x.set(v.data(), 0);
				else x.get(&tag, 0), r = str<T>(tag);
			} else {
				if(set) x.template set<T>(val<T>(v));
				else r = str<T>(x.template get<T>());
			}
		});
	} else if(acc == "member") {
		used = "none";
#define M(m) \
	if(x == s.m.variant()) { \
		typedef std::remove_reference<decltype(s.m)>::type::type T; \
		used = acc; \
		if(off & 1) { \
			if(set) s.m = val<T>(v); \
			else r = str<T>((T)s.m); \
		} else { \
			if(set) s.m.set(val<T>(v)); \
			else r = str<T>(s.m.get()); \
		} \
	}
		MEMS(M)
#undef M
#define M(m) \
	if(x == s.m.variant()) { \
		used = acc; \
		Buf b(std::max(v.size(), o.n), off); \
		memcpy(b.p(), v.data(), v.size()); \
		if(set) s.m.set(b.p(), v.size()); \
		else { size_t n = s.m.get(b.p(), want = o.n); r = std::string(b.p(), n); } \
	}
		SPECIALS(M)
#undef M
	} else if(acc == "vec") {
		used = acc;
		if(set)
			x.set(stored::Vector<char>::type(v.begin(), v.end()));
		else {
			auto d = x.get();
			r = std::string(d.begin(), d.end());
			want = o.n;
		}
	} else if(acc == "cstr" && isstr) {
		used = acc;
		if(set) {
			v = cstr(v);
			std::vector<char> c(v.begin(), v.end()); // exactly this size
			c.push_back(0);
			x.set((char const*)c.data());
		} else {
			Buf b(o.n + 1, off);
			size_t n = x.get(b.p(), want = o.n);
			r = std::string(b.p(), n);
		}
	} else if(acc == "dbg" || acc == "dvar") {
		used = acc;
		stored::DebugVariant d = w.dbg[si]->find(o.name.c_str());
		if(!d.valid())
			used = "invalid";
		else {
			Buf b(std::max(v.size(), o.n), off);
			memcpy(b.p(), v.data(), v.size());
			if(set) d.set(b.p(), v.size());
			else {
				size_t n = d.get(b.p(), want = o.n);
				r = std::string(b.p(), fixed ? o.n : n);
			}
		}
	}
	if(used == "variant") {
		if(set) {
			std::unique_ptr<char[]> e(new char[v.size() + 8 + 8]);
			char* p = e.get() + 8 + off - 8 + 0;
			memcpy(p, v.data(), v.size());
			// the exact length, to find reads beyond it
			if(off == 0) {
				std::vector<char> t(v.begin(), v.end());
				t.shrink_to_fit();
				char none = 0;
				x.set(t.empty() ? &none : t.data(), t.size());
			} else
				x.set(p, v.size());
		} else {
			if(!fixed) want = v.size(); else want = o.n;
			std::vector<char> t(want + off, '\x5a');
			t.push_back('\x77');
			size_t n = x.get(t.data() + off, want);
			r = std::string(t.data() + off, n);
			if(t.back() != '\x77')
				used = "overrun";
		}
	}
	if(isstr && !set)
		r = cstr(r);
	ev("{\"e\":\"%s\",\"s\":%d,\"o\":%d,\"acc\":\"%s\",\"n\":%d,\"v\":%s,\"h\":%s,\"d\":%s}", a[0].c_str(), si + 1, (int)oi + 1, used.c_str(), (int)want, bytes(set ? v : r).c_str(), w.hk().c_str(), w.diff().c_str());
}

int main()
{
	std::unique_ptr<World> w;
	return run(
		[&]() {
			w.reset(new World());
			hooks.clear();
			w->hk();
			std::string o;
			for(auto const& x : w->s[0]->objs)
				o += (o.empty() ? "" : ",") + ("{\"nm\":" + bytes(x.name) + ",\"t\":" + std::to_string((int)x.t) + ",\"n\":" + std::to_string(x.n) + "}");
			ev("{\"e\":\"init\",\"sw\":%s,\"objs\":[%s],\"d\":%s}", stored::Type::isStoreSwapped(stored::Type::Int32) ? "true" : "false", o.c_str(), w->diff(true).c_str());
		},
		[&](Args const& a) {
			if(a[0] == "get" || a[0] == "set")
				access(*w, a);
			else if(a[0] == "copy") {
				int si = (int)(num(a, 1) & 1);
				size_t oi = (size_t)num(a, 2) % w->s[0]->objs.size();
				Obj& f = w->s[si]->objs[oi];
				Obj& t = w->s[1 - si]->objs[oi];
				if(f.fun())
					return;
				stored::Variant<HookStore> x(*w->s[si], f.t, f.p, f.n), y(*w->s[1 - si], t.t, t.p, t.n);
				y.copy(x);
				ev("{\"e\":\"copy\",\"s\":%d,\"o\":%d,\"h\":%s,\"d\":%s}", si + 1, (int)oi + 1, w->hk().c_str(), w->diff().c_str());
			} else if(a[0] == "dcmd") { // debugger command, read or write
				int si = (int)(num(a, 1) & 1);
				size_t oi = (size_t)num(a, 2) % w->s[0]->objs.size();
				Obj& o = w->s[si]->objs[oi];
				std::string v = a.size() > 3 ? a[3] : "";
				bool fixed = stored::Type::isFixed(o.t);
				bool set = !v.empty() && v != "-";
				std::string b;
				if(set) {
					b = unhex(v);
					if(fixed) b.resize(o.n, 0x15);
					else b.resize(std::min(b.size(), o.n));
					if(((int)o.t & ~(int)stored::Type::FlagFunction) == stored::Type::Bool) b[0] &= 1;
					bool isstr = ((int)o.t & ~(int)stored::Type::FlagFunction) == stored::Type::String;
					if(isstr) b = cstr(b);
					if(b.empty()) return;
					std::string e = b;
					if(fixed) e = std::string(b.rbegin(), b.rend());
					w->dl[si]->decodes("w" + (hex(e)) + o.name);
				} else
					w->dl[si]->decodes("r" + o.name);
				std::string r = w->dl[si]->out.empty() ? "" : w->dl[si]->out.back();
				w->dl[si]->out.clear();
				ev("{\"e\":\"dcmd\",\"s\":%d,\"o\":%d,\"set\":%s,\"v\":%s,\"ok\":%s,\"h\":%s,\"d\":%s}", si + 1, (int)oi + 1, set ? "true" : "false", bytes(b).c_str(), r == "?" ? "false" : "true",
					w->hk().c_str(), w->diff().c_str());
			} else if(a[0] == "sync") { // store si is the source
				int si = (int)(num(a, 1) & 1);
				w->s[si]->full = w->s[1 - si]->full = true;
				w->sy[1 - si]->syncFrom(*w->s[1 - si], *w->lp[1 - si]);
				w->deliver();
				w->s[si]->full = w->s[1 - si]->full = false;
				ev("{\"e\":\"sync\",\"s\":%d,\"h\":%s,\"d\":%s}", si + 1, w->hk().c_str(), w->diff().c_str());
			} else if(a[0] == "proc") {
				int si = (int)(num(a, 1) & 1);
				w->sy[si]->process();
				w->deliver();
				ev("{\"e\":\"proc\",\"s\":%d,\"h\":%s,\"d\":%s}", si + 1, w->hk().c_str(), w->diff().c_str());
			}
			hooks.clear();
		},
		[&]() { w.reset(); });
}
