// C18: signals, and the callable objects they hold.
#include "common.h"
#include "Hooks.h"
#include <libstored/signal.h>
#include <deque>
#include <memory>
using namespace h;
static int alive;
struct Count {
	Count() { alive++; }
	Count(Count const&) { alive++; }
	Count(Count&&) { alive++; }
	Count& operator=(Count const&) = default;
	~Count() { alive--; }
};
static std::string rec;
static void note(int id, std::string const& s, int x)
{
	rec += (rec.empty() ? "" : ",") + ("{\"id\":" + std::to_string(id) + ",\"s\":" + bytes(s) + ",\"x\":" + std::to_string(x) + "}");
}
template <typename... A> struct Note;
template <> struct Note<> { static void n(int id) { note(id, "", 0); } };
template <> struct Note<std::string, int> { static void n(int id, std::string const& s, int x) { note(id, s, x); } };
static int fid[4];
template <int I, typename... A> void plain(A... a) { Note<A...>::n(fid[I], a...); }
template <typename... A>
struct Small {
	Count c;
	int id;
	void operator()(A... a) const { Note<A...>::n(id, a...); }
};
template <typename... A>
struct Big {
	Count c;
	int pad[11];
	int id;
	void operator()(A... a) const { Note<A...>::n(pad[id % 11] == id ? id : -1, a...); }
};
template <typename... A>
struct Edge { // just (not) fitting
	Count c;
	int id;
	void* p[1];
	void operator()(A... a) const { Note<A...>::n(p[0] == this->key() ? id : -1, a...); }
	void* key() const { return (void*)(uintptr_t)(id * 7); }
};
template <typename... A>
struct Lval {
	int id;
	void operator()(A... a) const { Note<A...>::n(id, a...); }
};
struct Any {
	virtual ~Any() {}
	virtual void op(Args const& a) = 0;
	int id = 0;
};
// calls f with a callable of some kind; returns if it counts
template <typename... A, typename F>
bool make(int kind, int id, std::deque<Lval<A...>>& keep, F f)
{
	switch(kind % 8) {
	default: { Small<A...> s{}; s.id = id; f(std::move(s)); return true; }
	case 1: { Big<A...> s{}; s.id = id; s.pad[id % 11] = id; f(std::move(s)); return true; }
	case 2: { Edge<A...> s{}; s.id = id; s.p[0] = s.key(); f(std::move(s)); return true; }
	case 3: keep.push_back(Lval<A...>{id}); f(keep.back()); return false;
	case 4: fid[id & 1] = id; if(id & 1) f(&plain<1, A...>); else f(&plain<0, A...>); return false;
	case 5: { std::function<void(A...)> g = Lval<A...>{id}; f(std::move(g)); return false; }
	case 6: { Count c; f([c, id](A... a) { Note<A...>::n(id, a...); }); return true; }
	case 7: { auto p = std::make_shared<Count>(); std::string n(40, 'x'); f([p, n, id](A... a) { Note<A...>::n(n.size() == 40 ? id : -1, a...); }); return true; }
	}
}
template <typename K, typename T, typename... A>
struct Sig : public Any {
	stored::Signal<K, T, A...> s;
	std::deque<Lval<A...>> keep;
	static K key(long i) { return (K)(uintptr_t)i; }
	static T tok(long i) { return (T)(uintptr_t)i; }
	void call(bool all, long k, stored::Signal<int, int>*, Args const& a)
	{
		(void)a;
		if(all) s();
		else s(key(k));
	}
	void call(bool all, long k, stored::Signal<void*, void*>*, Args const& a)
	{
		(void)a;
		if(all) s.call();
		else s.call(key(k));
	}
	void call(bool all, long k, stored::Signal<int, int, std::string, int>*, Args const& a)
	{
		if(all) s(a[2], (int)num(a, 3));
		else s(key(k), a[2], (int)num(a, 3));
	}
	void op(Args const& a) override
	{
		std::string const& c = a[0];
		long k = num(a, 1);
		rec.clear();
		if(c == "conn") { // k token kind
			++id;
			// plain functions know a single id
			bool cnt = make<A...>((int)num(a, 3), id, keep, [&](auto&& f) {
				typedef decltype(f) F;
				if(k && num(a, 2)) s.connect(key(k), std::forward<F>(f), tok(num(a, 2)));
				else if(k) s.connect(key(k), std::forward<F>(f));
				else if(num(a, 2)) s.connect(std::forward<F>(f), tok(num(a, 2)));
				else s.connect(std::forward<F>(f));
			});
			ev("{\"e\":\"conn\",\"k\":%d,\"t\":%d,\"id\":%d,\"cnt\":%s,\"fn\":%d,\"al\":%d}", (int)k, (int)num(a, 2), id, cnt ? "true" : "false", num(a, 3) % 8 == 4 ? id & 1 : -1, alive);
		} else if(c == "disc") {
			s.disconnect();
			ev("{\"e\":\"disc\",\"how\":\"all\",\"k\":0,\"t\":0,\"al\":%d}", alive);
		} else if(c == "disck") {
			s.disconnect(key(k));
			ev("{\"e\":\"disc\",\"how\":\"key\",\"k\":%d,\"t\":0,\"al\":%d}", (int)k, alive);
		} else if(c == "disct") {
			s.disconnect(key(k), tok(num(a, 2)));
			ev("{\"e\":\"disc\",\"how\":\"tok\",\"k\":%d,\"t\":%d,\"al\":%d}", (int)k, (int)num(a, 2), alive);
		} else if(c == "call") { // k (0: all) string int
			call(k == 0, k, (stored::Signal<K, T, A...>*)nullptr, a);
			bool v = sizeof...(A) > 0;
			ev("{\"e\":\"call\",\"k\":%d,\"s\":%s,\"x\":%d,\"r\":[%s],\"al\":%d}", (int)k, bytes(v ? a[2] : "").c_str(), v ? (int)num(a, 3) : 0, rec.c_str(), alive);
		} else if(c == "connd") {
			ev("{\"e\":\"connd\",\"k\":%d,\"r\":%s}", (int)k, (k ? s.connected(key(k)) : s.connected()) ? "true" : "false");
		} else if(c == "res")
			s.reserve((size_t)k);
	}
};
template <typename Base>
using Sgl = stored::Signalling<Base>;
class SStore : public STORE_T(SStore, stored::HooksDefaultFunctions, stored::Signalling, stored::HooksBase) {
	STORE_CLASS(SStore, stored::HooksDefaultFunctions, stored::Signalling, stored::HooksBase)
public:
	SStore() = default;
};
struct Vars : public Any {
	std::unique_ptr<SStore> s{new SStore};
	std::deque<Lval<>> keep;
	template <typename F>
	void with(long k, F f)
	{
		switch(k) {
		default: f(s->i8); break;
		case 2: f(s->u32); break;
		case 3: f(s->s6); break;
		case 4: f(s->b0); break;
		}
	}
	static void assign(decltype(SStore::s6)& v, long x) { std::string t(1, (char)('a' + x % 3)); v.set(t.c_str()); }
	static bool differs(decltype(SStore::s6)& v, long x) { char b[100] = {}; v.get(b, sizeof(b)); return std::string(b) != std::string(1, (char)('a' + x % 3)); }
	template <typename V> static void assign(V& v, long x) { v = (typename V::type)(x % 2); }
	template <typename V> static bool differs(V& v, long x) { return v.get() != (typename V::type)(x % 2); }
	void op(Args const& a) override
	{
		std::string const& c = a[0];
		long k = num(a, 1);
		if(!k) k = 1;
		rec.clear();
		if(c == "conn") {
			++id;
			bool cnt = make<>((int)num(a, 3), id, keep, [&](auto&& f) {
				typedef decltype(f) F;
				with(k, [&](auto& v) {
					if(num(a, 2)) s->connect(v, std::forward<F>(f), (void*)(uintptr_t)num(a, 2));
					else s->connect(v, std::forward<F>(f));
				});
			});
			ev("{\"e\":\"conn\",\"k\":%d,\"t\":%d,\"id\":%d,\"cnt\":%s,\"fn\":%d,\"al\":%d}", (int)k, (int)num(a, 2), id, cnt ? "true" : "false", num(a, 3) % 8 == 4 ? id & 1 : -1, alive);
		} else if(c == "disct" || c == "disck") {
			long t = c == "disct" ? num(a, 2) : 0;
			with(k, [&](auto& v) { if(t) s->disconnect(v, (void*)(uintptr_t)t); else s->disconnect(v); });
			ev("{\"e\":\"disc\",\"how\":\"tok\",\"k\":%d,\"t\":%d,\"al\":%d}", (int)k, (int)t, alive);
		} else if(c == "call") {
			long x = num(a, 3);
			with(k, [&](auto& v) {
				bool d = differs(v, x);
				assign(v, x);
				if(d) ev("{\"e\":\"call\",\"k\":%d,\"s\":[],\"x\":0,\"r\":[%s],\"al\":%d}", (int)k, rec.c_str(), alive);
				else ev("{\"e\":\"call\",\"k\":99,\"s\":[],\"x\":0,\"r\":[%s],\"al\":%d}", rec.c_str(), alive);
			});
		}
	}
};
// Callable slots
struct Slots : public Any {
	typedef stored::Callable<void(std::string, int)>::type C;
	C c[3];
	std::deque<Lval<std::string, int>> keep;
	void op(Args const& a) override
	{
		rec.clear();
		size_t i = (size_t)num(a, 1) % 3, j = (size_t)num(a, 2) % 3;
		std::string r;
		std::string const& o = a[0];
		bool cnt = false;
		if(o == "set") {
			++id;
			cnt = make<std::string, int>((int)num(a, 3), id, keep, [&](auto&& f) { c[i] = std::forward<decltype(f)>(f); });
		} else if(o == "ctor") {
			++id;
			c[i].~C();
			cnt = make<std::string, int>((int)num(a, 3), id, keep, [&](auto&& f) { new(&c[i]) C(std::forward<decltype(f)>(f)); });
		} else if(o == "copy") c[i] = c[j];
		else if(o == "cctor") { if(i == j) return; c[i].~C(); new(&c[i]) C(c[j]); }
		else if(o == "move") { if(i == j) return; c[i] = std::move(c[j]); }
		else if(o == "mctor") { if(i == j) return; c[i].~C(); new(&c[i]) C(std::move(c[j])); }
		else if(o == "null") c[i] = nullptr;
		else return;
		std::string ops = o == "ctor" ? "set" : o == "cctor" ? "copy" : o == "mctor" ? "move" : o;
		std::string res;
		for(auto& x : c) {
			rec.clear();
			bool threw = false;
			try { x("v", 7); } catch(std::bad_function_call const&) { threw = true; }
			res += (res.empty() ? "" : ",") + ("{\"b\":" + std::string((bool)x ? "true" : "false") + ",\"threw\":" + (threw ? "true" : "false") + ",\"r\":[" + rec + "]}");
		}
		ev("{\"e\":\"slot\",\"op\":\"%s\",\"i\":%d,\"j\":%d,\"id\":%d,\"cnt\":%s,\"fn\":%d,\"al\":%d,\"c\":[%s]}", ops.c_str(), (int)i + 1, (int)j + 1, id, cnt ? "true" : "false", (ops == "set" && num(a, 3) % 8 == 4) ? id & 1 : -1, alive, res.c_str());
	}
};
int main()
{
	std::unique_ptr<Any> w;
	return h::run(
		[&]() { w.reset(); },
		[&](Args const& a) {
			if(a[0] == "new") {
				w.reset();
				if(a[1] == "int") w.reset(new Sig<int, int>());
				else if(a[1] == "ptr") w.reset(new Sig<void*, void*>());
				else if(a[1] == "arg") w.reset(new Sig<int, int, std::string, int>());
				else if(a[1] == "var") w.reset(new Vars());
				else w.reset(new Slots());
				ev("{\"e\":\"init\",\"al\":%d}", alive);
			} else if(w)
				w->op(a);
		},
		[&]() { w.reset(); ev("{\"e\":\"end\",\"al\":%d}", alive); });
}
