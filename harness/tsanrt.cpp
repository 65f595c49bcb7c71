// Not compiled with -fsanitize=thread; it is the runtime.
#include "tsanrt.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <ucontext.h>

extern "C" void* __real_memcpy(void*, void const*, size_t);
extern "C" void* __real_memmove(void*, void const*, size_t);
extern "C" void* __real_memset(void*, int, size_t);

namespace rt {
typedef unsigned __int128 u128;
struct Mod {
	u128 value;
	int thread;
	int epoch;
	int rel[3];
	bool isrel;
};
struct Acc {
	bool w;
	size_t off, len;
};
static struct {
	int cur;
	int quiet = 1;
	char const* base[4];
	size_t len[4];
	size_t nbase = 0;
	int clock[3][3];
	int relfence[3][3];
	int acqpend[3][3];
	std::map<uintptr_t, std::vector<Mod>>* loc;
	std::map<uintptr_t, size_t>* seen[3];
	std::vector<Acc>* acc[3];
	Choices const* c;
	unsigned rnd;
	int point = 0;
	bool done[3];
	ucontext_t ctx[3];
	char* stack[3];
	std::function<void()>* fn[3];
} S;

Quiet::Quiet() { S.quiet++; }
Quiet::~Quiet() { S.quiet--; }
int self() { return S.cur; }
int choices() { return S.point; }

void watch(void const* p, size_t len)
{
	if(!S.loc) {
		S.loc = new std::map<uintptr_t, std::vector<Mod>>();
		for(int i = 0; i < 3; i++) {
			S.seen[i] = new std::map<uintptr_t, size_t>();
			S.acc[i] = new std::vector<Acc>();
			S.stack[i] = (char*)malloc(1 << 18);
		}
	}
	S.base[0] = (char const*)p;
	S.len[0] = len;
	S.nbase = 1;
	S.loc->clear();
	for(int i = 0; i < 3; i++) {
		S.seen[i]->clear();
		S.acc[i]->clear();
		for(int j = 0; j < 3; j++)
			S.clock[i][j] = S.relfence[i][j] = S.acqpend[i][j] = 0;
	}
	S.point = 0;
}
static bool inside(void const* p, size_t n, size_t& off)
{
	char const* c = (char const*)p;
	if(S.nbase && c + n > S.base[0] && c < S.base[0] + S.len[0]) {
		off = c < S.base[0] ? 0 : (size_t)(c - S.base[0]);
		return true;
	}
	return false;
}
static void access(bool w, void const* p, size_t n)
{
	size_t off;
	if(S.quiet || S.cur == 0 || n == 0 || !inside(p, n, off))
		return;
	Quiet q;
	std::vector<Acc>& a = *S.acc[S.cur];
	for(size_t i = 0; i < a.size(); i++)
		if(a[i].w == w && a[i].off == off && a[i].len >= n)
			return; // again
	if(!a.empty() && a.back().w == w && a.back().off + a.back().len == off)
		a.back().len += n;
	else
		a.push_back(Acc{w, off, n});
}
std::string flush()
{
	Quiet q;
	std::string s = "[";
	for(Acc const& a : *S.acc[S.cur]) {
		char b[64];
		snprintf(b, sizeof(b), "%s{\"w\":%s,\"a\":%zu,\"n\":%zu}", s.size() > 1 ? "," : "", a.w ? "true" : "false", a.off, a.len);
		s += b;
	}
	S.acc[S.cur]->clear();
	return s + "]";
}
void event(std::string const& json)
{
	Quiet q;
	// {"e":...} -> {"e":...,"t":..,"acc":[..]}
	std::string a = flush();
	printf("%s,\"t\":%d,\"acc\":%s}\n", json.substr(0, json.size() - 1).c_str(), S.cur, a.c_str());
}
static bool deviate(int prob)
{
	int p = S.point++;
	if(S.c->seed) {
		S.rnd = S.rnd * 1103515245u + 12345u;
		return (int)((S.rnd >> 16) % 100u) < prob;
	}
	return S.c->deviate.count(p) > 0;
}
static void switchTo(int t)
{
	int f = S.cur;
	S.cur = t;
	swapcontext(&S.ctx[f], &S.ctx[t]);
}
void point()
{
	if(S.cur == 0 || S.quiet)
		return;
	int o = 3 - S.cur;
	if(S.done[o])
		return;
	Quiet* q = new Quiet();
	bool d = deviate(S.c->pswitch);
	delete q;
	if(d)
		switchTo(o);
}
static void entry(int t)
{
	(*S.fn[t])();
	S.quiet++;
	S.done[t] = true;
	if(!S.acc[t]->empty())
		event("{\"e\":\"end\"}");
	S.quiet--;
	int o = 3 - t;
	if(S.done[o]) {
		S.cur = 0;
		setcontext(&S.ctx[0]);
	} else {
		S.cur = o;
		setcontext(&S.ctx[o]);
	}
}
void run(Choices const& c, std::function<void()> t1, std::function<void()> t2)
{
	S.c = &c;
	S.rnd = c.seed * 2654435761u + 17u;
	S.fn[1] = &t1;
	S.fn[2] = &t2;
	// everything of before happens before both
	for(int t = 1; t < 3; t++) {
		for(int j = 0; j < 3; j++)
			S.clock[t][j] = S.clock[0][j];
		S.clock[t][t]++;
		S.done[t] = false;
		getcontext(&S.ctx[t]);
		S.ctx[t].uc_stack.ss_sp = S.stack[t];
		S.ctx[t].uc_stack.ss_size = 1 << 18;
		S.ctx[t].uc_link = nullptr;
		makecontext(&S.ctx[t], (void (*)())entry, 1, t);
	}
	S.cur = c.first;
	S.quiet = 0;
	swapcontext(&S.ctx[0], &S.ctx[c.first]);
	S.quiet = 1;
	S.cur = 0;
	for(int j = 0; j < 3; j++)
		S.clock[0][j] = std::max(S.clock[0][j], std::max(S.clock[1][j], S.clock[2][j]));
}

/* ------------------------------------------------------------- atomics */
enum { Relaxed, Consume, Acquire, Release, AcqRel, SeqCst };
static bool acq(int mo) { return mo == Consume || mo == Acquire || mo == AcqRel || mo == SeqCst; }
static bool rel(int mo) { return mo == Release || mo == AcqRel || mo == SeqCst; }
template <typename T>
static std::vector<Mod>& mods(void const* p)
{
	std::vector<Mod>& m = (*S.loc)[(uintptr_t)p];
	if(m.empty()) {
		Mod i;
		memset(&i, 0, sizeof(i));
		i.value = (u128) * (T const volatile*)p;
		m.push_back(i);
	}
	return m;
}
static void join(int* a, int const* b)
{
	for(int j = 0; j < 3; j++)
		a[j] = std::max(a[j], b[j]);
}
static void obtain(Mod const& m, int mo)
{
	int t = S.cur;
	if(!m.isrel)
		return;
	join(S.acqpend[t], m.rel);
	if(acq(mo))
		join(S.clock[t], m.rel);
}
static void log(char const* k, void const* p, size_t n, int mo, size_t from, size_t to)
{
	size_t off = 0;
	inside(p, n, off);
	char b[160];
	snprintf(b, sizeof(b), "{\"e\":\"at\",\"k\":\"%s\",\"a\":%zu,\"acq\":%s,\"rel\":%s,\"i\":%zu,\"j\":%zu}", k, off, acq(mo) ? "true" : "false", rel(mo) ? "true" : "false", from, to);
	event(b);
}
static bool watched(void const* p, size_t n)
{
	size_t off;
	return S.cur != 0 && S.quiet == 0 && inside(p, n, off);
}
template <typename T>
static T load(T const volatile* p, int mo)
{
	if(!watched((void const*)p, sizeof(T)))
		return *p;
	point();
	Quiet q;
	int t = S.cur;
	std::vector<Mod>& m = mods<T>((void const*)p);
	size_t lo = (*S.seen[t])[(uintptr_t)p];
	for(size_t i = lo; i < m.size(); i++)
		if(m[i].thread == t || m[i].epoch <= S.clock[t][m[i].thread])
			lo = i;
	size_t i = m.size() - 1;
	if(lo < i && mo != SeqCst && deviate(S.c->pstale))
		i = S.c->seed ? lo + (S.rnd >> 8) % (m.size() - lo) : lo;
	(*S.seen[t])[(uintptr_t)p] = i;
	obtain(m[i], mo);
	log("l", (void const*)p, sizeof(T), mo, i + 1, 0);
	return (T)m[i].value;
}
template <typename T>
static size_t add(T volatile* p, T v, int mo, Mod const* prev)
{
	int t = S.cur;
	std::vector<Mod>& m = mods<T>((void const*)p);
	Mod n;
	memset(&n, 0, sizeof(n));
	n.value = (u128)v;
	n.thread = t;
	n.epoch = S.clock[t][t];
	if(rel(mo)) {
		n.isrel = true;
		memcpy(n.rel, S.clock[t], sizeof(n.rel));
	} else if(S.relfence[t][t]) {
		n.isrel = true;
		memcpy(n.rel, S.relfence[t], sizeof(n.rel));
	}
	if(prev && prev->isrel) { // release sequence
		n.isrel = true;
		join(n.rel, prev->rel);
	}
	m.push_back(n);
	S.clock[t][t]++;
	(*S.seen[t])[(uintptr_t)p] = m.size() - 1;
	*p = v;
	return m.size();
}
template <typename T>
static void store(T volatile* p, T v, int mo)
{
	if(!watched((void const*)p, sizeof(T))) {
		*p = v;
		return;
	}
	point();
	Quiet q;
	mods<T>((void const*)p);
	log("s", (void const*)p, sizeof(T), mo, 0, mods<T>((void const*)p).size() + 1);
	add<T>(p, v, mo, nullptr);
}
template <typename T, typename F>
static T rmw(T volatile* p, int mo, F f)
{
	if(!watched((void const*)p, sizeof(T))) {
		T o = *p;
		*p = f(o);
		return o;
	}
	point();
	Quiet q;
	std::vector<Mod>& m = mods<T>((void const*)p);
	Mod prev = m.back();
	size_t i = m.size();
	obtain(prev, mo);
	log("x", (void const*)p, sizeof(T), mo, i, i + 1);
	add<T>(p, f((T)prev.value), mo, &prev);
	return (T)prev.value;
}
template <typename T>
static bool cas(T volatile* p, T* e, T v, int mo, int fmo)
{
	if(!watched((void const*)p, sizeof(T))) {
		if(*p == *e) {
			*p = v;
			return true;
		}
		*e = *p;
		return false;
	}
	point();
	Quiet q;
	std::vector<Mod>& m = mods<T>((void const*)p);
	Mod prev = m.back();
	size_t i = m.size();
	if((T)prev.value == *e) {
		obtain(prev, mo);
		log("x", (void const*)p, sizeof(T), mo, i, i + 1);
		add<T>(p, v, mo, &prev);
		return true;
	}
	(*S.seen[S.cur])[(uintptr_t)p] = i - 1;
	obtain(prev, fmo);
	log("l", (void const*)p, sizeof(T), fmo, i, 0);
	*e = (T)prev.value;
	return false;
}
static void fence(int mo)
{
	if(S.cur == 0 || S.quiet)
		return;
	point();
	Quiet q;
	int t = S.cur;
	char b[96];
	snprintf(b, sizeof(b), "{\"e\":\"fence\",\"acq\":%s,\"rel\":%s}", acq(mo) ? "true" : "false", rel(mo) ? "true" : "false");
	event(b);
	if(acq(mo))
		join(S.clock[t], S.acqpend[t]);
	if(rel(mo)) {
		memcpy(S.relfence[t], S.clock[t], sizeof(S.relfence[t]));
		S.clock[t][t]++;
	}
}
} // namespace rt

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { rt::access(true, p, sizeof(void*)); }
void __tsan_vptr_read(void** p) { rt::access(false, p, sizeof(void*)); }
void __tsan_read_range(void* p, unsigned long n) { rt::access(false, p, n); }
void __tsan_write_range(void* p, unsigned long n) { rt::access(true, p, n); }
#define RW(n) \
	void __tsan_read##n(void* p) { rt::access(false, p, n); } \
	void __tsan_write##n(void* p) { rt::access(true, p, n); } \
	void __tsan_read_write##n(void* p) { rt::access(false, p, n); rt::access(true, p, n); } \
	void __tsan_volatile_read##n(void* p) { rt::access(false, p, n); } \
	void __tsan_volatile_write##n(void* p) { rt::access(true, p, n); } \
	void __tsan_unaligned_read##n(void* p) { rt::access(false, p, n); } \
	void __tsan_unaligned_write##n(void* p) { rt::access(true, p, n); } \
	void __tsan_unaligned_volatile_read##n(void* p) { rt::access(false, p, n); } \
	void __tsan_unaligned_volatile_write##n(void* p) { rt::access(true, p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(n, T) \
	T __tsan_atomic##n##_load(T const volatile* p, int mo) { return rt::load<T>(p, mo); } \
	void __tsan_atomic##n##_store(T volatile* p, T v, int mo) { rt::store<T>(p, v, mo); } \
	T __tsan_atomic##n##_exchange(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T) { return v; }); } \
	T __tsan_atomic##n##_fetch_add(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T o) { return (T)(o + v); }); } \
	T __tsan_atomic##n##_fetch_sub(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T o) { return (T)(o - v); }); } \
	T __tsan_atomic##n##_fetch_and(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T o) { return (T)(o & v); }); } \
	T __tsan_atomic##n##_fetch_or(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T o) { return (T)(o | v); }); } \
	T __tsan_atomic##n##_fetch_xor(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T o) { return (T)(o ^ v); }); } \
	T __tsan_atomic##n##_fetch_nand(T volatile* p, T v, int mo) { return rt::rmw<T>(p, mo, [&](T o) { return (T)~(o & v); }); } \
	int __tsan_atomic##n##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int f) { return rt::cas<T>(p, e, v, mo, f); } \
	int __tsan_atomic##n##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int f) { return rt::cas<T>(p, e, v, mo, f); } \
	T __tsan_atomic##n##_compare_exchange_val(T volatile* p, T e, T v, int mo, int f) { rt::cas<T>(p, &e, v, mo, f); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { rt::fence(mo); }
void __tsan_atomic_signal_fence(int) {}
void* __wrap_memcpy(void* d, void const* s, size_t n)
{
	rt::access(false, s, n);
	rt::access(true, d, n);
	return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n)
{
	rt::access(false, s, n);
	rt::access(true, d, n);
	return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
	rt::access(true, d, n);
	return __real_memset(d, c, n);
}
}
