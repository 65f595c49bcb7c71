// C19: pollers.
#include "common.h"
#include <libstored/poller.h>
#include <libstored/protocol.h>
#include <libstored/zmq.h>
#include <fcntl.h>
#include <memory>
#include <unistd.h>
#include <zmq.h>
using namespace h;
using stored::Pollable;
static void* ctx;
static int uid;
struct Res {
	char kind = 'a';
	int rd = -1, wr = -1;
	void *s = nullptr, *peer = nullptr;
	std::unique_ptr<stored::SyncZmqLayer> layer, lpeer;
	Pollable::Events cb;
	bool thr = false;
	~Res()
	{
		if(rd >= 0) close(rd);
		if(wr >= 0) close(wr);
		if(s) zmq_close(s);
		if(peer) zmq_close(peer);
	}
};
struct Fl final : stored::PolledFileLayer {
	int f;
	explicit Fl(int x) : f(x) {}
	fd_type fd() const override { return f; }
	int recv(long) override { return 0; }
	bool isOpen() const override { return true; }
	void close() override {}
};
// fds below -1 are special for the LoopPoller
namespace stored {
int poll_once(TypedPollable const& p, Pollable::Events& revents) noexcept
{
	if(p.type() == PollableFd::staticType()) {
		int fd = static_cast<PollableFd const&>(p).fd;
		if(fd == -100)
			return EAGAIN;
		if(fd == -101)
			return EIO;
	}
	return poll_once_default(p, revents);
}
}
struct Slot {
	std::string type;
	int res;
	Pollable::Events ev;
	std::unique_ptr<Fl> fl;
	std::unique_ptr<stored::TypedPollable> p;
	bool old = false;
};
static std::map<int, std::unique_ptr<Res>> R;
static std::map<int, Slot> S;
static Pollable::Events evs(std::string const& s)
{
	Pollable::Events e;
	for(char c : s)
		switch(c) {
		case 'I': e.set(Pollable::PollInIndex); break;
		case 'O': e.set(Pollable::PollOutIndex); break;
		case 'E': e.set(Pollable::PollErrIndex); break;
		case 'P': e.set(Pollable::PollPriIndex); break;
		case 'H': e.set(Pollable::PollHupIndex); break;
		default:;
		}
	return e;
}
static std::string str(Pollable::Events const& e)
{
	std::string s;
	for(int i = 0; i < 5; i++)
		if(e.test((size_t)i))
			s += std::string(s.empty() ? "\"" : ",\"") + "IOEPH"[i] + "\"";
	return "[" + s + "]";
}
static std::string str(unsigned long long e) { return str(Pollable::Events(e)); }
static std::string list(std::vector<int> const& l)
{
	std::string s;
	for(int i : l)
		s += (s.empty() ? "" : ",") + std::to_string(i);
	return "[" + s + "]";
}
static int slot(void* user) { return user ? (int)((intptr_t)user - 1000) : -1; }
struct Any {
	virtual ~Any() {}
	virtual int add(Pollable& p) = 0;
	virtual int add(std::vector<Pollable*> const& l) = 0;
	virtual int remove(Pollable& p) = 0;
	virtual bool empty() = 0;
	virtual void clear() = 0;
	virtual void reserve(int n) = 0;
	virtual std::string poll(int t, bool old, int* e) = 0;
	virtual stored::Poller* old() { return nullptr; }
};
#define L1 {*l[0]}
#define L2 {*l[0], *l[1]}
#define L3 {*l[0], *l[1], *l[2]}
#define L4 {*l[0], *l[1], *l[2], *l[3]}
template <typename P>
struct Impl final : Any {
	std::unique_ptr<P> p;
	Impl() : p(new P) {}
	explicit Impl(std::vector<Pollable*> const& l)
	{
		switch(l.size()) {
		case 1: p.reset(new P L1); break;
		case 2: p.reset(new P L2); break;
		case 3: p.reset(new P L3); break;
		case 4: p.reset(new P L4); break;
		default: p.reset(new P);
		}
	}
	int add(Pollable& x) override { return p->add(x); }
	int add(std::vector<Pollable*> const& l) override
	{
		switch(l.size()) {
		case 1: { std::initializer_list<std::reference_wrapper<Pollable>> x L1; return p->add(x); }
		case 2: { std::initializer_list<std::reference_wrapper<Pollable>> x L2; return p->add(x); }
		case 3: { std::initializer_list<std::reference_wrapper<Pollable>> x L3; return p->add(x); }
		case 4: { std::initializer_list<std::reference_wrapper<Pollable>> x L4; return p->add(x); }
		default: return 0;
		}
	}
	int remove(Pollable& x) override { return p->remove(x); }
	bool empty() override { return p->empty(); }
	void clear() override { p->clear(); }
	void reserve(int n) override { p->reserve((size_t)n); }
	template <typename Q = P>
	typename Q::Result const& dopoll(int t, bool o)
	{
		if constexpr(std::is_same<Q, stored::Poller>::value) {
			if(o)
				return p->poll((long)t * 1000L, false);
		}
		return p->poll(t);
	}
	std::string poll(int t, bool o, int* e) override
	{
		std::string s;
		errno = 1234;
		auto const& r = dopoll(t, o);
		*e = errno;
		for(auto const& x : r) {
			s += std::string(s.empty() ? "" : ",") + "{\"p\":" + std::to_string(slot(x->user_data)) + ",\"ev\":" + str(x->events) + ",\"rev\":" + str(x->revents);
#ifdef STORED_POLL_OLD
			s += ",\"same\":" + std::string(x.user_data == x->user_data && x.events == x->events.to_ulong() && x.revents == x->revents.to_ulong() ? "true}" : "false}");
#else
			s += ",\"same\":true}";
#endif
		}
		return "[" + s + "]";
	}
	stored::Poller* old() override
	{
		if constexpr(std::is_same<P, stored::Poller>::value)
			return p.get();
		return nullptr;
	}
};
static std::unique_ptr<Any> A;
static std::string backend;
static std::unique_ptr<Any> make(std::vector<Pollable*> const& l)
{
	if(backend == "poll") return std::make_unique<Impl<stored::CustomPoller<stored::PollPoller>>>(l);
	if(backend == "zmq") return std::make_unique<Impl<stored::CustomPoller<stored::ZmqPoller>>>(l);
	if(backend == "loop") return std::make_unique<Impl<stored::CustomPoller<stored::LoopPoller>>>(l);
	return std::make_unique<Impl<stored::Poller>>(l);
}
static char const* name(int e)
{
	switch(e) {
	case 0: return "0";
	case EAGAIN: return "EAGAIN";
	case EINVAL: return "EINVAL";
	case ESRCH: return "ESRCH";
	case EIO: return "EIO";
	default: return "other";
	}
}
static void* user(int i) { return (void*)(intptr_t)(i + 1000); }
static Pollable::Events call(Pollable const& p)
{
	Slot& s = S[slot(p.user_data)];
	if(R[s.res]->thr)
		throw 1;
	return R[s.res]->cb;
}
static void line(Args const& a)
{
	std::string const& o = a[0];
	int i = (int)num(a, 1);
	if(o == "new") {
		backend = a[1];
		A = make({});
		ev("{\"e\":\"init\",\"b\":\"%s\"}", backend == "old" ? "zmq" : backend.c_str());
	} else if(o == "res") {
		std::unique_ptr<Res> r(new Res);
		r->kind = a[2][0];
		if(r->kind == 'a' || r->kind == 'b') {
			int fd[2];
			if(pipe(fd))
				abort();
			fcntl(fd[0], F_SETFL, O_NONBLOCK);
			fcntl(fd[1], F_SETFL, O_NONBLOCK);
			fcntl(fd[1], F_SETPIPE_SZ, 4096);
			r->rd = fd[0];
			r->wr = fd[1];
		} else if(r->kind == 'z' || r->kind == 'l') {
			std::string e = "inproc://r" + std::to_string(uid++);
			if(r->kind == 'z') {
				r->s = zmq_socket(ctx, ZMQ_PAIR);
				r->peer = zmq_socket(ctx, ZMQ_PAIR);
				zmq_bind(r->s, e.c_str());
				zmq_connect(r->peer, e.c_str());
			} else {
				r->layer.reset(new stored::SyncZmqLayer(ctx, e.c_str(), true));
				r->lpeer.reset(new stored::SyncZmqLayer(ctx, e.c_str(), false));
			}
		}
		R[i] = std::move(r);
		ev("{\"e\":\"res\",\"r\":%d,\"k\":\"%s\"}", i, a[2].c_str());
	} else if(o == "p") {
		Slot& s = S[i];
		s.res = (int)num(a, 2);
		s.ev = evs(a[3]);
		Res& r = *R[s.res];
		int fd = r.kind == 'a' ? r.rd : r.kind == 'b' ? r.wr : r.kind == 'e' ? -100 : r.kind == 'E' ? -101 : -1;
		switch(r.kind) {
		case 'c':
			s.p.reset(new auto(stored::pollable(call, s.ev, user(i))));
			s.type = "cb";
			break;
		case 'z': s.p.reset(new auto(stored::pollable(r.s, s.ev, user(i)))); s.type = "zs"; break;
		case 'l': s.p.reset(new auto(stored::pollable(static_cast<stored::ZmqLayer&>(*r.layer), s.ev, user(i)))); s.type = "zl"; break;
		default:
			if(a[4] == "fl") {
				s.fl.reset(new Fl(fd));
				s.p.reset(new auto(stored::pollable(static_cast<stored::PolledFileLayer&>(*s.fl), s.ev, user(i))));
			} else
				s.p.reset(new auto(stored::pollable(fd, s.ev, user(i))));
			s.type = a[4];
		}
		ev("{\"e\":\"p\",\"p\":%d,\"r\":%d,\"t\":\"%s\",\"ev\":%s}", i, s.res, s.type.c_str(), str(s.ev).c_str());
	} else if(o == "w") { // write
		Res& r = *R[i];
		if(r.kind == 'z')
			zmq_send(r.peer, "x", 1, 0);
		else if(r.kind == 'l')
			r.lpeer->encode("x", 1, true);
		else if(::write(r.wr, "x", 1) != 1)
			abort();
		ev("{\"e\":\"w\",\"r\":%d}", i);
	} else if(o == "r") { // read all
		Res& r = *R[i];
		char b[4096];
		if(r.kind == 'z') {
			while(zmq_recv(r.s, b, sizeof(b), ZMQ_DONTWAIT) >= 0);
		} else if(r.kind == 'l') {
			while(!r.layer->recv());
		} else
			while(::read(r.rd, b, sizeof(b)) > 0);
		ev("{\"e\":\"r\",\"r\":%d}", i);
	} else if(o == "f") { // fill
		char b[4096] = {};
		while(::write(R[i]->wr, b, sizeof(b)) > 0);
		ev("{\"e\":\"f\",\"r\":%d}", i);
	} else if(o == "c") { // close the other end
		Res& r = *R[i];
		int& fd = r.kind == 'a' ? r.wr : r.rd;
		close(fd);
		fd = -1;
		ev("{\"e\":\"c\",\"r\":%d}", i);
	} else if(o == "cb") {
		R[i]->cb = evs(a[2]);
		R[i]->thr = a[2] == "x";
		ev("{\"e\":\"cb\",\"r\":%d,\"ev\":%s,\"x\":%s}", i, str(R[i]->cb).c_str(), R[i]->thr ? "true" : "false");
	} else if(o == "add") {
		Slot& s = S[i];
		int x = A->add(*s.p);
		ev("{\"e\":\"add\",\"l\":[%d],\"res\":\"%s\"}", i, name(x));
	} else if(o == "addl" || o == "ctor") {
		std::vector<Pollable*> l;
		std::vector<int> n;
		for(size_t k = 1; k < a.size(); k++) {
			n.push_back((int)num(a, k));
			l.push_back(S[n.back()].p.get());
		}
		if(o == "addl") {
			int x = A->add(l);
			ev("{\"e\":\"add\",\"l\":%s,\"res\":\"%s\"}", list(n).c_str(), name(x));
		} else {
			bool ok = true;
			try {
				A = make(l);
			} catch(...) {
				ok = false;
				A = make({});
			}
			ev("{\"e\":\"ctor\",\"l\":%s,\"ok\":%s}", list(n).c_str(), ok ? "true" : "false");
		}
	} else if(o == "rem") {
		int x = A->remove(*S[i].p);
		ev("{\"e\":\"rem\",\"p\":%d,\"res\":\"%s\"}", i, name(x));
	} else if(o == "clr") {
		A->clear();
		ev("{\"e\":\"clr\"}");
	} else if(o == "resv") {
		A->reserve(i);
	} else if(o == "empty") {
		ev("{\"e\":\"empty\",\"x\":%s}", A->empty() ? "true" : "false");
	} else if(o == "poll") {
		int e = 0;
		std::string r = A->poll(i, a.size() > 2, &e);
		std::string s;
		for(auto& x : S)
			if(!x.second.old)
				s += std::string(s.empty() ? "" : ",") + "{\"p\":" + std::to_string(x.first) + ",\"rev\":" + str(x.second.p->revents) + "}";
		ev("{\"e\":\"poll\",\"t\":%d,\"r\":%s,\"no\":\"%s\",\"rev\":[%s]}", i, r.c_str(), name(e), s.c_str());
	} else if(A->old()) {
#ifdef STORED_POLL_OLD
		stored::Poller& p = *A->old();
		Slot& s = S[i];
		Res& r = *R[s.res];
		int fd = r.kind == 'a' ? r.rd : r.wr;
		int x = -1;
		unsigned long long m = evs(o == "orem" ? "" : a[2]).to_ulong();
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#define ALL(f, ...) (s.type == "fd" ? p.f(fd, ##__VA_ARGS__) : s.type == "fl" ? p.f(static_cast<stored::PolledFileLayer&>(*s.fl), ##__VA_ARGS__) : s.type == "zs" ? p.f(r.s, ##__VA_ARGS__) : p.f(static_cast<stored::ZmqLayer&>(*r.layer), ##__VA_ARGS__))
		if(o == "oadd") {
			s.old = true;
			x = ALL(add, user(i), m);
		} else if(o == "omod")
			x = ALL(modify, m);
		else
			x = ALL(remove);
#pragma GCC diagnostic pop
		ev("{\"e\":\"%s\",\"p\":%d,\"ev\":%s,\"res\":\"%s\"}", o.c_str(), i, str(m).c_str(), name(x));
#endif
	}
}
int main()
{
	ctx = zmq_ctx_new();
	return run([]() { }, line, []() {
		A.reset();
		S.clear();
		R.clear();
	});
}
