// C23: OS-level channels. Bytes are numbered per direction; see specs/Channel.tla.
#include "common.h"
#include <stored>
#include <libstored/zmq.h>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <zmq.h>
using namespace h;
typedef std::vector<std::pair<long, long>> Runs;

// Injected faults of the calls of the library
static thread_local bool inlib;
static long shortLen, againCnt;
static bool writeFail, readFail, fltHit, zFail;
static long acc;
extern "C" {
ssize_t __real_write(int, void const*, size_t);
ssize_t __real_read(int, void*, size_t);
int __real_zmq_send(void*, void const*, size_t, int);
ssize_t __wrap_write(int fd, void const* b, size_t n)
{
	if(!inlib)
		return __real_write(fd, b, n);
	if(againCnt > 0) {
		againCnt--;
		errno = EAGAIN;
		return -1;
	}
	if(shortLen > 0) {
		if(n > (size_t)shortLen)
			n = (size_t)shortLen;
		shortLen = 0;
	} else if(writeFail) {
		writeFail = false;
		fltHit = true;
		errno = EIO;
		return -1;
	}
	ssize_t r = __real_write(fd, b, n);
	if(r > 0)
		acc += r;
	return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
	if(inlib && readFail) {
		readFail = false;
		fltHit = true;
		errno = EIO;
		return -1;
	}
	return __real_read(fd, b, n);
}
int __wrap_zmq_send(void* s, void const* b, size_t n, int f)
{
	if(inlib && zFail) {
		zFail = false;
		errno = EAGAIN;
		return -1;
	}
	return __real_zmq_send(s, b, n, f);
}
}

static unsigned char perm[2][255];
static unsigned char f(int s, long k)
{
	return perm[s][(k + 7 * (k / 255)) % 255];
}
static std::string data(int s, long p, long n)
{
	std::string r((size_t)n, 0);
	for(long i = 0; i < n; i++)
		r[(size_t)i] = (char)f(s, p + i);
	return r;
}
static long sent[2], pos[2];
// Translates received bytes of direction d to runs.
static void runs(int d, std::string const& x, Runs& r)
{
	for(char ch : x) {
		auto c = (unsigned char)ch;
		if(c == 0x16) {
			r.push_back({-2, 1});
			continue;
		}
		if(c != f(d, pos[d])) {
			long p = pos[d];
			while(p < sent[d] && f(d, p) != c)
				p++;
			if(p >= sent[d])
				for(p = 0; p < sent[d] && f(d, p) != c; p++)
					;
			if(p >= sent[d]) {
				r.push_back({-1, 1});
				continue;
			}
			pos[d] = p;
		}
		if(!r.empty() && r.back().first >= 0 && r.back().first + r.back().second == pos[d])
			r.back().second++;
		else
			r.push_back({pos[d], 1});
		pos[d]++;
	}
}
static std::string js(Runs const& r)
{
	std::string o = "[";
	for(auto& x : r)
		o += (o.size() > 1 ? "," : "") + ("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
	return o + "]";
}
struct Rx final : stored::ProtocolLayer {
	std::vector<std::string> chunks;
	bool merge = false;
	std::vector<long> reply;
	bool doReply = false;
	void decode(void* b, size_t n) override
	{
		std::string s(static_cast<char*>(b), n);
		if(merge && !chunks.empty())
			chunks[0] += s;
		else
			chunks.push_back(s);
		if(doReply)
			for(size_t i = 0; i < reply.size(); i++) {
				auto d = data(0, sent[0], reply[i]);
				sent[0] += reply[i];
				encode(d.data(), d.size(), i + 1 == reply.size());
			}
	}
};
static std::string kind, dir;
static size_t buf;
static Rx rx[2];
static std::unique_ptr<stored::ProtocolLayer> L[2], reqw;
static std::unique_ptr<stored::Loopback> lo;
static void* ctx;
static void* cl; // REQ client
static pid_t child = -1;
static int port;

static std::string rxs()
{
	std::string o = "[";
	for(int s = 0; s < 2; s++) {
		int d = kind == "stdio" ? 0 : 1 - s;
		o += s ? ",[" : "[";
		for(size_t i = 0; i < rx[s].chunks.size(); i++) {
			Runs r;
			runs(d, rx[s].chunks[i], r);
			o += (i ? "," : "") + js(r);
		}
		o += "]";
		rx[s].chunks.clear();
	}
	return o + "]";
}
static stored::PolledLayer* P(int s)
{
	return dynamic_cast<stored::PolledLayer*>(L[s].get());
}
static char const* cls(int e)
{
	return e == 0 ? "0" : e == EAGAIN || e == EWOULDBLOCK ? "again" : "err";
}
static std::string path(char const* n)
{
	return dir + "/" + n;
}
static void make(int s)
{
	std::string a = path("a"), b = path("b");
	if(kind == "file")
		L[s] = std::make_unique<stored::FileLayer>((s ? a : b).c_str(), (s ? b : a).c_str(), buf);
	else if(kind == "fifo")
		L[s] = std::make_unique<stored::NamedPipeLayer>(a.c_str(), s ? stored::NamedPipeLayer::Inbound : stored::NamedPipeLayer::Outbound);
	else if(kind == "dpipe")
		L[s] = std::make_unique<stored::DoublePipeLayer>((s ? a : b).c_str(), (s ? b : a).c_str());
	else if(kind == "xsim") {
		if(s == 0)
			L[s] = std::make_unique<stored::XsimLayer>(path("x").c_str());
		else {
			L[s] = std::make_unique<stored::DoublePipeLayer>(path("x_to_xsim").c_str(), path("x_from_xsim").c_str());
			reqw = std::make_unique<stored::NamedPipeLayer>(path("x_req_xsim").c_str(), stored::NamedPipeLayer::Outbound);
		}
	} else if(kind == "zmq")
		L[s] = std::make_unique<stored::SyncZmqLayer>(ctx, "inproc://chan", s == 0);
	L[s]->wrap(rx[s]);
}
static void begin()
{
	inlib = false;
	againCnt = shortLen = 0;
	writeFail = readFail = zFail = false;
	for(int s = 0; s < 2; s++) {
		sent[s] = pos[s] = 0;
		rx[s].chunks.clear();
		rx[s].merge = rx[s].doReply = false;
		rx[s].reply.clear();
	}
}
static void end()
{
	inlib = false;
	if(cl) {
		zmq_close(cl);
		cl = nullptr;
	}
	lo.reset();
	reqw.reset();
	L[1].reset();
	L[0].reset();
	if(child > 0) {
		kill(child, SIGKILL);
		waitpid(child, nullptr, 0);
		child = -1;
	}
	if(ctx) {
		zmq_ctx_term(ctx);
		ctx = nullptr;
	}
	for(auto n : {"a", "b", "x_to_xsim", "x_from_xsim", "x_req_xsim"})
		(void)unlink(path(n).c_str());
}
static bool isOpen(int s)
{
	return P(s) ? P(s)->isOpen() : true;
}
static int lastError(int s)
{
	return P(s) ? P(s)->lastError() : 0;
}
struct Lib {
	Lib() { inlib = true; }
	~Lib() { inlib = false; }
};
static int encode(int s, long n, bool last)
{
	auto d = data(s, sent[s], n);
	sent[s] += n;
	{
		Lib x;
		// Mind the const; the buffer is not to be modified.
		L[s]->encode((void const*)d.data(), d.size(), last);
	}
	return lastError(s);
}
static void line(Args const& a)
{
	auto& c = a[0];
	int s = (int)num(a, 1) - 1;
	if(c == "new") {
		kind = a[1];
		buf = (size_t)num(a, 2);
		if(kind == "fd") {
			int p[2], q[2];
			if(pipe(p) || pipe(q))
				abort();
			L[0] = std::make_unique<stored::FileLayer>(q[0], p[1], buf);
			L[1] = std::make_unique<stored::FileLayer>(p[0], q[1], buf);
		} else if(kind == "sock") {
			int p[2];
			if(socketpair(AF_UNIX, SOCK_STREAM, 0, p))
				abort();
			L[0] = std::make_unique<stored::FileLayer>(p[0], -1, buf);
			L[1] = std::make_unique<stored::FileLayer>(p[1], p[1], buf);
		} else if(kind == "lo") {
			L[0] = std::make_unique<stored::ProtocolLayer>();
			L[1] = std::make_unique<stored::ProtocolLayer>();
			lo = std::make_unique<stored::Loopback>(*L[0], *L[1]);
			if(buf)
				lo->reserve(buf);
		} else if(kind == "stdio") {
			int p[2], q[2];
			if(pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC))
				abort();
			fflush(stdout);
			child = fork();
			if(!child) {
				dup2(p[0], 0);
				dup2(q[1], 1);
				close(p[0]);
				close(p[1]);
				close(q[0]);
				close(q[1]);
				struct Echo final : stored::ProtocolLayer {
					void decode(void* b, size_t n) override { encode(b, n, true); }
				} e;
				stored::StdioLayer io(buf);
				io.wrap(e);
				alarm(120);
				while(io.isOpen())
					io.recv(1000000);
				_exit(0);
			}
			close(p[0]);
			close(q[1]);
			L[0] = std::make_unique<stored::FileLayer>(q[0], p[1], buf);
		} else if(kind == "req") {
			ctx = zmq_ctx_new();
			for(int i = 0; i < 1000; i++) {
				port = 20000 + (port + 7 + (int)getpid() * 13) % 12000;
				auto l = std::make_unique<stored::DebugZmqLayer>(ctx, port);
				int e = l->lastError();
				L[0] = std::move(l);
				if(!e)
					break;
			}
			cl = zmq_socket(ctx, ZMQ_REQ);
			int v = 0;
			zmq_setsockopt(cl, ZMQ_LINGER, &v, sizeof(v));
			v = 10000;
			zmq_setsockopt(cl, ZMQ_RCVTIMEO, &v, sizeof(v));
			zmq_connect(cl, ("tcp://127.0.0.1:" + std::to_string(port)).c_str());
		} else if(kind == "zmq") {
			ctx = zmq_ctx_new();
			make(0);
			make(1);
		} else {
			// The pipes and files have to exist.
			make(0);
			make(1);
		}
		for(int i = 0; i < 2; i++)
			if(L[i] && L[i]->up() != &rx[i])
				L[i]->wrap(rx[i]);
		if(kind == "fifo" || kind == "dpipe" || kind == "xsim")
			buf = stored::FileLayer::DefaultBufferSize;
		ev("{\"e\":\"new\",\"kind\":\"%s\",\"buf\":%d,\"open\":[%s,%s]}", kind.c_str(), (int)buf, isOpen(0) ? "true" : "false",
		   !L[1] || isOpen(1) ? "true" : "false");
	} else if(c == "enc") {
		acc = 0;
		fltHit = false;
		bool last = num(a, 3, 1) != 0;
		int e = encode(s, num(a, 2), last);
		ev("{\"e\":\"enc\",\"s\":%d,\"n\":%ld,\"last\":%s,\"err\":\"%s\",\"flt\":%s,\"acc\":%ld,\"rx\":%s}", s + 1, num(a, 2),
		   last ? "true" : "false", cls(e), fltHit ? "true" : "false", acc, rxs().c_str());
		shortLen = againCnt = 0;
		writeFail = zFail = false;
	} else if(c == "rcv") {
		fltHit = false;
		int e;
		{
			Lib x;
			e = P(s)->recv(num(a, 2));
		}
		ev("{\"e\":\"rcv\",\"s\":%d,\"one\":%s,\"err\":\"%s\",\"last\":\"%s\",\"flt\":%s,\"rx\":%s}", s + 1, "false", cls(e),
		   cls(lastError(s)), fltHit ? "true" : "false", rxs().c_str());
		readFail = false;
	} else if(c == "big" || c == "drain") { // n bytes by s; the other receives in the mean time
		int o = kind == "stdio" ? 0 : 1 - s;
		long n = num(a, 2);
		size_t want = (size_t)(n + num(a, 4));
		rx[o].merge = true;
		int e = 0;
		auto loop = [&] {
			auto t = std::chrono::steady_clock::now() + std::chrono::seconds(15);
			while((rx[o].chunks.empty() || rx[o].chunks[0].size() < want) && std::chrono::steady_clock::now() < t) {
				// Mind that a layer (and its Poller) is not thread-safe.
				int r = P(o)->recv(kind == "stdio" ? 0 : 20000);
				if(r && r != EAGAIN)
					break;
				if(r && kind == "stdio")
					std::this_thread::sleep_for(std::chrono::microseconds(100));
			}
		};
		if(c == "big") {
			std::thread t([&] {
				if(num(a, 3))
					std::this_thread::sleep_for(std::chrono::microseconds(num(a, 3)));
				loop();
			});
			e = encode(s, n, true);
			t.join();
		} else {
			e = encode(s, n, true);
			loop();
		}
		rx[o].merge = false;
		ev("{\"e\":\"big\",\"s\":%d,\"n\":%ld,\"err\":\"%s\",\"rx\":%s}", s + 1, n, cls(e), rxs().c_str());
	} else if(c == "wait") { // s waits for n bytes of the other
		int e2 = 0;
		std::thread t([&] {
			std::this_thread::sleep_for(std::chrono::milliseconds(num(a, 3, 20)));
			e2 = encode(1 - s, num(a, 2), true);
		});
		int e = P(s)->recv(num(a, 4, -1));
		t.join();
		ev("{\"e\":\"wait\",\"s\":%d,\"n\":%ld,\"err\":\"%s\",\"err2\":\"%s\",\"rx\":%s}", s + 1, num(a, 2), cls(e), cls(e2), rxs().c_str());
	} else if(c == "drop") {
		L[s].reset();
		if(s == 1)
			reqw.reset();
		ev("{\"e\":\"drop\",\"s\":%d}", s + 1);
	} else if(c == "make") {
		make(s);
		ev("{\"e\":\"make\",\"s\":%d}", s + 1);
	} else if(c == "reopen") {
		if(auto* d = dynamic_cast<stored::DoublePipeLayer*>(L[s].get()))
			d->reopen();
		else if(auto* p = dynamic_cast<stored::NamedPipeLayer*>(L[s].get()))
			p->reopen();
		ev("{\"e\":\"reopen\",\"s\":%d}", s + 1);
	} else if(c == "reset") {
		rx[s].reset();
		ev("{\"e\":\"reset\",\"s\":%d}", s + 1);
	} else if(c == "ack") {
		auto d = std::string((size_t)num(a, 1), 'x');
		reqw->encode(d.data(), d.size(), true);
		ev("{\"e\":\"ack\",\"n\":%ld}", num(a, 1));
	} else if(c == "req") { // req k p1 .. pk r1 ..; a request of k parts, reply parts
		int k = (int)num(a, 1);
		std::string pj, rj;
		for(int i = 0; i < k; i++) {
			long n = num(a, (size_t)(2 + i));
			auto d = data(1, sent[1], n);
			sent[1] += n;
			zmq_send(cl, d.data(), d.size(), i + 1 < k ? ZMQ_SNDMORE : 0);
			pj += (i ? "," : "") + std::to_string(n);
		}
		rx[0].doReply = true;
		rx[0].reply.clear();
		for(size_t i = (size_t)(2 + k); i < a.size(); i++) {
			rx[0].reply.push_back(num(a, i));
			rj += (rj.empty() ? "" : ",") + a[i];
		}
		int e;
		{
			Lib x;
			e = P(0)->recv(10000000);
		}
		zFail = false;
		std::string rep;
		std::string frames;
		while(true) {
			char b[2000];
			int n = zmq_recv(cl, b, sizeof(b), 0);
			if(n < 0) {
				frames += (frames.empty() ? "" : ",") + std::string("-1");
				break;
			}
			rep.append(b, (size_t)n);
			frames += (frames.empty() ? "" : ",") + std::to_string(n);
			int more = 0;
			size_t sz = sizeof(more);
			zmq_getsockopt(cl, ZMQ_RCVMORE, &more, &sz);
			if(!more)
				break;
		}
		Runs r;
		if(!rx[0].reply.empty())
			runs(0, rep, r);
		ev("{\"e\":\"req\",\"parts\":[%s],\"rep\":[%s],\"err\":\"%s\",\"q\":%s,\"frames\":[%s],\"reply\":%s,\"rx\":%s}", pj.c_str(), rj.c_str(), cls(e),
		   rep == "?" ? "true" : "false", frames.c_str(), js(r).c_str(), rxs().c_str());
	} else if(c == "short")
		shortLen = num(a, 1);
	else if(c == "again")
		againCnt = num(a, 1);
	else if(c == "wfail")
		writeFail = true;
	else if(c == "rfail")
		readFail = true;
	else if(c == "zfail")
		zFail = true;
	else
		abort();
}
int main()
{
	signal(SIGPIPE, SIG_IGN);
	char t[] = "/tmp/chan.XXXXXX";
	if(!mkdtemp(t))
		return 9;
	dir = t;
	unsigned x = 12345;
	for(int s = 0; s < 2; s++) {
		int n = 0;
		for(int i = 0; i < 256; i++)
			if(i != 0x16)
				perm[s][n++] = (unsigned char)i;
		for(int i = 254; i > 0; i--) {
			x = x * 1664525u + 1013904223u;
			std::swap(perm[s][i], perm[s][(x >> 8) % (unsigned)(i + 1)]);
		}
	}
	int r = run(begin, line, end);
	end();
	rmdir(dir.c_str());
	return r;
}
