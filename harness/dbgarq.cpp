// A DebugArqLayer (target side) between an application that answers as scripted and a frame sink.
// In "client" mode, a debug client that follows the protocol documentation is connected to it.
#include "common.h"
#include <stored>
#include <deque>
#include <memory>
using namespace h;

static bool s_quiet;
static size_t s_ups, s_outs;
static std::string s_first, s_last;

struct Spy : public stored::ProtocolLayer { // between the ARQ and what is above
	void decode(void* b, size_t n) override
	{
		if(s_quiet)
			s_ups++;
		else
			ev("{\"e\":\"up\",\"b\":%s}", bytes(std::string((char*)b, n)).c_str());
		base(b, n);
	}
	void base(void* b, size_t n) { stored::ProtocolLayer::decode(b, n); }
	void encode(void const* b, size_t n, bool last) override
	{
		if(!s_quiet)
			ev("{\"e\":\"enc\",\"b\":%s,\"l\":%s}", bytes(std::string((char const*)b, n)).c_str(), last ? "true" : "false");
		stored::ProtocolLayer::encode(b, n, last);
	}
	using stored::ProtocolLayer::encode;
	void setPurgeableResponse(bool p) override
	{
		ev("{\"e\":\"purge\",\"v\":%s}", p ? "true" : "false");
		stored::ProtocolLayer::setPurgeableResponse(p);
	}
};

struct Sink : public stored::ProtocolLayer {
	std::string part;
	std::deque<std::string> out;
	size_t m = 0;
	void encode(void const* b, size_t n, bool last) override
	{
		part.append((char const*)b, n);
		if(!last)
			return;
		if(s_quiet) {
			if(!s_outs++)
				s_first = part;
			s_last = part;
		} else {
			ev("{\"e\":\"out\",\"b\":%s}", bytes(part).c_str());
			out.push_back(part);
		}
		part.clear();
	}
	using stored::ProtocolLayer::encode;
	void reset() override { part.clear(); }
	size_t mtu() const override { return m; }
};

struct App : public stored::ProtocolLayer {
	std::string plan;  // program of the response
	std::string buf;   // when there is no SegmentationLayer below
	bool seg = false;
	bool client = false;
	int x = 0;
	std::map<int, int> execs;

	void run(std::string const& p)
	{
		// P/Q: setPurgeableResponse(true/false); a..z: encode 0..25 bytes; A..O same, last
		for(char c : p) {
			if(c == 'P' || c == 'Q')
				setPurgeableResponse(c == 'P');
			else {
				bool last = c >= 'A' && c <= 'O';
				int n = last ? c - 'A' : c - 'a';
				if(c == 'Z')
					last = true, n = 300;
				std::string d;
				for(int i = 0; i < n; i++)
					d += (char)(x * 31 + i * 7 + 1);
				x++;
				encode(d.data(), d.size(), last);
			}
		}
	}
	void request(std::string const& r)
	{
		ev("{\"e\":\"req\",\"b\":%s}", bytes(r).c_str());
		if(client) {
			int k = r.size() > 0 ? (uint8_t)r[0] : 0;
			int ex = ++execs[k];
			ev("{\"e\":\"exec\",\"k\":%d,\"x\":%d}", k, ex);
			// plan: number of response frames, and 'P' for purgeable
			int nr = plan.empty() ? 1 : plan[0] - '0';
			if(plan.size() > 1)
				setPurgeableResponse(true);
			for(int i = 1; i <= nr; i++) {
				std::string d = {(char)k, (char)ex, (char)i, (char)nr};
				encode(d.data(), 2, false);
				encode(d.data() + 2, 2, true);
			}
			return;
		}
		run(plan);
	}
	void decode(void* b, size_t n) override
	{
		if(s_quiet) {
			encode("ok", 2, true);
			return;
		}
		std::string s((char*)b, n);
		if(seg)
			return request(s);
		// Completeness is marked in the last byte, as by a SegmentationLayer.
		if(n == 0)
			return;
		buf += s.substr(0, n - 1);
		if(s[n - 1] == 'E') {
			std::string r;
			r.swap(buf);
			request(r);
		}
	}
	void connected() override { buf.clear(); }
};

static std::string vlq(uint32_t q, bool rst)
{
	std::string s;
	s += (char)(q & 0x7f);
	while(q >>= 7)
		s.insert(s.begin(), (char)((q & 0x7f) | 0x80));
	// the first byte holds only 6 bits
	if(s[0] & 0x40)
		s.insert(s.begin(), 0);
	bool more = s.size() > 1;
	s[0] = (char)((s[0] & 0x3f) | (more ? 0x40 : 0) | (rst ? 0x80 : 0));
	for(size_t i = 1; i < s.size(); i++)
		s[i] = (char)((s[i] & 0x7f) | (i + 1 < s.size() ? 0x80 : 0));
	return s;
}
static bool unvlq(std::string& s, uint32_t& q, bool& rst)
{
	if(s.empty())
		return false;
	rst = s[0] & 0x80;
	q = s[0] & 0x3f;
	bool more = s[0] & 0x40;
	size_t i = 1;
	while(more) {
		if(i >= s.size())
			return false;
		q = (q << 7) | (s[i] & 0x7f);
		more = s[i++] & 0x80;
	}
	s.erase(0, i);
	return true;
}
static uint32_t nextSeq(uint32_t q)
{
	q = (q + 1) % 0x8000000;
	return q ? q : 1;
}

struct Client { // DebugArq.tla: c
	enum { Sync, Idle, Wait } st = Sync;
	int k = 0, nf = 1;
	uint32_t s0 = 0, exp = 1, exp0 = 1, rs = 0;
	std::deque<std::string> up;
	std::vector<std::string> got;
	int answered = 0;
	std::string resetFrame() { return vlq(rs, true); }
	std::vector<std::string> frames()
	{
		std::vector<std::string> r;
		uint32_t q = s0;
		for(int i = 1; i <= nf; i++) {
			r.push_back(vlq(q, false) + (char)(i == 1 ? k : 100 + i) + (i == nf ? 'E' : 'C'));
			q = nextSeq(q);
		}
		return r;
	}
	void restart(uint32_t q)
	{
		st = Sync;
		rs = q;
		exp = exp0 = 1;
		got.clear();
		up.clear();
		up.push_back(resetFrame());
	}
	void request(int n)
	{
		if(st != Idle)
			return;
		st = Wait;
		for(int i = 0; i < nf; i++)
			s0 = nextSeq(s0);
		nf = n;
		k++;
		exp0 = exp;
		got.clear();
		ev("{\"e\":\"ask\",\"k\":%d}", k);
		for(auto const& f : frames())
			up.push_back(f);
	}
	void timeout()
	{
		if(st == Idle)
			return;
		got.clear();
		exp = exp0;
		if(st == Sync)
			up.push_back(resetFrame());
		else
			for(auto const& f : frames())
				up.push_back(f);
	}
	void receive(std::string f)
	{
		uint32_t q;
		bool rst;
		if(!unvlq(f, q, rst)) {
			ev("{\"e\":\"garbage\"}");
			return;
		}
		if(f.empty()) {
			if(st == Sync && rst && q == 0) {
				st = Idle;
				exp = exp0 = 1;
				s0 = nextSeq(rs);
				nf = 0;
			}
			return;
		}
		if(st != Wait)
			return;
		if(rst) {
			exp = exp0 = q;
			got.clear();
		}
		if(q != exp)
			return;
		exp = nextSeq(q);
		got.push_back(f);
		if(f.size() == 4 && f[2] == f[3]) {
			bool ok = true;
			for(size_t i = 0; i < got.size(); i++)
				ok = ok && got[i].size() == 4 && got[i][0] == got[0][0] && got[i][1] == got[0][1] && got[i][2] == (char)(i + 1);
			ev("{\"e\":\"ans\",\"k\":%d,\"kk\":%d,\"x\":%d,\"ok\":%s}", k, got[0][0], got[0][1], ok ? "true" : "false");
			got.clear();
			st = Idle;
			answered = k;
		}
	}
};

struct World {
	App app;
	std::unique_ptr<stored::SegmentationLayer> seg;
	Spy spy;
	stored::DebugArqLayer arq;
	Sink sink;
	Client c;
	bool client = false;
	World(size_t maxbuf, bool useSeg, size_t segmtu, size_t mtu)
		: arq(maxbuf)
	{
		sink.m = mtu;
		stored::ProtocolLayer* l = &app;
		if(useSeg) {
			seg.reset(new stored::SegmentationLayer(segmtu));
			seg->wrap(app);
			l = seg.get();
			app.seg = true;
		}
		spy.wrap(*l);
		arq.wrap(spy);
		sink.wrap(arq);
	}
	void in(std::string f)
	{
		ev("{\"e\":\"in\",\"b\":%s}", bytes(f).c_str());
		arq.decode(&f[0], f.size());
		ev("{\"e\":\"done\"}");
	}
};
static std::unique_ptr<World> w;

static void line(Args const& a)
{
	std::string const& o = a[0];
	if(o == "init") { // maxbuf useSeg segmtu mtu client
		w.reset(new World((size_t)num(a, 1), num(a, 2), (size_t)num(a, 3), (size_t)num(a, 4)));
		w->client = w->app.client = num(a, 5);
		s_quiet = false;
		ev("{\"e\":\"init\",\"maxbuf\":%ld,\"client\":%s,\"once\":%s,\"mtu\":%ld,\"up\":%zu}", num(a, 1), w->client ? "true" : "false", num(a, 6) ? "true" : "false", num(a, 4), w->arq.mtu());
		if(w->client)
			w->c.restart((uint32_t)num(a, 7));
	} else if(o == "plan") {
		w->app.plan = a.size() > 1 ? a[1] : "";
	} else if(o == "in") {
		w->in(unhex(a[1]));
	} else if(o == "enc") { // response at a later moment
		w->app.run(a[1]);
	} else if(o == "reset") {
		w->app.buf.clear();
		w->app.reset();
		ev("{\"e\":\"reset\"}");
	} else if(o == "bulk") { // n single frame requests from sequence number q
		uint32_t q = (uint32_t)num(a, 2);
		s_quiet = true;
		s_ups = s_outs = 0;
		long n = num(a, 1);
		for(long i = 0; i < n; i++) {
			std::string f = vlq(q, false) + "xE";
			w->arq.decode(&f[0], f.size());
			q = nextSeq(q);
		}
		s_quiet = false;
		ev("{\"e\":\"bulk\",\"n\":%ld,\"q\":%ld,\"ups\":%zu,\"outs\":%zu,\"first\":%s,\"last\":%s}", n, num(a, 2), s_ups, s_outs, bytes(s_first).c_str(), bytes(s_last).c_str());
	} else if(o == "q") {
		w->c.request((int)num(a, 1));
	} else if(o == "t") {
		w->c.timeout();
	} else if(o == "z") {
		w->sink.out.clear();
		w->c.restart((uint32_t)num(a, 1));
	} else if(o == "x" || o == "2") {
		auto& ch = num(a, 1) ? w->sink.out : w->c.up;
		if(!ch.empty()) {
			if(o == "x")
				ch.pop_front();
			else
				ch.push_front(ch.front());
		}
	} else if(o == "d") { // d 0 nr purge / d 1
		if(num(a, 1)) {
			if(!w->sink.out.empty()) {
				std::string f = w->sink.out.front();
				w->sink.out.pop_front();
				w->c.receive(f);
			}
		} else if(!w->c.up.empty()) {
			if(a.size() > 2 && num(a, 2) > 0)
				w->app.plan = a[2] + (num(a, 3) ? "P" : "");
			std::string f = w->c.up.front();
			w->c.up.pop_front();
			w->in(f);
		}
	} else if(o == "w") { // fair suffix: everything is delivered, timeouts only when nothing is in flight
		int i = 0;
		for(; i < 8; i++) {
			for(int j = 0; j < 1000 && !(w->c.up.empty() && w->sink.out.empty()); j++) {
				line({"d", "0"});
				line({"d", "1"});
			}
			if(w->c.st == Client::Idle)
				break;
			w->c.timeout();
		}
		ev("{\"e\":\"fin\",\"k\":%d,\"idle\":%s}", w->c.k, w->c.st == Client::Idle ? "true" : "false");
	}
}

int main()
{
	return run([]() { w.reset(); }, line, []() { w.reset(); });
}
