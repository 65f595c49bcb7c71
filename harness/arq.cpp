// Two ArqLayers, connected by two frame queues under control of the script.
#include "common.h"
#include <stored>
#include <deque>
#include <memory>
using namespace h;

static std::string content(int m, int size)
{
	// Message 'm' (>0): id, size, and a pattern that contains header-like bytes.
	std::string s;
	s += (char)(m >> 8);
	s += (char)m;
	while((int)s.size() < size)
		s += (char)(m * 7 + (int)s.size() * 37);
	return s;
}

struct Side;
struct Upper : public stored::ProtocolLayer {
	Side& s;
	explicit Upper(Side& s_) : s(s_) {}
	void decode(void* buffer, size_t len) override;
	void connected() override;
};
struct Lower : public stored::ProtocolLayer {
	Side& s;
	std::string part;
	explicit Lower(Side& s_) : s(s_) {}
	void encode(void const* buffer, size_t len, bool last) override;
	using stored::ProtocolLayer::encode;
	void reset() override { part.clear(); }
	size_t mtu() const override;
};

struct Side {
	int id;
	Side* peer = nullptr;
	std::map<int, int> sizes; // sent message sizes
	int nsent = 0, emit = 0, connects = 0, reconnects = 0, rtevents = 0, overflow = 0;
	bool rOut = true, needR = true; // handshake progress
	int maxsize = 0;
	size_t mtu = 0;
	std::deque<std::string> out; // frames, head first
	Upper up;
	stored::ArqLayer arq;
	Lower low;
	Side(int i, size_t maxbuf) : id(i), up(*this), arq(maxbuf), low(*this)
	{
		arq.setEventCallback([this](stored::ArqLayer&, stored::ArqLayer::Event e) {
			if(e == stored::ArqLayer::EventReconnect)
				reconnects++;
			else if(e == stored::ArqLayer::EventRetransmit)
				rtevents++;
			else
				overflow++;
		});
		arq.wrap(up);
		low.wrap(arq);
	}
	std::string rest; // of a message that is under construction
	void begin(int size)
	{
		int m = ++nsent;
		size = std::max(size, 2);
		sizes[m] = size;
		maxsize = std::max(maxsize, size);
		ev("{\"e\":\"send\",\"s\":%d,\"m\":%d}", id, m);
		std::string c = content(m, size);
		size_t n = (c.size() + 1) / 2;
		rest = c.substr(n) + "."; // the . is a placeholder
		up.encode(c.data(), n, false);
	}
	void finish()
	{
		if(rest.empty())
			return;
		std::string r = rest.substr(0, rest.size() - 1);
		rest.clear();
		up.encode(r.data(), r.size(), true);
	}
	void send(int size, int parts)
	{
		if(!rest.empty())
			return;
		int m = ++nsent;
		if(size < 2)
			size = 2;
		sizes[m] = size;
		if(size > maxsize)
			maxsize = size;
		ev("{\"e\":\"send\",\"s\":%d,\"m\":%d}", id, m);
		std::string c = content(m, size);
		size_t pos = 0;
		for(int i = 0; i < parts; i++) {
			size_t n = i == parts - 1 ? c.size() - pos : c.size() / (size_t)parts;
			up.encode(c.data() + pos, n, i == parts - 1);
			pos += n;
		}
	}
};

void Upper::decode(void* buffer, size_t len)
{
	std::string c((char*)buffer, len);
	int m = c.size() >= 2 ? (uint8_t)c[0] * 256 + (uint8_t)c[1] : 0;
	bool ok = m > 0 && s.peer->sizes.count(m) && c == content(m, s.peer->sizes[m]);
	ev("{\"e\":\"recv\",\"s\":%d,\"m\":%d,\"ok\":%s}", s.id, m, ok ? "true" : "false");
	while(s.emit > 0 && s.rest.empty()) {
		s.emit--;
		s.send(5 + s.emit * 3, 1 + s.emit % 2);
	}
}
void Upper::connected()
{
	s.connects++;
	s.rOut = false;
}
static bool isReset(std::string const& f)
{
	size_t i = 0;
	while(i < f.size() && (f[i] & 0x80))
		i++;
	return i < f.size() && (f[i] & 0x3f) == 0;
}
void Lower::encode(void const* buffer, size_t len, bool last)
{
	part.append((char const*)buffer, len);
	if(last) {
		if(s.mtu && part.size() > s.mtu && s.maxsize <= (int)s.arq.mtu())
			ev("{\"e\":\"toolarge\",\"s\":%d}", s.id);
		if(isReset(part))
			s.rOut = true;
		s.out.push_back(part);
		part.clear();
	}
}
size_t Lower::mtu() const
{
	return s.mtu;
}

static std::unique_ptr<Side> sd[2];

static void deliver(int s) // head frame sent by s to the other
{
	Side& a = *sd[s];
	if(a.out.empty())
		return;
	std::string f = a.out.front();
	a.out.pop_front();
	sd[1 - s]->needR = sd[1 - s]->needR && !isReset(f);
	if(isReset(f))
		ev("{\"e\":\"rst\",\"s\":%d}", 1 - s);
	std::string copy = f; // decode may modify
	sd[1 - s]->low.decode(&copy[0], copy.size());
}

static bool guard; // see Discipline in Arq.tla
static bool handshake()
{
	for(int i = 0; i < 2; i++) {
		if(sd[i]->rOut || sd[i]->needR)
			return true;
		for(auto const& f : sd[i]->out)
			if(isReset(f))
				return true;
	}
	return false;
}
static bool mayTransmit()
{
	return !guard || !handshake() || (sd[0]->out.empty() && sd[1]->out.empty());
}

static void line(Args const& a)
{
	int s = (int)num(a, 1);
	if(strchr("sfkbn", a[0][0]) && !mayTransmit())
		return;
	switch(a[0][0]) {
	case 'i': // init maxbuf guard mtu
		for(int i = 0; i < 2; i++) {
			sd[i].reset(new Side(i, (size_t)num(a, 1, 0)));
			sd[i]->mtu = (size_t)num(a, 3, 0);
		}
		guard = num(a, 2, 1);
		sd[0]->peer = sd[1].get();
		sd[1]->peer = sd[0].get();
		ev("{\"e\":\"init\"}");
		break;
	case 's':
		// Every part triggers a (re)transmission.
		sd[s]->send((int)num(a, 2, 4), guard && handshake() ? 1 : (int)num(a, 3, 1));
		break;
	case 'b': // in pieces, with anything in between
		if(sd[s]->rest.empty())
			sd[s]->begin((int)num(a, 2, 4));
		break;
	case 'n':
		sd[s]->finish();
		break;
	case 'd': {
		long n = num(a, 2, 1);
		while(n-- > 0)
			deliver(s);
		break;
	}
	case 'x':
		if(!sd[s]->out.empty())
			sd[s]->out.pop_front();
		break;
	case '2':
		if(!sd[s]->out.empty() && !(guard && handshake()))
			sd[s]->out.push_front(sd[s]->out.front());
		break;
	case 'f':
		sd[s]->arq.flush();
		break;
	case 'k':
		sd[s]->arq.keepAlive();
		break;
	case 'r':
		ev("{\"e\":\"reset\",\"s\":%d}", s);
		if(guard) // a restart takes longer than the life time of a frame
			for(int i = 0; i < 2; i++)
				sd[i]->out.clear();
		sd[s]->needR = sd[s]->rOut = true;
		sd[s]->rest.clear();
		sd[s]->arq.reset();
		break;
	case 'e':
		sd[s]->emit += (int)num(a, 2, 1);
		break;
	case 'c': // memory management, no effect expected
		sd[s]->arq.shrink_to_fit();
		break;
	case 'm': { // frames respect the mtu and the layer's own mtu is consistent
		ev("{\"e\":\"mtu\",\"s\":%d,\"low\":%d,\"up\":%d}", s, (int)sd[s]->mtu, (int)sd[s]->arq.mtu());
		break;
	}
	case 'h': { // black hole: n flushes with nothing arriving
		Side& x = *sd[s];
		x.arq.flush();
		x.out.clear();
		int n = (int)num(a, 2, 20);
		int before = (int)x.arq.retransmits(), evb = x.rtevents;
		bool waiting = x.arq.waitingForAck();
		int sent = 0;
		for(int i = 0; i < n; i++) {
			x.arq.flush();
			sent += (int)x.out.size();
			x.out.clear();
		}
		ev("{\"e\":\"hole\",\"s\":%d,\"n\":%d,\"waiting\":%s,\"sent\":%d,\"rt0\":%d,\"rt1\":%d,\"events\":%d}", s, n,
		   waiting ? "true" : "false", sent, before, (int)x.arq.retransmits(), x.rtevents - evb);
		break;
	}
	case 'q': { // pump without loss (random timing), trigger retransmits; then report
		// 'q seed' uses random timing, 'q' without seed a fixed lock-step.
		uint32_t rnd = (uint32_t)num(a, 1, 0) * 2654435761U;
		bool lock = a.size() < 2;
		int rounds = 0, limit = 4000, turn = (int)(rnd >> 31);
		for(int i = 0; i < 2; i++) {
			for(int k = 0; k < 500 && !sd[i]->rest.empty() && !mayTransmit(); k++) {
				deliver(0);
				deliver(1);
			}
			sd[i]->finish();
		}
		for(; rounds < limit; rounds++) {
			bool e0 = sd[0]->out.empty(), e1 = sd[1]->out.empty();
			if(e0 && e1) {
				if(!sd[0]->arq.waitingForAck() && !sd[1]->arq.waitingForAck())
					break;
				turn = 1 - turn;
				sd[turn]->arq.flush();
				if(!handshake() || lock)
					sd[1 - turn]->arq.flush();
				continue;
			}
			if(lock) {
				if(!e0)
					deliver(0);
				if(!e1)
					deliver(1);
				continue;
			}
			rnd = rnd * 1664525U + 1013904223U;
			deliver(e0 ? 1 : e1 ? 0 : (rnd >> 16) % 3 == 0 ? 1 : (rnd >> 20) & 1);
		}
		int extra = 0;
		for(int i = 0; i < 2; i++) {
			sd[i]->arq.flush();
			extra += (int)sd[i]->out.size();
		}
		ev("{\"e\":\"quiet\",\"rounds\":%d,\"done\":%s,\"extra\":%d,\"rt0\":%d,\"rt1\":%d,\"conn0\":%d,\"conn1\":%d,\"wait\":%s}",
		   rounds, rounds < limit ? "true" : "false", extra, (int)sd[0]->arq.retransmits(), (int)sd[1]->arq.retransmits(), sd[0]->connects,
		   sd[1]->connects, sd[0]->arq.waitingForAck() || sd[1]->arq.waitingForAck() ? "true" : "false");
		break;
	}
	default:
		abort();
	}
}

int main()
{
	return run([]() {}, line, []() {});
}
