// Two equal stacks of framing layers: one encodes, the other decodes.
#include "common.h"
#include <stored>
#include <deque>
#include <memory>
using namespace h;

struct Up : public stored::ProtocolLayer {
	bool rx = false;
	void decode(void* b, size_t n) override
	{
		if(rx)
			ev("{\"e\":\"recv\",\"b\":%s}", bytes(std::string((char*)b, n)).c_str());
		else
			ev("{\"e\":\"back\"}");
	}
};
struct Sink : public stored::ProtocolLayer {
	std::string part;
	std::vector<std::string> out;
	size_t m = 0;
	bool log = true;
	void encode(void const* b, size_t n, bool last) override
	{
		part.append((char const*)b, n);
		if(!last)
			return;
		if(log)
			ev("{\"e\":\"frame\",\"b\":%s}", bytes(part).c_str());
		out.push_back(part);
		part.clear();
	}
	using stored::ProtocolLayer::encode;
	size_t mtu() const override { return m; }
	void reset() override { part.clear(); }
};

struct Stack {
	Up up;
	std::vector<std::unique_ptr<stored::ProtocolLayer>> l;
	stored::TerminalLayer* term = nullptr;
	Sink sink;
	size_t below = 0; // layers below the terminal layer
	void build(Args const& a, size_t from, bool rx)
	{
		up.rx = rx;
		for(size_t i = from; i < a.size(); i++) {
			std::string n = a[i];
			size_t arg = 0, c = n.find(':');
			if(c != std::string::npos) {
				arg = (size_t)atoi(n.c_str() + c + 1);
				n.resize(c);
			}
			stored::ProtocolLayer* p = nullptr;
			if(n == "asc")
				p = new stored::AsciiEscapeLayer();
			else if(n == "ASC")
				p = new stored::AsciiEscapeLayer(true);
			else if(n == "seg")
				p = new stored::SegmentationLayer(arg);
			else if(n == "crc8")
				p = new stored::Crc8Layer();
			else if(n == "crc16")
				p = new stored::Crc16Layer();
			else if(n == "buf")
				p = new stored::BufferLayer(arg);
			else if(n == "print") {
				static FILE* f = fopen("/dev/null", "w");
				p = new stored::PrintLayer(f, "x");
			} else if(n == "term") {
				p = term = new stored::TerminalLayer([rx](void* b, size_t len) {
					if(rx)
						ev("{\"e\":\"nd\",\"b\":%s}", bytes(std::string((char*)b, len)).c_str());
				});
			} else
				p = new stored::ProtocolLayer();
			stored::ProtocolLayer* top = l.empty() ? (stored::ProtocolLayer*)&up : l.back().get();
			p->wrap(*top);
			l.emplace_back(p);
		}
		sink.wrap(l.empty() ? (stored::ProtocolLayer&)up : *l.back());
	}
	stored::ProtocolLayer& bottomLayer() { return l.empty() ? (stored::ProtocolLayer&)up : *l.back(); }
};

static std::unique_ptr<Stack> tx, rx;
static std::unique_ptr<stored::Loopback> loop;

static void deliver(std::string s, Args const* chunks, size_t from)
{
	if(!chunks) {
		// exact copy, such that reading outside of the frame is detected
		std::unique_ptr<char[]> b(new char[s.size()]);
		memcpy(b.get(), s.data(), s.size());
		rx->bottomLayer().decode(b.get(), s.size());
		return;
	}
	size_t i = 0, k = 0;
	while(i < s.size()) {
		size_t n = from < chunks->size() ? (size_t)num(*chunks, from + k++ % (chunks->size() - from), 1) : s.size();
		if(n > s.size() - i)
			n = s.size() - i;
		if(!n)
			n = 1;
		deliver(s.substr(i, n), nullptr, 0);
		i += n;
	}
}

struct Count : public stored::ProtocolLayer {
	size_t n = 0;
	bool same = true;
	std::string expect;
	void decode(void* b, size_t len) override
	{
		n++;
		same = same && std::string((char*)b, len) == expect;
	}
};

// All bursts (or pairs of flipped bits) in a frame. The errors that the polynomial of the CRC-8 is known not to detect are only
// injected (and nothing else) when 'weak' is set.
static void burst(bool dbl, bool crc16, size_t size, unsigned seed, int maxlen, bool weak)
{
	std::string m;
	for(size_t i = 0; i < size; i++)
		m += (char)((seed = seed * 1103515245 + 12345) >> 16);
	stored::Crc8Layer e8, d8;
	stored::Crc16Layer e16, d16;
	stored::ProtocolLayer& e = crc16 ? (stored::ProtocolLayer&)e16 : (stored::ProtocolLayer&)e8;
	stored::ProtocolLayer& d = crc16 ? (stored::ProtocolLayer&)d16 : (stored::ProtocolLayer&)d8;
	Sink s;
	s.log = false;
	Count c;
	s.wrap(e);
	d.wrap(c);
	e.encode(m.data(), m.size(), true);
	std::string f = s.out.at(0);
	c.expect = m;
	size_t bits = f.size() * 8, n = 0, intact = 0, frames = 0, delivered = 0;
	std::string t;
	auto good = [&]() {
		t = f;
		c.n = 0;
		d.decode(&t[0], t.size());
		intact += c.n;
		frames++;
	};
	auto flip = [&](size_t p) { t[p / 8] = (char)(t[p / 8] ^ (0x80 >> (p % 8))); };
	auto bad = [&]() {
		c.n = 0;
		d.decode(&t[0], t.size());
		delivered += c.n;
		n++;
	};
	good();
	if(dbl) {
		for(size_t i = 0; i < bits; i++)
			for(size_t j = i + 1; j < bits; j++) {
				if((!crc16 && (j - i) % 127 == 0) != weak)
					continue;
				t = f;
				flip(i);
				flip(j);
				bad();
			}
	} else {
		for(size_t p = 0; p < bits; p++) {
			for(int len = 1; len <= maxlen && p + (size_t)len <= bits; len++) {
				unsigned lo = len <= 2 ? 1 : 1u << (len - 2);
				for(unsigned q = 0; q < lo; q++) {
					unsigned pat = len == 1 ? 1 : (1u << (len - 1)) | (q << 1) | 1u;
					if((!crc16 && len == 8 && pat == 0xd3) != weak)
						continue;
					t = f;
					for(int b = 0; b < len; b++)
						if(pat & (1u << (len - 1 - b)))
							flip(p + (size_t)b);
					bad();
				}
			}
			if(p % 16 == 0)
				good();
		}
	}
	good();
	ev("{\"e\":\"burst\",\"n\":%zu,\"delivered\":%zu,\"intact\":%zu,\"frames\":%zu,\"same\":%s}", n, delivered, intact, frames, c.same || delivered ? "true" : "false");
}

static void line(Args const& a)
{
	std::string const& o = a[0];
	if(o == "init") { // mtu loop layers...
		tx.reset();
		rx.reset();
		loop.reset();
		tx.reset(new Stack());
		rx.reset(new Stack());
		tx->sink.m = rx->sink.m = (size_t)num(a, 1);
		if(num(a, 2)) {
			tx->build(a, 3, false);
			rx->build(a, 3, true);
			// the sinks remain as bottom layers
			loop.reset(new stored::Loopback(tx->sink, rx->sink));
		} else {
			tx->build(a, 3, false);
			rx->build(a, 3, true);
		}
		std::string ls;
		for(size_t i = 3; i < a.size(); i++)
			ls += (i > 3 ? ",\"" : "\"") + a[i].substr(0, a[i].find(':')) + "\"";
		size_t segm = 0;
		for(auto const& p : tx->l)
			if(auto* s = dynamic_cast<stored::SegmentationLayer*>(p.get()))
				segm = s->lowerMtu();
		ev("{\"e\":\"init\",\"layers\":[%s],\"mtu\":%ld,\"loop\":%s,\"up\":%zu,\"segmtu\":%zu}", ls.c_str(), num(a, 1), num(a, 2) ? "true" : "false", tx->up.mtu(), segm);
	} else if(o == "msg") { // hex, sizes of partial writes
		std::string m = a[1] == "-" ? "" : unhex(a[1]);
		ev("{\"e\":\"send\",\"b\":%s}", bytes(m).c_str());
		size_t i = 0;
		for(size_t k = 2; k < a.size(); k++) {
			size_t n = std::min<size_t>((size_t)num(a, k), m.size() - i);
			std::unique_ptr<char[]> b(new char[n]);
			memcpy(b.get(), m.data() + i, n);
			tx->up.encode(b.get(), n, false);
			i += n;
		}
		std::unique_ptr<char[]> b(new char[m.size() - i]);
		memcpy(b.get(), m.data() + i, m.size() - i);
		tx->up.encode(b.get(), m.size() - i, true);
	} else if(o == "part") { // the first part of a message, and then the connection is reset
		std::string m = unhex(a[1]);
		tx->sink.log = false;
		tx->up.encode(m.data(), m.size(), false);
		tx->sink.log = true;
		std::vector<std::string> f;
		f.swap(tx->sink.out);
		for(auto const& x : f)
			deliver(x, nullptr, 0);
		if(tx->term && num(a, 2))
			deliver(tx->sink.part, nullptr, 0);
		tx->up.reset();
		rx->up.reset();
		ev("{\"e\":\"reset\"}");
	} else if(o == "nd") {
		std::string m = unhex(a[1]);
		if(tx->term) {
			ev("{\"e\":\"ndsend\",\"b\":%s}", bytes(m).c_str());
			bool l = tx->sink.log;
			tx->sink.log = false;
			tx->term->nonDebugEncode(m.data(), m.size());
			tx->sink.log = l;
		}
	} else if(o == "go") { // deliver all; chunk sizes of the stream
		std::vector<std::string> f;
		f.swap(tx->sink.out);
		if(tx->term) {
			std::string s;
			for(auto const& x : f)
				s += x;
			deliver(s, &a, 1);
		} else
			for(auto const& x : f)
				deliver(x, nullptr, 0);
		ev("{\"e\":\"end\"}");
	} else if(o == "crlf") { // as go, but \n is expanded to \r\n, as terminals may do
		std::string s;
		for(auto const& x : tx->sink.out)
			for(char c : x)
				if(c == '\n')
					s += "\r\n";
				else
					s += c;
		tx->sink.out.clear();
		deliver(s, &a, 1);
		ev("{\"e\":\"end\"}");
	} else if(o == "raw") { // a frame or stream from the peer, encoded by the specification
		std::string m = a[1] == "-" ? "" : unhex(a[1]);
		ev("{\"e\":\"raw\",\"b\":%s}", bytes(m).c_str());
		if(a.size() > 2)
			deliver(m, &a, 2);
		else
			deliver(m, nullptr, 0);
		ev("{\"e\":\"rawend\"}");
	} else if(o == "burst" || o == "double") { // exhaustive fault injection: crc, payload size, seed, maximum burst length, weak
		burst(o == "double", num(a, 1) == 16, (size_t)num(a, 2), (unsigned)num(a, 3), (int)num(a, 4), num(a, 5));
	} else if(o == "reset") {
		tx->up.reset();
		rx->up.reset();
		ev("{\"e\":\"reset\"}");
	}
}

int main()
{
	return run([]() {}, line, []() { loop.reset(); tx.reset(); rx.reset(); });
}
