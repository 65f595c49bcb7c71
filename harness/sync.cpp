// Nodes with synchronized stores, connected by links. Every message on top of the links is recorded.
#include "common.h"
#include <stored>
#include <SyncA.h>
#include <SyncB.h>
#include <SyncC.h>
#include <deque>
#include <memory>
#include <map>
#include <set>
using namespace h;

class SyncA : public STORE_SYNC_BASE_CLASS(SyncABase, SyncA) {
	STORE_SYNC_CLASS_BODY(SyncABase, SyncA)
public:
	SyncA() is_default
	void __fun(bool, int32_t&) {}
};
class SyncB : public STORE_SYNC_BASE_CLASS(SyncBBase, SyncB) {
	STORE_SYNC_CLASS_BODY(SyncBBase, SyncB)
public:
	SyncB() is_default
};
class SyncC : public STORE_SYNC_BASE_CLASS(SyncCBase, SyncC) {
	STORE_SYNC_CLASS_BODY(SyncCBase, SyncC)
public:
	SyncC() is_default
};

__attribute__((no_sanitize("address"), noinline)) static std::string raw(void const* p, size_t n)
{
	std::string s(n, 0);
	char const volatile* c = (char const volatile*)p;
	for(size_t i = 0; i < n; i++)
		s[i] = c[i];
	return s;
}

struct AnyStore {
	virtual ~AnyStore() {}
	virtual stored::StoreJournal& journal() = 0;
	virtual void map(stored::Synchronizer& s) = 0;
	virtual void unmap(stored::Synchronizer& s) = 0;
	virtual void from(stored::Synchronizer& s, stored::ProtocolLayer& l) = 0;
	virtual void write(size_t i, std::string const& v) = 0;
	virtual char const* hash() = 0;
	virtual std::string content() = 0;
	std::vector<std::pair<size_t, size_t>> objs;
	std::vector<stored::Type::type> types;
};
template <typename S>
struct TStore : public AnyStore {
	S s;
	void* base = s.journal().keyToBuffer(0);
	std::vector<stored::Variant<S>> v;
	TStore()
	{
		s.list(
			[](void* c, char const*, stored::Type::type t, void* b, size_t l, void* me) {
				TStore* m = (TStore*)me;
				if(stored::Type::isFunction(t))
					return;
				m->objs.push_back({(size_t)((char*)b - (char*)m->base), l + (t == stored::Type::String ? 1U : 0U)});
				m->types.push_back(t);
				m->v.emplace_back(*(S*)c, t, b, l);
			},
			this);
	}
	stored::StoreJournal& journal() override { return s.journal(); }
	void map(stored::Synchronizer& y) override { y.map(s); }
	void unmap(stored::Synchronizer& y) override { y.unmap(s); }
	void from(stored::Synchronizer& y, stored::ProtocolLayer& l) override { y.syncFrom(s, l); }
	void write(size_t i, std::string const& b) override { v.at(i).set(b.data(), b.size()); }
	char const* hash() override { return s.hash(); }
	std::string content() override { return raw(base, S::BufferSize); }
};
static AnyStore* make(char c)
{
	switch(c) {
	case 'A': return new TStore<SyncA>();
	case 'B': return new TStore<SyncB>();
	default: return new TStore<SyncC>();
	}
}

static std::vector<std::pair<int, std::string>> tx; // (link, message)
static std::string rxb;
static int rxn;
static bool partial;
struct Tap : public stored::ProtocolLayer {
	int link = 0;
	std::string acc;
	unsigned msg = 0;
	void encode(void const* b, size_t n, bool last) override
	{
		acc.append((char const*)b, n);
		if(last) {
			tx.push_back({link, acc});
			acc.clear();
		}
		stored::ProtocolLayer::encode(b, n, last);
		if(last)
			msg++;
	}
	using stored::ProtocolLayer::encode;
	void decode(void* b, size_t n) override
	{
		rxb.assign((char*)b, n);
		rxn++;
		// exactly sized
		std::unique_ptr<char[]> c(new char[n]);
		memcpy(c.get(), b, n);
		stored::ProtocolLayer::decode(c.get(), n);
	}
};
struct Bottom : public stored::ProtocolLayer {
	Tap* tap = nullptr;
	std::string acc;
	std::deque<std::pair<unsigned, std::string>>* to = nullptr;
	void encode(void const* b, size_t n, bool last) override
	{
		acc.append((char const*)b, n);
		if(!last)
			return;
		if(to)
			to->push_back({tap->msg, acc});
		acc.clear();
	}
	using stored::ProtocolLayer::encode;
	void reset() override { acc.clear(); stored::ProtocolLayer::reset(); }
};
struct End {
	Tap tap;
	std::vector<std::unique_ptr<stored::ProtocolLayer>> l;
	Bottom bottom;
	std::deque<std::pair<unsigned, std::string>> q; // towards this end
	stored::SyncConnection const* c = nullptr;
	~End() {}
	void build(Args const& st, size_t from)
	{
		stored::ProtocolLayer* top = &tap;
		for(size_t i = from; i < st.size(); i++) {
			std::string n = st[i];
			size_t arg = 0, k = n.find(':');
			if(k != std::string::npos) {
				arg = (size_t)atoi(n.c_str() + k + 1);
				n.resize(k);
			}
			stored::ProtocolLayer* p = n == "asc" ? (stored::ProtocolLayer*)new stored::AsciiEscapeLayer() :
				n == "seg" ? (stored::ProtocolLayer*)new stored::SegmentationLayer(arg) :
				n == "crc16" ? (stored::ProtocolLayer*)new stored::Crc16Layer() :
				n == "buf" ? (stored::ProtocolLayer*)new stored::BufferLayer(arg) :
				n == "term" ? (stored::ProtocolLayer*)new stored::TerminalLayer() : new stored::ProtocolLayer();
			p->wrap(*top);
			top = p;
			l.emplace_back(p);
		}
		bottom.wrap(*top);
		bottom.tap = &tap;
	}
};
struct Node {
	stored::Synchronizer sync;
	std::vector<std::unique_ptr<AnyStore>> s;
	std::vector<std::string> last;
};
struct Link {
	int a, b; // b = 0: nobody
	std::unique_ptr<End> e[2];
	Args stack;
};
static std::vector<std::unique_ptr<Node>> nodes;
static std::vector<Link> links;
static std::string kinds;

static int side(int n, int k) { return links[k - 1].a == n ? 0 : 1; }
static End& end(int n, int k) { return *links[k - 1].e[side(n, k)]; }

// references given to the other side, per node, link, store hash
static std::map<std::pair<int, int>, std::map<std::string, std::string>> ids;
static std::map<std::pair<int, int>, std::map<std::string, std::string>> hids; // store of the hello sent by the peer, by its id
static std::string zhash(int s) { return std::string(nodes[0]->s.at((size_t)s - 1)->hash()) + std::string(1, '\0'); }
static void learn(int n, int k, std::string const& m)
{
	if(m.size() > 3 && m[0] == 'h')
		ids[{n, k}][m.substr(1, m.size() - 3)] = m.substr(m.size() - 2);
	else if(m.size() > 5 && m[0] == 'w') {
		auto& h = hids[{n, k}];
		auto it = h.find(m.substr(1, 2));
		if(it != h.end())
			ids[{n, k}][it->second] = m.substr(3, 2);
	}
}
static std::string txs()
{
	std::string r = "[";
	for(auto& t : tx)
		r += (r.size() > 1 ? ",[" : "[") + std::to_string(t.first) + "," + bytes(t.second) + "]";
	tx.clear();
	return r + "]";
}
static std::string changes()
{
	std::string r = "[";
	for(size_t n = 0; n < nodes.size(); n++)
		for(size_t i = 0; i < nodes[n]->s.size(); i++) {
			std::string c = nodes[n]->s[i]->content();
			if(c == nodes[n]->last[i])
				continue;
			nodes[n]->last[i] = c;
			r += (r.size() > 1 ? ",[" : "[") + std::to_string(n + 1) + "," + std::to_string(i + 1) + "," + bytes(c) + "]";
		}
	return r + "]";
}
static std::string on()
{
	std::string r = "[";
	for(size_t n = 0; n < nodes.size(); n++) {
		r += n ? ",[" : "[";
		for(size_t k = 0; k < links.size(); k++) {
			r += k ? ",[" : "[";
			for(size_t i = 0; i < nodes[n]->s.size(); i++) {
				bool o = false;
				if(links[k].a == (int)n + 1 || links[k].b == (int)n + 1) {
					auto& e = links[k].e[side((int)n + 1, (int)k + 1)];
					o = e && e->c && e->c->isSynchronizing(nodes[n]->s[i]->journal());
				}
				r += (i ? "," : "") + std::string(o ? "true" : "false");
			}
			r += "]";
		}
		r += "]";
	}
	return r + "]";
}
static void post(char const* e, std::string const& args)
{
	std::string t = txs(), c = changes();
	for(auto& l : links)
		for(auto& x : l.e)
			if(x && !x->tap.acc.empty()) {
				t = "[[0,[]]]"; // unterminated message
				x->tap.acc.clear();
			}
	printf("{\"e\":\"%s\"%s,\"tx\":%s,\"ch\":%s,\"on\":%s}\n", e, args.c_str(), t.c_str(), c.c_str(), on().c_str());
}
static std::string A(char const* f, ...)
{
	char b[200];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof(b), f, a);
	va_end(a);
	return b;
}

static void mklink(int a, int b, Args const& stack)
{
	links.emplace_back();
	Link& l = links.back();
	l.a = a;
	l.b = b;
	l.stack = stack;
}
static void connectEnd(int n, int k)
{
	Link& l = links[k - 1];
	int s = side(n, k);
	std::deque<std::pair<unsigned, std::string>> q;
	l.e[s].reset(new End());
	End& e = *l.e[s];
	e.tap.link = k;
	e.build(l.stack, 0);
	// (re)connect the channels
	for(int i = 0; i < 2; i++)
		if(l.e[i] && l.e[1 - i])
			l.e[i]->bottom.to = &l.e[1 - i]->q;
	e.c = &nodes[n - 1]->sync.connect(e.tap);
}
static void disconnectEnd(int n, int k)
{
	Link& l = links[k - 1];
	int s = side(n, k);
	if(!l.e[s])
		return;
	l.e[s]->c = nullptr;
	nodes[n - 1]->sync.disconnect(l.e[s]->tap);
	if(l.e[1 - s])
		l.e[1 - s]->bottom.to = nullptr;
	l.e[s].reset();
}
// One message (as seen above the stack)
static bool deliver(int n, int k)
{
	End& e = end(n, k);
	rxn = 0;
	bool any = false;
	while(!e.q.empty() && rxn == 0) {
		std::string f = e.q.front().second;
		e.q.pop_front();
		std::unique_ptr<char[]> c(new char[f.size()]);
		memcpy(c.get(), f.data(), f.size());
		e.bottom.decode(c.get(), f.size());
		any = true;
	}
	if(rxn)
		post("rx", A(",\"n\":%d,\"k\":%d,\"c\":%d,\"b\":", n, k, rxn) + bytes(rxb));
	return any;
}
static void procall(int n)
{
	nodes[n - 1]->sync.process();
	post("proc", A(",\"n\":%d", n));
}
static bool settle(int max)
{
	for(int i = 0; i < max; i++) {
		bool any = false;
		for(size_t n = 1; n <= nodes.size(); n++)
			for(size_t k = 1; k <= links.size(); k++)
				if(links[k - 1].b && (links[k - 1].a == (int)n || links[k - 1].b == (int)n) && links[k - 1].e[side((int)n, (int)k)])
					while(deliver((int)n, (int)k))
						any = true;
		for(size_t n = 1; n <= nodes.size(); n++) {
			nodes[n - 1]->sync.process();
			bool t = !tx.empty();
			any = any || t;
			if(t)
				post("proc", A(",\"n\":%d", (int)n));
		}
		if(!any)
			return true;
	}
	return false;
}

static void begin()
{
	for(size_t k = 0; k < links.size(); k++)
		for(int s = 0; s < 2; s++)
			if(links[k].e[s])
				disconnectEnd(s ? links[k].b : links[k].a, (int)k + 1);
	links.clear();
	ids.clear();
	hids.clear();
	nodes.clear();
	tx.clear();
}

static void line(Args const& a)
{
	std::string const& c = a[0];
	if(c == "init") { // init <nr of nodes> <store kinds>
		begin();
		kinds = a[2];
		for(int i = 0; i < num(a, 1); i++) {
			nodes.emplace_back(new Node());
			for(char k : kinds) {
				nodes.back()->s.emplace_back(make(k));
				nodes.back()->last.push_back(nodes.back()->s.back()->content());
				nodes.back()->s.back()->map(nodes.back()->sync);
			}
		}
		std::string st;
		for(auto& s : nodes[0]->s) {
			std::string o;
			for(auto& x : s->objs)
				o += (o.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
			st += (st.empty() ? "{" : ",{") + ("\"hash\":" + bytes(std::string(s->hash()) + std::string(1, '\0'))) + ",\"buf\":" + bytes(s->content())
				+ ",\"objs\":[" + o + "]}";
		}
		printf("{\"e\":\"init\",\"nodes\":%d,\"stores\":[%s],\"links\":%ld}\n", (int)num(a, 1), st.c_str(), num(a, 3));
	} else if(c == "link") { // link a b stack...
		mklink((int)num(a, 1), (int)num(a, 2), Args(a.begin() + 3, a.end()));
		ev("{\"e\":\"link\",\"k\":%d,\"a\":%d,\"b\":%d}", (int)links.size(), (int)num(a, 1), (int)num(a, 2));
	} else if(c == "conn") { // conn n k
		int n = (int)num(a, 1), k = (int)num(a, 2);
		if(links[k - 1].e[side(n, k)])
			return;
		connectEnd(n, k);
		post("conn", A(",\"n\":%d,\"k\":%d", n, k));
	} else if(c == "src") { // src n k s
		int n = (int)num(a, 1), k = (int)num(a, 2), s = (int)num(a, 3);
		if(!links[k - 1].e[side(n, k)])
			return;
		if(end(n, k).c->isSynchronizing(nodes[n - 1]->s.at(s - 1)->journal()))
			return;
		nodes[n - 1]->s.at(s - 1)->from(nodes[n - 1]->sync, end(n, k).tap);
		for(auto& t : tx)
			if(t.first == k)
				learn(n, k, t.second);
		post("src", A(",\"n\":%d,\"k\":%d,\"s\":%d", n, k, s));
	} else if(c == "w") { // w n s obj bytes
		int n = (int)num(a, 1), s = (int)num(a, 2);
		AnyStore& st = *nodes[n - 1]->s.at(s - 1);
		size_t o = (size_t)num(a, 3) % st.objs.size();
		std::string v = unhex(a[4]);
		stored::Type::type t = st.types[o];
		size_t len = st.objs[o].second;
		if(t == stored::Type::String) {
			v = v.substr(0, std::min(len - 1, v.find('\0')));
			st.write(o, v);
			v += '\0';
		} else if(t == stored::Type::Blob) {
			v.resize(std::min(len, v.size()));
			st.write(o, v);
		} else {
			v.resize(len);
			if(t == stored::Type::Bool)
				v[0] = (char)(v[0] & 1);
			st.write(o, v);
		}
		post("w", A(",\"n\":%d,\"s\":%d,\"o\":%d,\"b\":", n, s, (int)st.objs[o].first) + bytes(v));
	} else if(c == "proc") { // proc n
		procall((int)num(a, 1));
	} else if(c == "proc1") { // proc n k s
		int n = (int)num(a, 1), k = (int)num(a, 2), s = (int)num(a, 3);
		if(!links[k - 1].e[side(n, k)])
			return;
		if(s)
			nodes[n - 1]->sync.process(end(n, k).tap, nodes[n - 1]->s.at(s - 1)->journal());
		else
			nodes[n - 1]->sync.process(end(n, k).tap);
		post("proc1", A(",\"n\":%d,\"k\":%d,\"s\":%d", n, k, s));
	} else if(c == "dl") { // dl n k: deliver one
		int n = (int)num(a, 1), k = (int)num(a, 2);
		if(links[k - 1].e[side(n, k)])
			deliver(n, k);
	} else if(c == "reset") { // reset n k keep1 keep2: drop what is in flight, but the first keep1 from n, and keep2 to n
		int n = (int)num(a, 1), k = (int)num(a, 2);
		long keep1 = num(a, 3), keep2 = num(a, 4);
		Link& l = links[k - 1];
		int s = side(n, k);
		if(!l.e[s])
			return;
		for(int i = 0; i < 2; i++) {
			if(!l.e[i])
				continue;
			long keep = i == s ? keep2 : keep1;
			auto& q = l.e[i]->q;
			std::set<unsigned> m;
			std::deque<std::pair<unsigned, std::string>> r;
			for(auto& f : q) {
				m.insert(f.first);
				if((long)m.size() > keep)
					break;
				r.push_back(f);
			}
			q.swap(r);
		}
		ev("{\"e\":\"lose\",\"n\":%d,\"k\":%d,\"k1\":%ld,\"k2\":%ld}", n, k, keep1, keep2);
		const_cast<stored::SyncConnection*>(l.e[s]->c)->reset();
		post("reset", A(",\"n\":%d,\"k\":%d", n, k));
	} else if(c == "disc") { // disc n k
		int n = (int)num(a, 1), k = (int)num(a, 2);
		Link& l = links[k - 1];
		int s = side(n, k);
		if(!l.e[s])
			return;
		disconnectEnd(n, k);
		// nothing is received anymore
		post("disc", A(",\"n\":%d,\"k\":%d", n, k));
	} else if(c == "unmap" || c == "map") { // unmap n s
		int n = (int)num(a, 1), s = (int)num(a, 2);
		if(c == "map")
			nodes[n - 1]->s.at(s - 1)->map(nodes[n - 1]->sync);
		else
			nodes[n - 1]->s.at(s - 1)->unmap(nodes[n - 1]->sync);
		post(c.c_str(), A(",\"n\":%d,\"s\":%d", n, s));
	} else if(c == "clean") { // clean n s
		int n = (int)num(a, 1), s = (int)num(a, 2);
		nodes[n - 1]->s.at(s - 1)->journal().clean(num(a, 3) ? nodes[n - 1]->s.at(s - 1)->journal().seq() : 0);
		post("clean", A(",\"n\":%d,\"s\":%d", n, s));
	} else if(c == "raw") { // raw n k bytes
		int n = (int)num(a, 1), k = (int)num(a, 2);
		std::string m;
		for(size_t i = 3; i < a.size(); i++) {
			if(a[i][0] == '#') // hash of store i
				m += zhash(atoi(a[i].c_str() + 1));
			else if(a[i][0] == '@') { // reference of the node for store i
				std::string id = ids[{n, k}][zhash(atoi(a[i].c_str() + 1))];
				m += id.empty() ? std::string("\0\0", 2) : id;
			} else if(a[i][0] == '<') // truncated
				m.resize(std::min<size_t>(m.size(), (size_t)atoi(a[i].c_str() + 1)));
			else if(a[i][0] == '-') // truncated at the end
				m.resize(m.size() - std::min<size_t>(m.size(), (size_t)atoi(a[i].c_str() + 1)));
			else if(a[i][0] == '=') // content of store i
				m += nodes[n - 1]->s.at((size_t)atoi(a[i].c_str() + 1) - 1)->content();
			else
				m += unhex(a[i]);
		}
		if(!links[k - 1].e[side(n, k)])
				return;
		rxn = 0;
		if(m.size() > 3 && m[0] == 'h')
			hids[{n, k}][m.substr(m.size() - 2)] = m.substr(1, m.size() - 3);
		end(n, k).tap.decode((void*)m.data(), m.size());
		for(auto& t : tx)
			if(t.first == k)
				learn(n, k, t.second);
		post("raw", A(",\"n\":%d,\"k\":%d,\"b\":", n, k) + bytes(m));
	} else if(c == "churn") { // churn n k s obj count: many updates of one (integer) object over one link
		int n = (int)num(a, 1), k = (int)num(a, 2), s = (int)num(a, 3);
		AnyStore& st = *nodes[n - 1]->s.at(s - 1);
		size_t o = (size_t)num(a, 4) % st.objs.size();
		long cnt = num(a, 5);
		size_t len = st.objs[o].second;
		Link& l = links[k - 1];
		int other = l.a == n ? l.b : l.a;
		std::string v = raw((char*)st.journal().keyToBuffer(0) + st.objs[o].first, len), m0;
		bool same = true;
		long frames = 0;
		for(long i = 0; i < cnt; i++) {
			for(size_t b = 0; b < len && !++v[b]; b++)
				;
			st.write(o, v);
			nodes[n - 1]->sync.process(end(n, k).tap, st.journal());
			for(auto& t : tx) {
				frames++;
				// everything but the value is the same
				std::string m = t.second;
				if(m.size() < len || m.substr(m.size() - len) != v)
					same = false;
				else {
					m.resize(m.size() - len);
					if(m0.empty())
						m0 = m;
					same = same && m == m0;
				}
			}
			tx.clear();
			End& e = end(other, k);
			while(!e.q.empty()) {
				std::string f = e.q.front().second;
				e.q.pop_front();
				e.bottom.decode(&f[0], f.size());
			}
			tx.clear();
		}
		post("churn", A(",\"n\":%d,\"k\":%d,\"s\":%d,\"o\":%d,\"cnt\":%ld,\"frames\":%ld,\"same\":%s,\"b\":", n, k, s, (int)st.objs[o].first, cnt, frames, same ? "true" : "false") + bytes(v));
	} else if(c == "settle") {
		bool r = settle(200);
		ev("{\"e\":\"settled\",\"ok\":%s}", r ? "true" : "false");
	} else if(c == "end") {
		std::string r;
		for(size_t i = 1; i < a.size(); i++)
			r += (r.empty() ? "" : ",") + a[i];
		ev("{\"e\":\"end\",\"est\":[%s]}", r.c_str());
	}
}
int main() { return run(begin, line, [] { ev("{\"e\":\"fin\"}"); }); }
