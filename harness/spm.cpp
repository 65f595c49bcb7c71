// C17: scripts of allocations on a ScratchPad.
#include "common.h"
#include <libstored/spm.h>
#include <memory>
#include <new>
using namespace h;
struct P3 { char c[3]; };
struct P6 { uint16_t x[3]; };
struct P24 { uint64_t x[3]; };
struct Pad {
	virtual ~Pad() {}
	struct Block { uint8_t* p; size_t n; uint8_t v; };
	std::vector<Block> live;
	size_t seq = 0;
	virtual void op(Args const& a) = 0;
};
template <size_t M>
struct PadOf : public Pad {
	typedef stored::ScratchPad<M> S;
	typedef typename S::Snapshot Snap;
	S s;
	std::vector<std::pair<std::unique_ptr<Snap>, size_t>> snaps;
	explicit PadOf(size_t r) : s(r) {}
	~PadOf() { forget(0); }
	void forget(size_t from)
	{
		while(snaps.size() > from) {
			snaps.back().first->reset();
			snaps.pop_back();
		}
	}
	std::string obs()
	{
		std::string r;
		for(auto& b : live) {
			int v = b.v;
			for(size_t i = 0; i < b.n; i++)
				if(b.p[i] != b.v) v = -1;
			r += (r.empty() ? "" : ",") + std::to_string(v);
		}
		char buf[200];
		snprintf(buf, sizeof(buf), "{\"size\":%d,\"max\":%d,\"cap\":%d,\"chunks\":%d,\"empty\":%s,\"live\":[", (int)s.size(), (int)s.max(), (int)s.capacity(), (int)s.chunks(), s.empty() ? "true" : "false");
		return buf + r + "]}";
	}
	template <typename T>
	void alloc(size_t n, size_t al)
	{
		T* p = nullptr;
		bool t = false;
		try {
			p = al ? s.template alloc<T>(n, al) : s.template alloc<T>(n);
		} catch(std::bad_alloc const&) {
			t = true;
		}
		uint8_t v = (uint8_t)(++seq % 250 + 1);
		if(!t && n) {
			live.push_back(Block{(uint8_t*)p, n * sizeof(T), v});
			memset((void*)p, v, n * sizeof(T));
		}
		bool huge = n > SIZE_MAX / sizeof(T);
		ev("{\"e\":\"alloc\",\"n\":%d,\"a\":%d,\"threw\":%s,\"null\":%s,\"p\":\"%llu\",\"q\":\"%llu\",\"mod\":%d,\"v\":%d,\"o\":%s}", huge ? -1 : (int)(n * sizeof(T)), (int)(al ? al : sizeof(T)), t ? "true" : "false", p ? "false" : "true",
			(unsigned long long)(uintptr_t)p, (unsigned long long)(uintptr_t)p + n * sizeof(T), (int)((uintptr_t)p % 64), (int)v, obs().c_str());
	}
	void op(Args const& a) override
	{
		std::string const& c = a[0];
		if(c == "alloc") {
			size_t n = (size_t)num(a, 2), al = (size_t)num(a, 3);
			if(a[1] == "c") alloc<char>(n, al);
			else if(a[1] == "h") alloc<uint16_t>(n, al);
			else if(a[1] == "w") alloc<uint32_t>(n, al);
			else if(a[1] == "q") alloc<uint64_t>(n, al);
			else if(a[1] == "3") alloc<P3>(n, al);
			else if(a[1] == "6") alloc<P6>(n, al);
			else if(a[1] == "24") alloc<P24>(n, al);
			else if(a[1] == "huge") alloc<uint64_t>(SIZE_MAX / 8 + n, al);
		} else if(c == "fill") {
			// as much as fits without another chunk (more or less)
			long r = (long)(s.capacity() - s.size()) + num(a, 1);
			alloc<char>((size_t)(r < 0 ? 0 : r), (size_t)1);
		} else if(c == "snap") {
			snaps.emplace_back(std::unique_ptr<Snap>(new Snap(s.snapshot())), live.size());
			ev("{\"e\":\"snap\",\"o\":%s}", obs().c_str());
		} else if(c == "roll" || c == "drop") {
			if(snaps.empty()) return;
			size_t k = (size_t)num(a, 1) % snaps.size();
			forget(k + 1);
			size_t n = snaps[k].second;
			if(c == "roll") snaps[k].first->rollback();
			else snaps.pop_back();
			live.resize(n);
			ev("{\"e\":\"%s\",\"k\":%d,\"o\":%s}", c.c_str(), (int)k + 1, obs().c_str());
		} else if(c == "move") {
			// the first one detaches, and takes over the second one
			if(snaps.size() < 2) return;
			size_t i = (size_t)num(a, 1) % snaps.size(), j = (size_t)num(a, 2) % snaps.size();
			if(i == j) return;
			*snaps[i].first = std::move(*snaps[j].first);
			snaps[j].first = std::move(snaps[i].first);
			snaps.erase(snaps.begin() + (long)i);
			ev("{\"e\":\"move\",\"k\":%d,\"o\":%s}", (int)i + 1, obs().c_str());
		} else if(c == "mctor") {
			if(snaps.empty()) return;
			size_t i = (size_t)num(a, 1) % snaps.size();
			snaps[i].first.reset(new Snap(std::move(*snaps[i].first)));
			ev("{\"e\":\"mctor\",\"o\":%s}", obs().c_str());
		} else if(c == "cctor") {
			if(snaps.empty()) return;
			size_t i = (size_t)num(a, 1) % snaps.size();
			Snap const& x = *snaps[i].first;
			snaps[i].first.reset(new Snap(x));
			ev("{\"e\":\"mctor\",\"o\":%s}", obs().c_str());
		} else if(c == "reset") {
			forget(0);
			live.clear();
			s.reset();
			ev("{\"e\":\"reset\",\"o\":%s}", obs().c_str());
		} else if(c == "reserve") {
			s.reserve((size_t)num(a, 1));
			ev("{\"e\":\"reserve\",\"n\":%d,\"o\":%s}", (int)num(a, 1), obs().c_str());
		} else if(c == "shrink") {
			if(s.empty()) forget(0);
			s.shrink_to_fit();
			ev("{\"e\":\"shrink\",\"o\":%s}", obs().c_str());
		}
	}
};
int main()
{
	std::unique_ptr<Pad> w;
	return h::run(
		[&]() { w.reset(); },
		[&](Args const& a) {
			if(a[0] == "new") {
				size_t m = (size_t)num(a, 1), r = (size_t)num(a, 2);
				if(m == 255) w.reset(new PadOf<255>(r));
				else if(m == 100) w.reset(new PadOf<100>(r));
				else if(m == 65535) w.reset(new PadOf<65535>(r));
				else w.reset(new PadOf<0x7fffffff>(r));
				ev("{\"e\":\"init\",\"m\":%d,\"r\":%d}", m == 255 || m == 100 || m == 65535 ? (int)m : 0x7fffffff, (int)r);
			} else if(w)
				w->op(a);
		},
		[&]() { w.reset(); });
}
