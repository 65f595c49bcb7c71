#include "pipes.h"
using namespace stored::pipes;
long FakeClock::t;
std::string rec;
static std::vector<Args> script;
static std::string head;
static std::string now()
{
	std::string r;
	r.swap(rec);
	return "\"rec\":[" + r + "]";
}
void Table::run(std::string const& desc)
{
	ev("{\"e\":\"init\",\"net\":%s,%s}", desc.c_str(), now().c_str());
	for(auto const& a : script) {
		std::string const& o = a[0];
		long i = num(a, 1), x = num(a, 2), y = num(a, 3);
		if(o == "sat" || o == "obj" || o == "tick" || o == "gt" || o == "ga" || o == "gr") {
			if(o == "obj") {
				if(i == 1)
					w.store.v1 = (int)x;
				else if(i == 2)
					w.store.v2 = (int)x;
				else if(i == 3)
					w.store.fn = (int)x;
				ev("{\"e\":\"obj\",\"i\":%ld,\"x\":%ld}", i, x);
			} else if(o == "tick") {
				FakeClock::t += i;
				ev("{\"e\":\"tick\",\"d\":%ld}", i);
			} else if(o == "gt") {
				std::string l;
				for(auto* q : w.group)
					for(auto& k : h)
						if(k.second->base() == q)
							l += (l.empty() ? "" : ",") + std::to_string(k.first);
				bool t = false;
				w.group.trigger(&t);
				ev("{\"e\":\"gt\",\"o\":[%s],\"n\":%d,\"t\":%s,%s}", l.c_str(), (int)w.group.size(), t ? "true" : "false", now().c_str());
			} else {
				if(!h.count((int)i))
					continue;
				PipeBase& p = *h[(int)i]->base();
				if(o == "ga") {
					if(x)
						w.group.add({p});
					else
						w.group.add(p);
				} else if(x)
					w.group.remove({p});
				else
					w.group.remove(p);
				ev("{\"e\":\"%s\",\"p\":%ld,\"n\":%d}", o.c_str(), i, (int)w.group.size());
			}
			continue;
		}
		if(!h.count((int)i))
			continue;
		Any& p = *h[(int)i];
		if(o == "inj") {
			long r = p.inject((int)y, x);
			ev("{\"e\":\"inj\",\"p\":%ld,\"x\":%ld,\"h\":%s,\"r\":%ld,%s}", i, x, y < 6 ? "true" : "false", r, now().c_str());
		} else if(o == "ext") {
			long r = p.extract((int)x);
			ev("{\"e\":\"ext\",\"p\":%ld,\"r\":%ld,%s}", i, r, now().c_str());
		} else if(o == "trg") {
			bool t = false, has = false;
			long r = p.trigger((int)x, t, has);
			ev("{\"e\":\"trg\",\"p\":%ld,\"t\":%s,\"h\":%s,\"r\":%ld,%s}", i, t ? "true" : "false", has ? "true" : "false", r, now().c_str());
		} else if(o == "ec" || o == "xc") {
			long r = o == "ec" ? p.ecast(x) : p.xcast(x);
			ev("{\"e\":\"%s\",\"p\":%ld,\"x\":%ld,\"r\":%ld,%s}", o.c_str(), i, x, r, now().c_str());
		} else if(o == "cmp") {
			std::string r = p.cmp(x, y);
			ev("{\"e\":\"cmp\",\"p\":%ld,\"x\":%ld,\"y\":%ld,\"r\":%s,%s}", i, x, y, r.c_str(), now().c_str());
		} else if(o == "con" || o == "extend") {
			if(!h.count((int)x) || !p.open || x <= i || (o == "extend" && !h[(int)x]->open))
				continue;
			if(o == "extend") // would become a loop
				for(auto& k : h)
					if(k.second->entry() == p.connection() && k.first <= x) {
						x = 0;
						break;
					}
			if(x && p.connect(*h[(int)x], o == "con" ? (int)y : 2))
				ev("{\"e\":\"%s\",\"p\":%ld,\"q\":%ld,%s}", o.c_str(), i, x, now().c_str());
		} else if(o == "dis") {
			p.disconnect();
			ev("{\"e\":\"dis\",\"p\":%ld,%s}", i, now().c_str());
		} else if(o == "conn") {
			void const* c = p.connection();
			int r = c ? -1 : 0;
			for(auto& k : h)
				if(c && k.second->entry() == c)
					r = k.first;
			ev("{\"e\":\"conn\",\"p\":%ld,\"r\":%d}", i, r);
		}
	}
	// only these are owned by the group
	w.group.clear();
	for(auto& k : h)
		if(k.second->ref)
			w.group.add(*k.second->base());
}
// saturated casts: the exact value as sign and digits; f: fraction is at least a half
static std::string dec(long double v, bool* neg, bool* half)
{
	long double t = truncl(v);
	char b[6000];
	*neg = std::signbit(v);
	*half = fabsl(v - t) >= .5L;
	snprintf(b, sizeof(b), "%.0Lf", fabsl(t));
	return b;
}
static std::string digits(std::string s)
{
	std::string r;
	for(char c : s)
		r += std::string(r.empty() ? "" : ",") + c;
	return "[" + r + "]";
}
template <typename To, typename From>
static void sat(char const* to, From x)
{
	bool n, hf, n2, hf2;
	std::string d = dec((long double)x, &n, &hf);
	To y = saturated_cast<To>(x);
	std::string e = dec((long double)y, &n2, &hf2);
	ev("{\"e\":\"sat\",\"to\":\"%s\",\"neg\":%s,\"d\":%s,\"half\":%s,\"rneg\":%s,\"rd\":%s,\"rhalf\":%s}", to, n && d + (hf ? "1" : "") != "0" ? "true" : "false", digits(d).c_str(),
		hf ? "true" : "false", n2 && e != "0" ? "true" : "false", digits(e).c_str(), hf2 ? "true" : "false");
}
template <typename From>
static void sats(From x)
{
	sat<int8_t>("i8", x);
	sat<uint8_t>("u8", x);
	sat<int16_t>("i16", x);
	sat<uint16_t>("u16", x);
	sat<int32_t>("i32", x);
	sat<uint32_t>("u32", x);
	sat<int64_t>("i64", x);
	sat<uint64_t>("u64", x);
	sat<bool>("bool", x);
}
static void satv(Args const& a)
{
	std::string const& t = a[1];
	if(t == "i8") sats((int8_t)num(a, 2));
	else if(t == "u8") sats((uint8_t)num(a, 2));
	else if(t == "i16") sats((int16_t)num(a, 2));
	else if(t == "u16") sats((uint16_t)num(a, 2));
	else if(t == "i32") sats((int32_t)num(a, 2));
	else if(t == "u32") sats((uint32_t)strtoul(a[2].c_str(), nullptr, 0));
	else if(t == "i64") sats((int64_t)strtoll(a[2].c_str(), nullptr, 0));
	else if(t == "ll") sats((long long)strtoll(a[2].c_str(), nullptr, 0));
	else if(t == "u64") sats((uint64_t)strtoull(a[2].c_str(), nullptr, 0));
	else if(t == "f") sats(strtof(a[2].c_str(), nullptr));
	else if(t == "d") sats(strtod(a[2].c_str(), nullptr));
	else if(t == "ld") sats(strtold(a[2].c_str(), nullptr));
	else if(t == "bool") sats(num(a, 2) != 0);
}
int main()
{
	static int n;
	return run([]() { script.clear(); n = -1; FakeClock::t = 100000; rec.clear(); head.clear(); },
		[](Args const& a) {
			if(a[0] == "net") {
				n = (int)num(a, 1);
				head = a[2];
			} else if(a[0] == "satinit")
				ev("{\"e\":\"init\",\"net\":[],\"rec\":[]}");
			else if(a[0] == "sat")
				satv(a);
			else
				script.push_back(a);
		},
		[]() { if(n >= 0) net(n, head); });
}
