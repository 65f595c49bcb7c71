// C24: scripts on the control components.
#include "common.h"
#include "Comp.h"
#include <stored>
#include <cmath>
#include <memory>
using namespace h;
static bool hw;	   // state of the input pins
static float freq = 1; // of everything
static std::vector<bool> outs;
static int8_t ovr();
static void ovr(int8_t);
static bool get();
static void set(bool);

class Store : public STORE_T(Store, stored::CompBase) {
	STORE_CLASS(Store, stored::CompBase)
public:
	Store() = default;
#define FREQ(x) void __##x(bool s, float& v) { if(s) freq = v; else v = freq; }
	FREQ(pid__frequency_Hz)
	FREQ(spid__frequency_Hz)
	FREQ(mpid__frequency_Hz)
	FREQ(pulse__sample_frequency_Hz)
	FREQ(spulse__sample_frequency_Hz)
	FREQ(sine__sample_frequency_Hz)
	FREQ(lowpass__sample_frequency_Hz)
	FREQ(highpass__sample_frequency_Hz)
	FREQ(slow__sample_frequency_Hz)
	FREQ(ramp__sample_frequency_Hz)
	FREQ(sramp__sample_frequency_Hz)
	void __pin__pin(bool s, bool& v) { if(!s) v = hw; }
	void __pin__get(bool s, bool& v) { if(!s) v = ::get(); }
	void __pout__pin(bool s, bool& v) { if(s) outs.push_back(v); }
	void __pout__set(bool s, bool& v) { if(s) ::set(v); }
	void __pout__override(bool s, int8_t& v) { if(s) ovr(v); else v = ovr(); }
};

#define COMP(T, x, ...) \
	static constexpr auto x##_o = T<Store>::objects __VA_ARGS__("/" #x "/"); \
	typedef T<Store, x##_o.flags()> x##_c;
COMP(stored::Amplifier, amp)
COMP(stored::Amplifier, samp, <'g', 'F', 'O'>)
COMP(stored::PinIn, pin)
COMP(stored::PinIn, spin, <'F'>)
COMP(stored::PinOut, pout)
COMP(stored::PID, pid)
COMP(stored::PID, spid, <'f', 's', 'p', 'i'>)
COMP(stored::PID, mpid, <'f', 'y', 's', 'p', 'i', 'd', 'l', 'h', 'F', 'u', 'e'>)
COMP(stored::PulseWave, pulse)
COMP(stored::PulseWave, spulse, <'s', 'f', 'd', 'e'>)
COMP(stored::Sine, sine)
COMP(stored::LowPass, lowpass)
COMP(stored::HighPass, highpass)
COMP(stored::LowPass, slow, <'s', 'c', 'e'>)
COMP(stored::Ramp, ramp)
COMP(stored::Ramp, sramp, <'s', 'v', 'a', 'e', 'r'>)
static constexpr auto damp_o = stored::Amplifier<Store, 0, double>::objects("/damp/");
typedef stored::Amplifier<Store, damp_o.flags(), double> damp_c;

#define COMPS(F) F(amp) F(samp) F(damp) F(pin) F(spin) F(pout) F(pid) F(spid) F(mpid) F(pulse) F(spulse) F(sine) F(lowpass) F(highpass) F(slow) F(ramp) F(sramp)
struct World {
	Store store;
#define DECL(x) x##_c x{x##_o, store};
	COMPS(DECL)
	struct Obj { std::string name, key; stored::Type::type t; size_t len; };
	std::map<std::string, std::vector<Obj>> objs;
	World()
	{
		store.list(
			[](void*, char const* name, stored::Type::type t, void*, size_t len, void* arg) {
				if(stored::Type::isFunction(t)) return;
				std::string n = name + 1;
				size_t s = n.find('/');
				std::string k = n.substr(s + 1);
				for(auto& c : k) if(!isalnum((unsigned char)c)) c = '_';
				((World*)arg)->objs[n.substr(0, s)].push_back(Obj{name, k, t, len});
			},
			this);
	}
};
static std::unique_ptr<World> w;
static int8_t ovr() { return w->pout.override_(); }
static void ovr(int8_t x) { w->pout.override_(x); }
static bool get() { return w->pin(); }
static void set(bool x) { w->pout(x); }

static long units(double v)
{
	if(std::isnan(v)) return 1073741824;
	double x = std::floor(v * 1024 + .5);
	if(x >= 1073741823.0) return 1073741823;
	if(x <= -1073741823.0) return -1073741823;
	return (long)x;
}
static std::string num(double v) { return std::to_string(units(v)); }
static std::string num(float v) { return std::to_string(units((double)v)); }
static std::string num(bool v) { return v ? "1" : "0"; }
static std::string scope(std::string const& s)
{
	std::string r;
	for(auto& o : w->objs[s]) {
		std::string v;
		alignas(8) char b[8];
		stored::Variant<Store> x = w->store.find(o.name.c_str());
		x.get(b, o.len);
		if(o.t == stored::Type::Float) v = num(*(float*)b);
		else if(o.t == stored::Type::Double) v = num(*(double*)b);
		else if(o.t == stored::Type::Bool) v = num(*(bool*)b);
		else v = std::to_string((int)*(int8_t*)b);
		r += (r.empty() ? "\"" : ",\"") + o.key + "\":" + v;
	}
	return "{" + r + (r.empty() ? "\"x\":0" : "") + "}";
}
static std::string outsJ()
{
	std::string r;
	for(bool b : outs) r += (r.empty() ? "" : ",") + std::string(b ? "1" : "0");
	outs.clear();
	return "[" + r + "]";
}
static void ran(std::string const& c, bool has, double in, std::string const& r)
{
	ev("{\"e\":\"run\",\"c\":\"%s\",\"has\":%s,\"in\":%ld,\"hw\":%d,\"f\":%d,\"r\":%s,\"outs\":%s,\"o\":%s}", c.c_str(), has ? "true" : "false", units(in), (int)hw, (int)freq, r.c_str(), outsJ().c_str(), scope(c).c_str());
}
static double val(std::string const& s) { return strtod(s.c_str(), nullptr); }

int main()
{
	return h::run(
		[&]() { w.reset(); },
		[&](Args const& a) {
			if(a[0] == "new") {
				w.reset();
				hw = false; freq = 1; outs.clear();
				w.reset(new World());
				std::string r;
				for(auto& o : w->objs) r += (r.empty() ? "\"" : ",\"") + o.first + "\":" + scope(o.first);
				ev("{\"e\":\"init\",\"o\":{%s}}", r.c_str());
				return;
			}
			if(!w) return;
			if(a[0] == "set") {	// set scope key value [the value as known by the specification]
				for(auto& o : w->objs[a[1]]) {
					if(o.key != a[2]) continue;
					double v = val(a[3]);
					float f = (float)v; bool b = v != 0; int8_t i = (int8_t)v;
					stored::Variant<Store> x = w->store.find(o.name.c_str());
					if(o.t == stored::Type::Float) x.set(f);
					else if(o.t == stored::Type::Double) x.set(v);
					else if(o.t == stored::Type::Bool) x.set(b);
					else x.set(i);
					ev("{\"e\":\"set\",\"c\":\"%s\",\"k\":\"%s\",\"v\":%ld,\"o\":%s}", a[1].c_str(), a[2].c_str(), a.size() > 4 ? num(a, 4) : o.t == stored::Type::Float || o.t == stored::Type::Double ? units(v) : (long)v, scope(a[1]).c_str());
				}
			} else if(a[0] == "f") {
				freq = (float)val(a[1]);
				ev("{\"e\":\"f\",\"f\":%d}", (int)freq);
			} else if(a[0] == "hw") {
				hw = h::num(a, 1) != 0;
				ev("{\"e\":\"hw\",\"hw\":%d}", (int)hw);
			} else if(a[0] == "assign") {
				// copies of the component behave the same
				bool d = false;
#define ASSIGN(x) if(a[1] == #x) { auto t = w->x; w->x = t; d = true; }
				COMPS(ASSIGN)
				(void)d;
			} else if(a[0] == "run") {
				std::string const& c = a[1];
				bool has = a.size() > 2;
				double in = has ? val(a[2]) : 0;
#define BOTH(x) else if(c == #x) { auto r = has ? w->x((decltype(w->x()))in) : w->x(); ran(c, has, in, num(r)); }
#define INONLY(x) else if(c == #x) { auto r = w->x((decltype(w->x(1)))in); ran(c, true, in, num(r)); }
#define NOIN(x) else if(c == #x) { auto r = w->x(); ran(c, false, 0, num(r)); }
				if(false) {}
				BOTH(amp) BOTH(damp) INONLY(samp)
				else if(c == "pin" || c == "spin") {
					bool r;
					if(c == "pin") r = has ? w->pin(in != 0) : w->pin();
					else { has = true; r = w->spin(in != 0); }
					if(has) hw = in != 0;
					ran(c, false, 0, num(r));
				} else if(c == "get") {
					bool r = w->store.pin__get();
					ran("pin", false, 0, num(r));
				} else if(c == "input") {
					bool r = w->pin.input();
					ev("{\"e\":\"input\",\"r\":%d}", (int)r);
				} else if(c == "pout") {
					bool r = has ? w->pout(in != 0) : w->pout();
					ran(c, has, in != 0 ? 1.0 / 1024 : 0, num(r));
				} else if(c == "pset") {
					w->store.pout__set(in != 0);
					ran("pout", true, in != 0 ? 1.0 / 1024 : 0, outs.empty() ? "-1" : num((bool)outs.back()));
				} else if(c == "ovr" || c == "ovrs") {
					if(c == "ovr") w->pout.override_((int8_t)in);
					else w->store.pout__override((int8_t)in);
					int8_t x = w->store.pout__override();
					ev("{\"e\":\"ovr\",\"v\":%d,\"r\":%d,\"outs\":%s}", (int)in, (int)x, outsJ().c_str());
				}
				BOTH(pid) INONLY(spid) BOTH(mpid)
				NOIN(pulse) NOIN(spulse) NOIN(sine)
				BOTH(lowpass) BOTH(highpass) INONLY(slow)
				BOTH(ramp) INONLY(sramp)
			} else if(a[0] == "health") {
				ev("{\"e\":\"health\",\"pid\":%s,\"spid\":%s,\"mpid\":%s,\"ramp\":%s,\"sramp\":%s,\"sine\":%s,\"pulse\":%s}", w->pid.isHealthy() ? "true" : "false", w->spid.isHealthy() ? "true" : "false", w->mpid.isHealthy() ? "true" : "false",
					w->ramp.isHealthy() ? "true" : "false", w->sramp.isHealthy() ? "true" : "false", w->sine.isHealthy() ? "true" : "false", w->pulse.isHealthy() ? "true" : "false");
			} else if(a[0] == "enable") {
				// by the component's functions
#define EN(x) if(a[1] == #x) { if(h::num(a, 2)) w->x.enable(); else w->x.disable(); ev("{\"e\":\"enable\",\"c\":\"%s\",\"v\":%ld,\"q\":%s,\"o\":%s}", #x, h::num(a, 2), w->x.enabled() ? "true" : "false", scope(#x).c_str()); }
				EN(amp) EN(samp) EN(damp) EN(pid) EN(spid) EN(mpid) EN(pulse) EN(spulse) EN(sine) EN(lowpass) EN(highpass) EN(slow) EN(ramp) EN(sramp)
			}
		},
		[]() {});
}
