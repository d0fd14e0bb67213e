// Reference models of the components of components.h (C25).
#pragma once
#include "common.h"
#include "CStore.h"
#include <stored>
#include <cmath>
#include <limits>
#include <map>
#include <set>
using namespace vf;

extern float g_freq[];
extern bool g_pin[];
extern std::vector<bool> g_pinSet[];

class CompStore : public STORE_T(CompStore, stored::CStoreDefaultFunctions, stored::CStoreBase) {
	STORE_CLASS(CompStore, stored::CStoreDefaultFunctions, stored::CStoreBase)
public:
	CompStore() = default;
#include "compfunctions.inc"
};

struct Fields {
	CompStore& store;
	unsigned scope;
	std::map<char, char const*> names; // the ones in the store
	std::string trace;

	bool has(char id) const { return names.count(id) != 0; }
	stored::Variant<CompStore> var(char id)
	{
		auto v = store.find(fmt("/s%u/%s", scope, names.at(id)).c_str());
		if(!v.valid()) harnessError(fmt("no %s in scope %u", names.at(id), scope));
		return v;
	}
	template <typename T> T get(char id, T def) { return has(id) ? var(id).template get<T>() : def; }
	template <typename T> bool set(char id, T v)
	{
		if(!has(id)) return false;
		var(id).template set<T>(v);
		trace += fmt("%c=%.9g;", id, (double)v);
		return true;
	}
};

[[noreturn]] inline void failed(Fields& f, char const* key, std::string const& what)
{
	violation(key, what + "; scope " + fmt("%u", f.scope) + ", history: " + (f.trace.size() > 3000 ? "..." + f.trace.substr(f.trace.size() - 3000) : f.trace));
	throw 0;
}

static double const NaN = std::numeric_limits<double>::quiet_NaN();
static double const Inf = std::numeric_limits<double>::infinity();

inline bool close_(double a, double b, double tol)
{
	if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if(a == b) return true;
	return std::fabs(a - b) <= tol;
}

inline double value(Rng& r)
{
	switch(r.below(8)) {
	case 0: return 0;
	case 1: return (double)r.range(0, 20) - 10;
	case 2: return ((double)r.range(0, 2000000) - 1000000) / 1000;
	case 3: return ((double)r.range(0, 2000) - 1000) * 1e-6;
	default: return ((double)r.range(0, 20000) - 10000) / 1000;
	}
}
inline double pos(Rng& r) { double v; do v = std::fabs(value(r)); while(!(v > 0)); return v; }

template <typename T> struct Tol { static double eps() { return (double)std::numeric_limits<T>::epsilon(); } };

// ---------------------------------------------------------------------------------------------
template <typename T> T lim(int s) { return std::is_integral<T>::value ? T() : s > 0 ? std::numeric_limits<T>::infinity() : (T)-std::numeric_limits<T>::infinity(); }

template <typename T, typename C>
void checkAmplifier(Rng& r, Fields& f, C& c)
{
	bool const integer = std::is_integral<T>::value;
	auto val = [&] { double v = value(r); return integer ? (T)std::trunc(v) : (T)v; };
	int n = (int)r.range(1, 30);
	for(int i = 0; i < n; i++) {
		if(r.flip()) f.set<T>('g', val());
		if(r.flip()) f.set<T>('o', val());
		if(r.chance(1, 3)) { double l = (double)val(), h = (double)val(); if(l > h && !r.chance(1, 4)) std::swap(l, h); f.set<T>('l', (T)l); f.set<T>('h', (T)h); }
		if(!integer && r.chance(1, 6)) { f.set<T>('l', lim<T>(-1)); f.set<T>('h', lim<T>(1)); }
		if(r.chance(1, 4)) f.set<T>('F', integer || r.flip() ? val() : std::numeric_limits<T>::quiet_NaN());
		if(r.chance(1, 5)) { bool e = r.flip(); if(r.flip()) { c.enable(e); f.trace += e ? "enable();" : "enable(false);"; } else if(!e) { c.disable(); f.trace += "disable();"; } else f.set<bool>('e', e); }
		T in = val();
		T got;
		if(r.flip()) {
			got = c(in);
			f.trace += fmt("(%.9g);", (double)in);
			if(f.has('I') && f.get<T>('I', 0) != in) failed(f, "input", "the input object does not hold the input");
		} else {
			if(!f.set<T>('I', in)) in = 0;
			got = c();
			f.trace += "();";
		}
		double g = (double)f.get<T>('g', 1), o = (double)f.get<T>('o', 0);
		double lo = (double)f.get<T>('l', integer ? std::numeric_limits<T>::lowest() : (T)lim<T>(-1)), hi = (double)f.get<T>('h', integer ? std::numeric_limits<T>::max() : (T)lim<T>(1));
		double ov = f.has('F') ? (double)f.get<T>('F', 0) : NaN;
		bool en = f.get<bool>('e', true);
		double want;
		double tol = 0;
		if(!std::isnan(ov)) want = ov;
		else {
			want = en ? (double)in * g + o : (double)in;
			tol = en ? (std::fabs((double)in * g) + std::fabs(o)) * 4 * Tol<T>::eps() : 0;
			want = std::min(std::max(lo, want), hi);
		}
		count("amplifier runs");
		if(!close_((double)got, want, tol)) failed(f, "amplifier", fmt("the amplifier returns %.9g, not %.9g", (double)got, want));
		if(f.has('O') && !close_((double)f.get<T>('O', 0), (double)got, 0)) failed(f, "output", "the output object does not hold the output");
		if(c.enabled() != en || c.gain() != (T)g || c.offset() != (T)o || (double)c.low() != lo || (double)c.high() != hi || (f.has('O') && c.output() != got)
			|| (f.has('I') && c.input() != in) || (f.has('F') && !close_((double)c.override_(), ov, 0)))
			failed(f, "accessor", "an accessor of the amplifier does not return the value in the store");
	}
}

// ---------------------------------------------------------------------------------------------
template <typename Base>
struct VirtualPinIn : Base {
	using Base::Base;
	bool hw = false;

	bool pin() const noexcept override { return hw; }
};

template <typename C>
void checkPinIn(Rng& r, Fields& f, C& c, bool& hw, bool virt)
{
	int n = (int)r.range(1, 30);
	bool last = false, ran = false;
	for(int i = 0; i < n; i++) {
		hw = r.flip();
		if(r.flip()) f.set<int8_t>('F', (int8_t)(r.chance(1, 8) ? (int)r.range(0, 255) - 128 : (int)r.range(0, 3) - 1));
		bool p = virt || f.has('p') ? hw : false;
		int ov = f.get<int8_t>('F', -1);
		bool got;
		auto want = [&](bool pin) { return ov == 0 ? false : ov == 1 ? true : ov == 2 ? !pin : pin; };
		bool w;
		f.trace += fmt("hw=%d;", hw);
		switch(r.below(3)) {
		case 0: { bool arg = r.flip(); got = c(arg); w = want(arg); f.trace += fmt("(%d);", arg); break; }
		case 1: got = c(); w = want(p); f.trace += "();"; break;
		default:
			if(f.has('i')) {
				if(!ran) continue;
				got = c.input();
				w = last;
				f.trace += "input();";
				if(f.get<bool>('i', false) != last) failed(f, "input", "the input object does not hold the input");
			} else {
				got = c.input();
				w = want(p);
				f.trace += "input();";
			}
		}
		ran = true;
		count("pin in runs");
		if(got != w) failed(f, "pin in", fmt("the input pin returns %d, with override %d", got, ov));
		last = got;
		if(f.has('i') && f.get<bool>('i', false) != got) failed(f, "input", "the input object does not hold the input");
		if(c.override_() != ov) failed(f, "accessor", "override_() does not return the value in the store");
	}
}

template <typename Base>
struct VirtualPinOut : Base {
	using Base::Base;
	std::vector<bool> sets;
	void pin(bool v) noexcept override { sets.push_back(v); }
};

template <typename C>
void checkPinOut(Rng& r, Fields& f, C& c, std::vector<bool>& sets, bool observed)
{
	int n = (int)r.range(1, 30);
	int ov = -1;
	bool out = f.get<bool>('o', false);
	for(int i = 0; i < n; i++) {
		sets.clear();
		bool got = false, ret = true;
		switch(r.below(4)) {
		case 0: ov = r.chance(1, 8) ? (int)r.range(0, 255) - 128 : (int)r.range(0, 3) - 1; c.override_((int8_t)ov); ret = false; f.trace += fmt("override(%d);", ov); break;
		case 1: out = r.flip(); got = c(out); f.trace += fmt("(%d);", out); break;
		case 2: out = r.flip(); f.set<bool>('o', out); [[fallthrough]];
		default: got = c(); f.trace += "();";
		}
		bool w = ov == 0 ? false : ov == 1 ? true : ov == 2 ? !out : out;
		count("pin out runs");
		if(ret && got != w) failed(f, "pin out", fmt("the output pin returns %d, with output %d and override %d", got, out, ov));
		if(observed && (sets.empty() || sets.back() != w)) failed(f, "pin set", "the hardware pin is not set accordingly");
		if(observed && sets.size() != 1) failed(f, "pin set", fmt("the hardware pin is set %zu times", sets.size()));
		if(f.get<bool>('o', false) != out || c.output() != out) failed(f, "output", "the output object does not hold the application's output");
		if(c.override_() != ov) failed(f, "accessor", "override_() does not return the override");
	}
}

// ---------------------------------------------------------------------------------------------
template <typename T, typename C>
void checkPID(Rng& r, Fields& f, C& c)
{
	double const eps = Tol<float>::eps(); // 1 / frequency is a float
	bool first = true;
	double Ki = 0, Kd = 0, integral = 0, yPrev = NaN, lastU = f.has('u') ? (double)f.get<T>('u', 0) : std::max(0.0, (double)f.get<T>('l', (T)-Inf));
	bool known = true; // last output
	int n = (int)r.range(1, 60);
	auto params = [&] {
		if(r.chance(1, 3)) f.set<T>('p', (T)value(r));
		if(r.chance(1, 3)) f.set<T>('i', r.chance(1, 4) ? (T)Inf : (T)pos(r));
		if(r.chance(1, 6)) f.set<T>('i', 0);
		if(r.chance(1, 3)) f.set<T>('d', r.flip() ? 0 : (T)(pos(r) / 100));
		if(r.chance(1, 4)) { g_freq[f.scope] = r.chance(1, 10) ? 0 : (float)r.range(1, 1000); f.trace += fmt("f=%g;", (double)g_freq[f.scope]); }
	};
	params();
	for(int i = 0; i < n; i++) {
		if(r.chance(1, 3)) f.set<T>('s', (T)value(r));
		if(r.chance(1, 6)) f.set<T>('k', (T)value(r));
		if(r.chance(1, 6)) { double l = value(r), h = value(r); if(l > h) std::swap(l, h); f.set<T>('L', r.flip() ? (T)-Inf : (T)l); f.set<T>('H', r.flip() ? (T)Inf : (T)h); }
		if(r.chance(1, 6)) { double l = value(r), h = value(r); if(l > h) std::swap(l, h); f.set<T>('l', r.flip() ? (T)-Inf : (T)l); f.set<T>('h', r.flip() ? (T)Inf : (T)h); }
		if(r.chance(1, 6)) f.set<T>('E', r.flip() ? (T)Inf : (T)pos(r));
		if(r.chance(1, 6)) f.set<T>('3', r.flip() ? (T)Inf : (T)(pos(r) / 1000));
		if(r.chance(1, 8)) f.set<T>('F', r.flip() ? (T)NaN : (T)value(r));
		if(r.chance(1, 10)) f.set<bool>('e', !f.get<bool>('e', true));
		if(r.chance(1, 8)) params(); // only applied at a reset
		if(r.chance(1, 8)) f.set<bool>('r', true);
		if(r.chance(1, 12)) f.set<T>('I', (T)value(r));

		bool pending = f.get<bool>('r', false);
		double intBefore = (double)f.get<T>('I', 0);
		T y = (T)value(r), gotT;
		if(r.flip()) {
			gotT = c(y);
			f.trace += fmt("(%.9g);", (double)y);
			if(f.has('y') && f.get<T>('y', 0) != y) failed(f, "input", "the y object does not hold y");
		} else {
			if(!f.set<T>('y', y)) y = 0;
			gotT = c();
			f.trace += "();";
		}
		double got = (double)gotT;
		f.trace += fmt("->%.9g;", got);
		count("pid runs");

		double ov = f.has('F') ? (double)f.get<T>('F', 0) : NaN;
		if(!std::isnan(ov)) {
			if(got != ov) failed(f, "override", fmt("the PID returns %.9g, while it is overridden", got));
			if(f.has('u') && (double)f.get<T>('u', 0) != got) failed(f, "output", "u does not hold the output");
			if((double)c.u() != ov) failed(f, "accessor", "u() does not return the override");
			continue;
		}
		if(!f.get<bool>('e', true)) {
			if(known && !close_(got, lastU, 0)) failed(f, "pid", fmt("a disabled PID returns %.9g, not its last output %.9g", got, lastU));
			count("pid disabled");
			continue;
		}

		double sp = (double)f.get<T>('s', 0), Kp = (double)f.get<T>('p', 0);
		double e = sp - (double)y;
		double em = (double)f.get<T>('E', (T)Inf);
		e = std::max(-em, std::min(em, e));
		bool reset = first;
		if(pending) reset = true;
		if(f.get<bool>('r', false)) failed(f, "reset", "reset is not cleared");
		if(reset) {
			double fr = (double)g_freq[f.scope];
			double Ti = (double)f.get<T>('i', (T)Inf), Td = (double)f.get<T>('d', 0);
			Ki = Kd = 0;
			if(fr > 0) {
				if(Ti != 0) Ki = Kp / fr / Ti;
				Kd = -Kp * Td * fr;
			}
			yPrev = (double)y;
			if(f.has('I')) integral = intBefore;
			count("pid resets");
		}
		first = false;

		double kff = (double)f.get<T>('k', 0);
		double lo = (double)f.get<T>('l', (T)-Inf), hi = (double)f.get<T>('h', (T)Inf);
		double il = (double)f.get<T>('L', (T)-Inf), ih = (double)f.get<T>('H', (T)Inf);
		double u = Kp * e + integral + kff * sp;
		double tol = (std::fabs(Kp) * (std::fabs(sp) + std::fabs((double)y)) + std::fabs(integral) + std::fabs(kff * sp) + std::fabs(Ki * e)
			+ std::fabs(Kd) * (std::fabs((double)y) + std::fabs(yPrev))) * 16 * eps;
		double di = Ki * e;
		bool border = std::fabs(u - lo) <= tol || std::fabs(u - hi) <= tol;
		double was = integral;
		if((u >= lo || di > 0) && (u <= hi || di < 0)) {
			double in = std::max(il, std::min(ih, integral + di));
			tol += std::fabs(in) * 16 * eps;
			u += in - integral;
			integral = in;
		} else count("pid windup prevented");
		if(Kd != 0) u += Kd * ((double)y - yPrev);
		if(Kd != 0) yPrev = (double)y;
		u = std::max(lo, std::min(hi, u));
		if(border) count("pid borderline");
		else {
			if(!close_(got, u, tol)) failed(f, "pid", fmt("the PID returns %.9g, not %.9g", got, u));
			if(!close_((double)c.int_(), integral, tol)) failed(f, "integral", fmt("the integral is %.9g, not %.9g", (double)c.int_(), integral));
			if(integral != was && f.has('I') && (double)f.get<T>('I', 0) != (double)c.int_()) failed(f, "integral", "the int object does not hold the integral");
		}
		integral = (double)c.int_();
		lastU = got;
		known = true;
		if(!(got >= lo && got <= hi)) failed(f, "bounds", fmt("the PID returns %.9g, beyond its bounds", got));
		if(f.has('u') && (double)f.get<T>('u', 0) != got) failed(f, "output", "u does not hold the output");
		if(!close_((double)c.Ki(), Ki, std::fabs(Ki) * 8 * eps) || !close_((double)c.Kd(), Kd, std::fabs(Kd) * 8 * eps)) failed(f, "coefficients", fmt("Ki is %.9g, not %.9g; or Kd is %.9g, not %.9g", (double)c.Ki(), Ki, (double)c.Kd(), Kd));
		// Health: the smallest error must change the integral.
		double step = std::fabs((double)f.get<T>('3', (T)Inf) * Ki), in = std::fabs(integral);
		if(Ki == 0 || step > 8 * Tol<T>::eps() * in + (double)std::numeric_limits<T>::min()) {
			if(!c.isHealthy()) failed(f, "health", fmt("the PID is not healthy with Ki=%.9g int=%.9g epsilon=%.9g", Ki, in, (double)f.get<T>('3', (T)Inf)));
			count("pid healthy");
		} else if(step < in * Tol<T>::eps() / 8) {
			if(c.isHealthy()) failed(f, "health", fmt("the PID is healthy with Ki=%.9g int=%.9g epsilon=%.9g", Ki, in, (double)f.get<T>('3', (T)Inf)));
			count("pid unhealthy");
		}
	}
}

// ---------------------------------------------------------------------------------------------
static double const Pi = 3.14159265358979323846;

template <typename T, typename C>
void checkSine(Rng& r, Fields& f, C& c, bool pulse)
{
	double const eps = Tol<float>::eps(); // 1 / frequency is a float
	double t = 0;
	double terr = 0; // rounding of the time
	int n = (int)r.range(1, r.chance(1, 40) ? 3000 : 120);
	bool known = true, justChanged = false;
	auto sf = [&] { g_freq[f.scope] = r.chance(1, 20) ? 0 : r.flip() ? (float)r.range(1, 50) : (float)std::max(0.05, pos(r)); f.trace += fmt("s=%.9g;", (double)g_freq[f.scope]); };
	sf();
	auto fr = [&] { f.set<T>('f', r.chance(1, 20) ? 0 : (T)((double)r.range(1, 3000) / (double)r.range(1, 3000))); };
	if(r.flip()) fr();
	for(int i = 0; i < n; i++) {
		if(r.chance(1, 20)) f.set<T>('A', (T)value(r));
		if(r.chance(1, 20)) f.set<T>('o', (T)value(r));
		if(r.chance(1, 20)) f.set<T>('p', (T)(value(r) * 0.7));
		if(r.chance(1, 20)) f.set<T>('d', r.chance(1, 8) ? (T)value(r) : (T)((double)r.range(0, 100) / 100));
		if(r.chance(1, 30)) f.set<T>('F', r.flip() ? (T)NaN : (T)value(r));
		if(r.chance(1, 30)) { bool e = r.flip(); if(r.flip()) { c.enable(e); f.trace += e ? "enable();" : "enable(false);"; } else f.set<bool>('e', e); }
		if(r.chance(1, 60)) sf();
		if(r.chance(1, 60)) {
			double was = (double)f.get<T>('f', 0);
			fr();
			double now = (double)f.get<T>('f', 0);
			// Near the wrap-around, it is open what the time is in the new period.
			double amb = 1e-3 / (was > 0 ? was : 1) + 2 * terr;
			if(was > 0 && was != now && (t < amb || 1 / was - t < amb)) known = false;
			justChanged = was != now; // it is open whether the time is already within the new period
		}

		T gotT = c();
		double got = (double)gotT;
		f.trace += fmt("->%.9g;", got);
		count(pulse ? "pulse wave runs" : "sine runs");
		double A = (double)f.get<T>('A', 1), fq = f.has('f') ? (double)f.get<T>('f', 0) : pulse ? 1 : 0.5 / Pi;
		double ph = (double)f.get<T>('p', 0), off = (double)f.get<T>('o', 0), ov = f.has('F') ? (double)f.get<T>('F', 0) : NaN;
		bool en = f.get<bool>('e', true);
		double period = fq > 0 ? 1 / fq : 0;
		if(!std::isnan(ov)) {
			if(got != ov) failed(f, "override", fmt("the generator returns %.9g, while it is overridden", got));
		} else if(!en) {
			if(got != off) failed(f, "disabled", fmt("the disabled generator returns %.9g, not %.9g", got, off));
		} else if(!pulse) {
			double want = A * std::sin(2 * Pi * fq * t + ph) + off;
			double tol = (std::fabs(A) * (20 + 8 * (fq * t) + 4 * std::fabs(ph)) + std::fabs(off)) * eps * 2 + std::fabs(A) * 2 * Pi * fq * terr;
			if(known && (fq > 0 || t == 0) && !close_(got, want, tol)) failed(f, "sine", fmt("the sine returns %.9g, not %.9g (t=%.9g)", got, want, t));
			if(!(std::fabs(got - off) <= std::fabs(A) * (1 + 8 * eps) + std::fabs(off) * 2 * eps)) failed(f, "amplitude", fmt("the sine returns %.9g, beyond its amplitude", got));
		} else if(fq > 0) {
			double duty = (double)f.get<T>('d', (T)0.5);
			double x = t * fq + ph / (2 * Pi);
			x -= std::floor(x); // 0..1 in the period
			double tol = (20 + 4 * std::fabs(ph)) * eps + fq * terr;
			// Where in the period is unclear at the edges.
			bool edge = std::fabs(x - duty) <= tol || x <= tol || x >= 1 - tol;
			double want = x < duty ? A : 0;
			if(edge) {
				if(got != A && got != 0) failed(f, "pulse", fmt("the pulse wave returns %.9g", got));
				count("pulse edges");
			} else if(known && !(justChanged && t >= period) && got != want) failed(f, "pulse", fmt("the pulse wave returns %.9g, not %.9g, at %.9g of the period, duty cycle %.9g", got, want, x, duty));
		}
		if(f.has('O') && !close_((double)f.get<T>('O', 0), got, 0)) failed(f, "output", "the output object does not hold the output");
		if(c.enabled() != en || (double)c.amplitude() != A || !close_((double)c.frequency(), fq, fq * 4 * eps) || (double)c.phase() != ph)
			failed(f, "accessor", "an accessor of the generator does not return the value in the store");

		if(!(period > 0) || t < period) justChanged = false;
		// Health
		double s = (double)g_freq[f.scope];
		if(s > 0 && period > 0) {
			double d = 1 / s;
			if(d > period * Tol<T>::eps() * 8 && 10 * fq * d > std::fabs(ph) * Tol<T>::eps() * 8) { if(!c.isHealthy()) failed(f, "health", "the generator is not healthy"); }
			else if(d < period * Tol<T>::eps() / 8 || 10 * fq * d < std::fabs(ph) * Tol<T>::eps() / 8) { if(c.isHealthy()) failed(f, "health", "the generator is healthy"); count("generator unhealthy"); }
			// Rounding of the time, relative to the period
			terr += (t + d + period) * eps * 2;
			t = std::fmod(t + d, period);
		} else if(!c.isHealthy()) failed(f, "health", "the generator is not healthy");
	}
}

// ---------------------------------------------------------------------------------------------
template <typename T, typename C>
void checkFilter(Rng& r, Fields& f, C& c, bool lowPass)
{
	double const eps = Tol<float>::eps(); // 1 / frequency is a float
	bool first = true;
	double alpha = NaN, prevIn = NaN, prevOut = 0, mag = 0;
	int n = (int)r.range(1, 100), runs = 0;
	auto params = [&] {
		if(r.flip()) f.set<T>('c', r.chance(1, 10) ? 0 : (T)pos(r));
		if(r.flip()) { g_freq[f.scope] = r.chance(1, 10) ? 0 : (float)r.range(1, 1000); f.trace += fmt("s=%g;", (double)g_freq[f.scope]); }
	};
	f.set<T>('c', (T)pos(r));
	params();
	double x = value(r);
	for(int i = 0; i < n; i++) {
		if(r.chance(1, 20)) params(); // only applied at a reset
		if(r.chance(1, 12)) f.set<bool>('r', true);
		if(r.chance(1, 20)) f.set<T>('F', r.flip() ? (T)NaN : (T)value(r));
		if(r.chance(1, 20)) { bool e = r.flip(); if(r.flip()) { c.enable(e); f.trace += e ? "enable();" : "enable(false);"; } else f.set<bool>('e', e); }
		if(r.chance(1, 3)) x = value(r);
		T in = (T)x, gotT;
		bool pending = f.get<bool>('r', false);
		if(r.flip()) {
			gotT = c(in);
			f.trace += fmt("(%.9g);", (double)in);
			if(f.has('I') && f.get<T>('I', 0) != in) failed(f, "input", "the input object does not hold the input");
		} else {
			if(!f.set<T>('I', in)) in = 0;
			gotT = c();
			f.trace += "();";
		}
		double got = (double)gotT;
		f.trace += fmt("->%.9g;", got);
		count(lowPass ? "low pass runs" : "high pass runs");
		runs++;
		mag = std::max(mag, std::fabs((double)in));
		double tol = (mag + std::fabs(prevOut)) * eps * (double)(8 + 2 * runs) * 4;
		double ov = f.has('F') ? (double)f.get<T>('F', 0) : NaN;
		bool en = f.get<bool>('e', true);
		if(!std::isnan(ov)) {
			if(got != ov) failed(f, "override", fmt("the filter returns %.9g, while it is overridden", got));
			prevOut = (double)in;
		} else if(!en) {
			if(got != (double)in) failed(f, "disabled", fmt("the disabled filter returns %.9g, not its input", got));
			prevOut = got;
		} else {
			if(first || pending) {
				double fc = (double)f.get<T>('c', 0), s = (double)g_freq[f.scope];
				double rc = fc > 0 ? 1 / (2 * Pi * fc) : 0, dt = s > 0 ? 1 / s : 0;
				if(lowPass) alpha = dt > 0 ? dt / (rc + dt) : 1;
				else alpha = rc > 0 ? rc / (rc + dt) : 1;
				count("filter resets");
				if(f.get<bool>('r', false)) failed(f, "reset", "reset is not cleared");
			}
			if(first) prevOut = prevIn = (double)in;
			double want;
			if(lowPass) want = alpha * (double)in + (1 - alpha) * prevOut;
			else want = alpha * (prevOut + ((double)in - prevIn));
			if(!close_(got, want, tol)) failed(f, "filter", fmt("the filter returns %.9g, not %.9g", got, want));
			if(lowPass) {
				double a = std::min((double)in, prevOut), b = std::max((double)in, prevOut);
				if(got < a - tol || got > b + tol) failed(f, "filter", "the low-pass filter overshoots");
			}
			prevOut = got;
			first = false;
			if((double)c.lastOutput() != got) failed(f, "accessor", "lastOutput() is not the last output");
		}
		prevIn = (double)in;
		if((double)c.lastInput() != prevIn) failed(f, "accessor", "lastInput() is not the last input");
		if(f.has('O') && !close_((double)f.get<T>('O', 0), got, 0)) failed(f, "output", "the output object does not hold the output");
		if(c.enabled() != en || !close_((double)c.override_(), ov, 0) || c.cutoffFrequency() != f.get<T>('c', 0)) failed(f, "accessor", "an accessor of the filter does not return the value in the store");
	}
}

// ---------------------------------------------------------------------------------------------
template <typename T, typename C>
void checkRamp(Rng& r, Fields& f, C& c)
{
	double const eps = Tol<float>::eps(); // 1 / frequency is a float
	double sf = (double)r.range(1, 500);
	g_freq[f.scope] = (float)sf;
	f.trace += fmt("s=%g;", sf);
	double dt = 1 / sf;
	double sl = Inf, al = Inf;
	auto limits = [&] {
		if(f.has('v')) f.set<T>('v', r.chance(1, 4) ? (T)Inf : (T)((double)r.range(1, 2000) / 100));
		if(f.has('a')) f.set<T>('a', r.chance(1, 4) ? (T)Inf : (T)((double)r.range(1, 4000) / 100));
		sl = (double)f.get<T>('v', (T)Inf);
		al = (double)f.get<T>('a', (T)Inf);
	};
	limits();
	double x = 0, v = 0; // last output and speed, per tick
	int segs = (int)r.range(1, 10);
	double target = 0;
	bool first = true;
	double mag = 20;
	bool wasReset = false;
	double vAllowed = 0; // the speed may be above the limit for a while, when the limit was lowered
	for(int s = 0; s < segs; s++) {
		if(!r.chance(1, 6)) target = ((double)r.range(0, 20000) - 10000) / (r.flip() ? 1000 : 500);
		if(!first && f.has('r') && r.chance(1, 2)) {
			limits();
			f.set<bool>('r', true);
			wasReset = true;
			vAllowed = std::max(vAllowed, std::fabs(v)) + 2 * std::min(sl, al * dt) * dt;
		}
		double a_ = std::min(sl, al * dt); // speed step per tick
		// How long it takes at most.
		double dist = std::fabs(target - x) + std::fabs(v) / dt * std::fabs(v) / dt / 2 / std::min(al, sl / dt);
		double ticks;
		if(std::isinf(sl) && std::isinf(al)) ticks = 1;
		else {
			// braking from the current speed first, and then accelerate and brake again
			double acc = std::min(al, sl / dt);
			double t0 = std::fabs(v) / dt / acc;
			double d = dist;
			double t1 = std::isinf(sl) ? 2 * std::sqrt(d / acc) : d / sl + 2 * sl / acc;
			ticks = (t0 + t1) * 2.5 / dt + 30;
		}
		bool run = r.flip();
		int n = run ? (int)std::min(ticks, 4000.0) : (int)r.range(1, (uint64_t)std::min(ticks, 200.0) + 1);
		bool arrived = false;
		double lo = std::min(x, target), hi = std::max(x, target);
		bool fromRest = v == 0;
		f.trace += fmt("x=%.9g v=%.9g target=%.9g n=%d;", x, v, target, n);
		T in = (T)target;
		for(int i = 0; i < n; i++) {
			double got;
			if(!first && r.chance(1, 400) && f.has('F')) {
				T ov = (T)value(r);
				f.set<T>('F', ov);
				got = (double)c(in);
				if(got != (double)ov) failed(f, "override", fmt("the ramp returns %.9g, while it is overridden", got));
				f.set<T>('F', (T)NaN);
				v = 0;
				fromRest = false;
				vAllowed = 0;
				count("ramp overrides");
				n++;
				continue;
			}
			if(r.flip()) {
				got = (double)c(in);
				if(f.has('I') && f.get<T>('I', 0) != in) failed(f, "input", "the input object does not hold the input");
			} else if(f.has('I')) {
				f.var('I').template set<T>(in);
				got = (double)c();
			} else got = (double)c(in);
			count("ramp runs");
			first = false;
			if(f.has('O') && (double)f.get<T>('O', 0) != got) failed(f, "output", "the output object does not hold the output");
			if(f.has('r') && f.get<bool>('r', false)) failed(f, "reset", "reset is not cleared");
			if(std::isinf(sl) && std::isinf(al)) {
				if(got != (double)in) failed(f, "ramp", "an unlimited ramp does not follow its input");
				x = got; v = 0; arrived = true;
				continue;
			}
			double nv = got - x;
			mag = std::max(mag, std::fabs(got));
			double tol = mag * eps * 8 + (a_ * dt) * 1e-3;
			double step = a_ * dt; // largest change of position per tick per tick
			vAllowed = std::max(sl * dt, vAllowed - step * 0.3);
			// The last step to the target may be up to one step off.
			bool last = got == (double)in;
			if(std::fabs(nv) > vAllowed * (1 + 1e-4) + tol) failed(f, "speed limit", fmt("the speed is %.9g, beyond its limit %.9g (x=%.9g)", std::fabs(nv) * sf, sl, got));
			if(std::fabs(nv - v) > step * (last || wasReset ? 2 : 1) * (1 + 1e-4) + 2 * tol) failed(f, "acceleration limit", fmt("the acceleration is %.9g, beyond its limit %.9g (x=%.9g)", std::fabs(nv - v) * sf * sf, std::min(al, sl * sf), got));
			if(fromRest && (got < lo - step - tol || got > hi + step + tol)) failed(f, "overshoot", fmt("the ramp overshoots: %.9g", got));
			if(arrived && got != (double)in) failed(f, "ramp", "the ramp leaves its target");
			wasReset = false; // a reset rounds the speed
			x = got;
			v = nv;
			if(got == (double)in && i > 0 && nv == 0) arrived = true;
			if(last) v = 0;
		}
		if(run && ticks < 4000) {
			if(x != (double)in && !c.isHealthy()) { count("ramp unhealthy"); return; }
			if(x != (double)in) failed(f, "arrival", fmt("the ramp does not arrive, but is at %.9g (%.9g off) after %d ticks", x, x - (double)in, n));
			count("ramp arrivals");
			v = 0;
		}
		count("ramp segments");
		if(r.chance(1, 8) && f.has('e') && !(std::isinf(sl) && std::isinf(al))) {
			// Disabled: follows the input.
			f.set<bool>('e', false);
			int k = (int)r.range(1, 5);
			double big = r.chance(1, 3) ? 1e5 : 1;
			T o = (T)x;
			for(int i = 0; i < k; i++) {
				o = (T)(value(r) * big);
				if((double)c(o) != (double)o) failed(f, "disabled", "the disabled ramp does not follow its input");
			}
			// End at rest.
			o = (T)(value(r));
			for(int i = 0; i < 2; i++) if((double)c(o) != (double)o) failed(f, "disabled", "the disabled ramp does not follow its input");
			x = (double)o;
			v = 0;
			f.set<bool>('e', true);
			count("ramp disabled");
		}
		vAllowed = std::max(vAllowed, std::fabs(v));
	}
}
