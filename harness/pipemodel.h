// C24: a model of pipes, independent of the library, and a driver that compares a real pipe with it.
#ifndef PIPEMODEL_H
#define PIPEMODEL_H
#include "common.h"
#include <libstored/pipes.h>
#include <any>
#include <chrono>
#include <functional>
#include <memory>
#include <set>
using namespace vf;
namespace sp = stored::pipes;

// ---------------------------------------------------------------- values

template <typename T> std::string show_(T const& x)
{
	if constexpr(std::is_same<T, std::string>::value) return "'" + hex(x) + "'";
	else if constexpr(std::is_floating_point<T>::value) return std::isnan(x) ? "nan" : fmt("%a", (double)x);
	else return std::to_string((long long)x);
}
template <typename T> T const& as(std::any const& a)
{
	auto p = std::any_cast<T>(&a);
	if(!p) harnessError("model type");
	return *p;
}
static inline bool wide = false; // also use the extremes

template <typename T> T gen(Rng& r)
{
	if constexpr(std::is_same<T, std::string>::value) return r.chance(1, 4) ? std::string() : r.flip() ? "k" + std::to_string(r.below(4)) : r.bytes((size_t)r.range(1, 60));
	else if constexpr(std::is_same<T, bool>::value) return r.flip();
	else if constexpr(std::is_same<T, size_t>::value) return (size_t)(r.chance(1, 10) ? r.next() : r.below(6));
	else if constexpr(std::is_floating_point<T>::value) switch(r.below(8)) {
		case 0: return (T)0;
		case 1: return (T)r.range(-10, 10);
		case 2: return (T)(r.range(-1000000, 1000000)) / (T)1024;
		case 3: return (T)1e30 * (T)r.range(-1000, 1000);
		case 4: return (T)r.range(-300, 300) + (T).5;
		case 5: return r.chance(1, 6) ? std::numeric_limits<T>::infinity() * (r.flip() ? 1 : -1) : (T)r.range(-5, 300);
		default: return (T)r.range(-100, 100) / (T)7;
	}
	else switch(r.below(6)) {
		case 0: return (T)0;
		case 1: return std::numeric_limits<T>::max();
		case 2: return std::numeric_limits<T>::min();
		case 3: return (T)r.next();
		default: return (T)r.range(std::is_signed<T>::value ? -20 : 0, 20);
	}
}

struct Env;

// ---------------------------------------------------------------- model

struct MSeg {
	virtual ~MSeg() = default;
	virtual std::any inject(std::any const& x) { return x; }
	virtual bool hasExtract() const { return false; }
	virtual std::any extract() { return {}; }
	virtual std::any exitCast(std::any const& x) const { return x; }
	virtual std::any entryCast(std::any const& x) const { return x; }
	virtual bool hasTrigger() const { return false; }
	virtual std::any trigger(bool&) { return {}; }
	virtual bool exitPure() const { return true; } // exitCast() of a default value is a default value, without effects
	virtual std::unique_ptr<MSeg> clone() const = 0;
};
template <typename D> struct MSegC : MSeg {
	std::unique_ptr<MSeg> clone() const override { return std::unique_ptr<MSeg>(new D(static_cast<D const&>(*this))); }
};

struct MPipe {
	std::vector<std::unique_ptr<MSeg>> segs;
	MPipe* fwd = nullptr;
	bool open = false;
	MPipe() {}
	MPipe(MPipe const& o) : fwd(o.fwd), open(o.open) { for(auto& s : o.segs) segs.push_back(s->clone()); }
	MPipe& operator=(MPipe const& o) { segs.clear(); for(auto& s : o.segs) segs.push_back(s->clone()); fwd = o.fwd; open = o.open; return *this; }
	MPipe& add(MSeg* s) { segs.emplace_back(s); return *this; }

	std::any inject(std::any x)
	{
		for(auto& s : segs) x = s->inject(x);
		if(fwd) fwd->inject(x);
		return x;
	}
	bool hasExtract() const { for(auto& s : segs) if(s->hasExtract()) return true; return false; }
	bool exitPure() const { for(auto& s : segs) if(!s->exitPure()) return false; return true; }
	std::any extract()
	{
		size_t k = segs.size();
		while(k > 0 && !segs[k - 1]->hasExtract()) k--;
		if(!k) harnessError("no extract");
		std::any x = segs[k - 1]->extract();
		for(; k < segs.size(); k++) x = segs[k]->exitCast(x);
		return x;
	}
	void connect(MPipe& p)
	{
		fwd = &p;
		if(hasExtract()) fwd->inject(extract());
	}
	bool hasTrigger() const { for(auto& s : segs) if(s->hasTrigger()) return true; return false; }
	std::any trigger(bool& t)
	{
		t = false;
		size_t k = 0;
		while(k < segs.size() && !segs[k]->hasTrigger()) k++;
		if(k == segs.size()) return {};
		std::any x = segs[k]->trigger(t);
		for(k++; k < segs.size(); k++) x = t ? segs[k]->inject(x) : segs[k]->exitCast(x);
		if(t && fwd) fwd->inject(x);
		return x;
	}
	std::any exitCast(std::any x) const { for(auto& s : segs) x = s->exitCast(x); return x; }
	std::any entryCast(std::any x) const { for(size_t i = segs.size(); i > 0; i--) x = segs[i - 1]->entryCast(x); return x; }
};

struct Env {
	Rng& r;
	std::vector<std::string> real, model; // side effects
	std::string trace;
	std::vector<std::function<void()>> mutate; // change something that pipes use
	std::vector<std::function<void()>> checks;
	bool bad = false;
	explicit Env(Rng& x) : r(x) {}
	void fail(std::string const& key, std::string const& m)
	{
		if(bad) return;
		bad = true;
		violation(key, m + " | " + (trace.size() > 3000 ? trace.substr(0, 1000) + " ... " + trace.substr(trace.size() - 2000) : trace));
	}
	void check(char const* op)
	{
		for(auto& c : checks) c();
		count("operations on pipes");
		count("side effects", model.size());
		if(real == model) { real.clear(); model.clear(); return; }
		size_t i = 0;
		while(i < real.size() && i < model.size() && real[i] == model[i]) i++;
		auto at = [&](std::vector<std::string> const& v) { return i < v.size() ? v[i] : std::string("nothing"); };
		fail("effects of " + std::string(op), fmt("%s: effect %zu is: %s instead of: %s (%zu effects, %zu expected)", op, i, at(real).c_str(), at(model).c_str(), real.size(), model.size()));
	}
	void checkUnordered(char const* op) { std::sort(real.begin(), real.end()); std::sort(model.begin(), model.end()); check(op); }
};

struct FakeClock {
	using duration = std::chrono::milliseconds;
	using rep = duration::rep;
	using period = duration::period;
	using time_point = std::chrono::time_point<FakeClock>;
	static constexpr bool is_steady = true;
	static inline rep t = 1000;
	static time_point now() noexcept { return time_point(duration(t)); }
};

// ---------------------------------------------------------------- model segments

template <typename T> struct MIdentity : MSegC<MIdentity<T>> {};

template <typename A, typename B> struct MCast : MSegC<MCast<A, B>> {
	template <typename X, typename Y> static Y conv(X x)
	{
		if constexpr(std::is_same<X, Y>::value) return x;
		else if constexpr(std::is_floating_point<Y>::value) return (Y)x;
		else {
			long double v = (long double)x;
			if(std::is_floating_point<X>::value) v = roundl(v); // half away from zero
			if(v <= (long double)std::numeric_limits<Y>::min()) return std::numeric_limits<Y>::min();
			if(v >= (long double)std::numeric_limits<Y>::max()) return std::numeric_limits<Y>::max();
			return (Y)v;
		}
	}
	std::any inject(std::any const& x) override { return exitCast(x); }
	std::any exitCast(std::any const& x) const override { return conv<A, B>(as<A>(x)); }
	std::any entryCast(std::any const& x) const override { return conv<B, A>(as<B>(x)); }
};

template <typename T> struct MBuffer : MSegC<MBuffer<T>> {
	T v;
	explicit MBuffer(T x = T{}) : v(x) {}
	std::any inject(std::any const& x) override { v = as<T>(x); return v; }
	bool hasExtract() const override { return true; }
	std::any extract() override { return v; }
};

template <typename T> struct MTee : MSegC<MTee<T>> {
	std::vector<MPipe*> to;
	explicit MTee(std::vector<MPipe*> p) : to(p) {}
	std::any inject(std::any const& x) override { for(auto p : to) p->inject(x); return x; }
};

template <typename T> struct MTriggered : MSegC<MTriggered<T>> {
	std::vector<MPipe*> to;
	T v;
	bool changed = false;
	explicit MTriggered(std::vector<MPipe*> p, T x = T{}) : to(p), v(x) {}
	std::any inject(std::any const& x) override { if(!(v == as<T>(x))) changed = true; v = as<T>(x); return v; }
	bool hasExtract() const override { return true; }
	std::any extract() override { return v; }
	bool hasTrigger() const override { return true; }
	std::any trigger(bool& t) override
	{
		t = changed;
		changed = false;
		if(t) for(auto p : to) p->inject(v);
		return v;
	}
};

template <typename T> struct MEvent : MSegC<MEvent<T>> { // logs what is injected
	Env* e;
	std::string name;
	MEvent(Env& env, std::string n) : e(&env), name(n) {}
	std::any inject(std::any const& x) override { e->model.push_back(name + "=" + show_(as<T>(x))); return x; }
};

// What functions do that are called from within a pipe.
template <typename T> T modify(T const& x)
{
	if constexpr(std::is_same<T, std::string>::value) return x.size() > 200 ? x.substr(100) : x + "+";
	else if constexpr(std::is_same<T, bool>::value) return !x;
	else if constexpr(std::is_floating_point<T>::value) return x / 2 - 1;
	else return (T)((uint64_t)x * 3u + 1u);
}
template <typename T> struct MModify : MSegC<MModify<T>> { // modifies upon inject only
	std::any inject(std::any const& x) override { return modify<T>(as<T>(x)); }
};

template <typename T> struct MTransistor : MSegC<MTransistor<T>> {
	MPipe* gate;
	bool inv;
	MTransistor(MPipe& g, bool i) : gate(&g), inv(i) {}
	std::any inject(std::any const& x) override { return as<bool>(gate->extract()) != inv ? as<T>(x) : T{}; }
};

template <typename T> struct MVar { // a variable in a store, of which the contents are followed
	std::function<T()> get;
	std::function<void(T)> set;
};
template <typename T> struct MGet : MSegC<MGet<T>> {
	MVar<T>* v;
	explicit MGet(MVar<T>& x) : v(&x) {}
	std::any inject(std::any const&) override { return v->get(); }
	bool hasExtract() const override { return true; }
	std::any extract() override { return v->get(); }
	std::any exitCast(std::any const&) const override { return T{}; }
	std::any entryCast(std::any const&) const override { return false; }
	bool hasTrigger() const override { return true; }
	std::any trigger(bool& t) override { t = true; return v->get(); }
};
template <typename T> struct MSet : MSegC<MSet<T>> {
	MVar<T>* v;
	explicit MSet(MVar<T>& x) : v(&x) {}
	std::any inject(std::any const& x) override { v->set(as<T>(x)); return x; }
	bool hasExtract() const override { return true; }
	std::any extract() override { return v->get(); }
};

template <typename T> struct MMux : MSegC<MMux<T>> {
	std::vector<MPipe*> from;
	size_t i = 0;
	explicit MMux(std::vector<MPipe*> f) : from(f) {}
	std::any inject(std::any const& x) override { i = from.size() == 1 ? 0 : as<size_t>(x); return extract(); }
	bool hasExtract() const override { return true; }
	std::any extract() override { return i < from.size() ? from[i]->extract() : std::any(T{}); }
	std::any exitCast(std::any const&) const override { return T{}; }
	std::any entryCast(std::any const&) const override { return (size_t)0; }
	bool hasTrigger() const override { return true; }
	std::any trigger(bool& t) override { if(i < from.size()) return from[i]->trigger(t); t = false; return T{}; }
};

// |a-b| <= max(|a|,|b|) / 10^order
template <typename T, unsigned order> struct MSimilar {
	static bool eq(T a, T b)
	{
		if constexpr(std::is_floating_point<T>::value) {
			if(std::isinf(a) || std::isinf(b)) return a == b;
			long double x = a, y = b, m = std::max(fabsl(x), fabsl(y)) / powl(10, order);
			return fabsl(x - y) <= m;
		} else {
			__int128 x = a, y = b, p = 1;
			for(unsigned i = 0; i < order; i++) p *= 10;
			__int128 ax = x < 0 ? -x : x, ay = y < 0 ? -y : y, d = x > y ? x - y : y - x;
			return d * p <= std::max(ax, ay);
		}
	}
	// may be decided by rounding
	static bool close(T a, T b)
	{
		if constexpr(!std::is_floating_point<T>::value) return false;
		else {
			if(std::isinf(a) || std::isinf(b)) return false;
			long double x = a, y = b, m = std::max(fabsl(x), fabsl(y)) / powl(10, order);
			return x != y && fabsl(fabsl(x - y) - m) <= 1e-5L * m;
		}
	}
};
template <typename T> struct MEqual {
	static bool eq(T const& a, T const& b) { return a == b; }
	static bool close(T const&, T const&) { return false; }
};
struct Borderline {}; // the result depends on rounding; end the case

template <typename T, typename Cmp> struct MChanges : MSegC<MChanges<T, Cmp>> {
	MPipe* to;
	T prev;
	explicit MChanges(MPipe& p, T init = T{}) : to(&p), prev(init) {}
	std::any inject(std::any const& x) override
	{
		if(Cmp::close(prev, as<T>(x))) throw Borderline();
		if(!Cmp::eq(prev, as<T>(x))) { prev = as<T>(x); to->inject(x); }
		return x;
	}
};

template <typename T> struct MBounded : MSegC<MBounded<T>> {
	T lo, hi;
	explicit MBounded(T l = std::numeric_limits<T>::lowest(), T h = std::numeric_limits<T>::max()) : lo(l), hi(h) {}
	std::any inject(std::any const& x) override { return exitCast(x); }
	std::any exitCast(std::any const& x) const override { T v = as<T>(x); return v < lo ? lo : v > hi ? hi : v; }
	bool exitPure() const override { return false; }
};

// Custom functions for Constrained and Convert
template <typename T> struct Even { // drops the fraction and the lowest bit
	T operator()(T x) const { if constexpr(std::is_floating_point<T>::value) return std::isinf(x) ? x : std::trunc(x); else return (T)(x & ~(T)1); }
};
template <typename T> struct MEven : MSegC<MEven<T>> {
	std::any inject(std::any const& x) override { return exitCast(x); }
	std::any exitCast(std::any const& x) const override { return Even<T>{}(as<T>(x)); }
};

template <typename T, long n, long d> struct MScale : MSegC<MScale<T, n, d>> {
	std::any inject(std::any const& x) override { return exitCast(x); }
	std::any exitCast(std::any const& x) const override { return (T)((long double)as<T>(x) * n / d); } // n/d is a power of two
	std::any entryCast(std::any const& x) const override { return (T)((long double)as<T>(x) * d / n); }
};

template <typename K, typename V> struct MMapped : MSegC<MMapped<K, V>> {
	std::vector<std::pair<K, V>> m;
	explicit MMapped(std::vector<std::pair<K, V>> x) : m(x) {}
	std::any inject(std::any const& x) override { return exitCast(x); }
	std::any exitCast(std::any const& x) const override { for(auto& e : m) if(e.first == as<K>(x)) return e.second; return m[0].second; }
	std::any entryCast(std::any const& x) const override { for(auto& e : m) if(e.second == as<V>(x)) return e.first; return m[0].first; }
	bool exitPure() const override { return false; }
};

template <typename T> struct MRateLimit : MSegC<MRateLimit<T>> {
	MPipe* to;
	long interval;
	T v;
	bool pending = false, ever = false;
	long last = 0;
	MRateLimit(MPipe& p, long i, T init = T{}) : to(&p), interval(i), v(init) {}
	bool may() const { return !ever || FakeClock::t > last + interval; }
	void forward() { pending = false; ever = true; last = FakeClock::t; to->inject(v); }
	std::any inject(std::any const& x) override
	{
		if(v == as<T>(x)) return x;
		v = as<T>(x);
		if(may()) forward();
		else pending = true;
		return x;
	}
	bool hasTrigger() const override { return true; }
	// A trigger does not start the interval again.
	std::any trigger(bool& t) override { t = pending && may(); if(t) { pending = false; to->inject(v); } return v; }
};

template <typename T> struct MSignal : MSegC<MSignal<T>> {
	Env* e;
	std::string name;
	MSignal(Env& env, std::string n) : e(&env), name(n) {}
	std::any inject(std::any const& x) override { return exitCast(x); }
	std::any exitCast(std::any const& x) const override { e->model.push_back(name + "=" + show_(as<T>(x))); return x; }
	bool exitPure() const override { return false; }
};

// ---------------------------------------------------------------- pipes to connect to

template <typename T> auto makeSink(Env& e, std::string name)
{
	return sp::Entry<T>{} >> sp::Call<T, void(T const&)>{[&e, name](T const& x) { e.real.push_back(name + "=" + show_(x)); }} >> sp::Buffer<T>{} >> sp::Exit{};
}
template <typename T> struct Sink {
	decltype(makeSink<T>(std::declval<Env&>(), "")) real;
	MPipe model;
	Sink(Env& e, std::string name) : real(makeSink<T>(e, name)) { model.open = true; model.add(new MEvent<T>(e, name)).add(new MBuffer<T>()); }
};

// Something to read from, that may be triggered.
template <typename T> auto makeSource(sp::PipeEntry<T>& p, T x) { return sp::Entry<T>{} >> sp::Triggered<T>{x, p} >> sp::Exit{}; }
template <typename T> struct Source {
	Sink<T> sink;
	decltype(makeSource<T>(std::declval<sp::PipeEntry<T>&>(), T{})) real;
	MPipe model;
	Source(Env& e, std::string name, T x) : sink(e, name), real(makeSource<T>(sink.real, x))
	{
		model.open = true;
		model.add(new MTriggered<T>({&sink.model}, x));
		e.mutate.push_back([this, &e] { T y = gen<T>(e.r); real.inject(y); model.inject(y); });
	}
};

struct Gate {
	decltype(sp::Entry<bool>{} >> sp::Buffer<bool>{} >> sp::Exit{}) real;
	MPipe model;
	explicit Gate(Env& e, bool x) : real(sp::Entry<bool>{} >> sp::Buffer<bool>{x} >> sp::Exit{})
	{
		model.add(new MBuffer<bool>(x));
		e.mutate.push_back([this, &e] { bool y = e.r.flip(); real.inject(y); model.inject(y); });
	}
};

// ---------------------------------------------------------------- driver

// Destinations, in order; each may connect to a later one.
template <typename T> struct Dests {
	std::vector<std::unique_ptr<Sink<T>>> d;
	explicit Dests(Env& e) { for(int i = 0; i < 3; i++) d.emplace_back(new Sink<T>(e, "dest" + std::to_string(i))); }
	int index(MPipe* m) { for(int i = 0; i < 3; i++) if(m == &d[(size_t)i]->model) return i; return 3; }
};

template <typename P> void drive(Env& e, P& pipe, MPipe& model, Dests<typename P::type_out>& dests, int ops, bool nested = false)
{
	using In = typename P::type_in;
	using Out = typename P::type_out;
	Rng& r = e.r;
	auto same = [&](char const* op, Out const& x, std::any const& y) {
		std::string a = show_(x), b = show_(as<Out>(y));
		if(a != b) e.fail("result of " + std::string(op), fmt("%s results in %s instead of %s", op, a.c_str(), b.c_str()));
	};
	for(int i = 0; i < ops && !e.bad; i++) {
		switch(r.below(14)) {
		case 0: case 1: case 2: case 3: { // inject
			In x = gen<In>(r);
			e.trace += "inject " + show_(x) + "; ";
			std::any m = model.inject(x);
			switch(r.below(7)) {
			case 0: { auto v = pipe.inject(x); same("inject", v, m); auto w = std::move(v); same("inject", w.get(), m); } break;
			case 1: same("inject", x >> pipe, m); break;
			case 2: same("inject", pipe << x, m); break;
			case 3: same("inject", pipe(x), m); break;
			case 4: static_cast<sp::PipeEntry<In>&>(pipe).inject(x); break;
			case 5: x >> static_cast<sp::PipeEntry<In>&>(pipe); break;
			default: { Out o{}; static_cast<sp::Pipe<In, Out>&>(pipe).inject(x).move(o); same("inject", o, m); }
			}
			e.check("inject");
			break;
		}
		case 4: case 5: case 6: { // extract
			std::any m;
			if(model.hasExtract()) m = model.extract();
			else if(model.exitPure()) m = Out{};
			else break;
			e.trace += "extract; ";
			switch(r.below(4)) {
			case 0: { Out o{}; pipe >> o; same("extract", o, m); } break;
			case 1: { Out o{}; o << pipe; same("extract", o, m); } break;
			case 2: {
				auto v = static_cast<sp::PipeExit<Out>&>(pipe).extract();
				auto w = std::move(v);
				same("extract", w, m);
				if constexpr(!std::is_floating_point<Out>::value)
					if(!(w == as<Out>(m)) || w != as<Out>(m) || !(as<Out>(m) == w) || w < as<Out>(m) || as<Out>(m) > w || !(w >= as<Out>(m))) e.fail("comparison", "comparing an extracted value");
				Out o{};
				same("extract", std::move(w).move(o), m);
				break;
			}
			default: { Out o = pipe.extract(); same("extract", o, m); }
			}
			e.check("extract");
			break;
		}
		case 7: case 8: { // trigger
			e.trace += "trigger; ";
			bool t = false, mt = false, had = true;
			std::any m = model.trigger(mt);
			switch(r.below(4)) {
			case 0: pipe.trigger(&t); break;
			case 1: { Out o{}; pipe.trigger(&t, o); if(mt && t) same("trigger", o, m); } break;
			case 2: static_cast<sp::PipeBase&>(pipe).trigger(&t); break;
			default: pipe.trigger(); had = false;
			}
			if(had && t != mt) e.fail("triggered", fmt("trigger() tells %d instead of %d", (int)t, (int)mt));
			if(mt) count("effective triggers");
			e.check("trigger");
			break;
		}
		case 9: if(model.open) { // connections
			size_t k = (size_t)r.below(3);
			auto& d = *dests.d[k];
			switch(r.below(5)) {
			case 0: case 1: e.trace += fmt("connect %zu; ", k); model.connect(d.model); if(r.flip()) pipe.connect(d.real); else pipe >> d.real; e.check("connect"); break;
			case 2: e.trace += "disconnect; "; model.fwd = nullptr; pipe.disconnect(); e.check("disconnect"); break;
			case 3: { // p -> c becomes p -> d -> c
				if(model.fwd && dests.index(model.fwd) <= (int)k) break;
				e.trace += fmt("extend %zu; ", k);
				MPipe* c = model.fwd;
				d.model.fwd = nullptr;
				if(c) d.model.connect(*c);
				model.connect(d.model);
				pipe.extend(d.real);
				e.check("extend");
				break;
			}
			default: if(k < 2) { e.trace += fmt("chain %zu; ", k); d.model.connect(dests.d[k + 1]->model); d.real >> dests.d[k + 1]->real; e.check("connect"); }
			}
			if(pipe.connected() != !!model.fwd || (model.fwd && pipe.connection() != static_cast<sp::PipeEntry<Out>*>(&dests.d[(size_t)dests.index(model.fwd)]->real))) e.fail("connection", "connection() is wrong");
			break;
		}
			break;
		case 10: // something around it changes
			if(e.mutate.empty()) break;
			e.trace += "change; ";
			e.mutate[(size_t)r.below(e.mutate.size())]();
			e.check("change");
			break;
		case 11: { // casts have no state
			if(!model.exitPure() && r.flip()) break;
			In x = gen<In>(r);
			e.trace += "exit_cast " + show_(x) + "; ";
			std::any m = model.exitCast(x);
			same("exit_cast", pipe.exit_cast(x), m);
			e.check("exit_cast");
			Out y = gen<Out>(r);
			std::any n = model.entryCast(y);
			e.trace += "entry_cast " + show_(y) + "; ";
			std::string a = show_<In>(pipe.entry_cast(y)), b = show_(as<In>(n));
			if(a != b) e.fail("result of entry_cast", fmt("entry_cast() results in %s instead of %s", a.c_str(), b.c_str()));
			e.check("entry_cast");
			break;
		}
		case 12: if(!nested) { // a copy is independent
			e.trace += "copy{ ";
			if constexpr(std::is_copy_constructible<P>::value) {
				P copy = pipe;
				MPipe m(model);
				drive(e, copy, m, dests, (int)r.range(1, 6), true);
				count("copies of pipes");
			}
			e.trace += "} ";
		}
			break;
		default: if(!nested) { // what it is moved to continues
			e.trace += "move{ ";
			P moved = std::move(pipe);
			drive(e, moved, model, dests, (int)r.range(1, 4), true);
			pipe = std::move(moved);
			count("moved pipes");
			e.trace += "} ";
		}
		}
		FakeClock::t += r.flip() ? 0 : 2 * (long)r.below(60);
	}
}

// Drives a pipe that is owned by a group.
template <typename P> void driveRef(Env& e, sp::Group& g, P& pipe, MPipe& model, Dests<typename P::type_out>& dests, int ops)
{
	struct Guard { // upon Borderline
		sp::Group& g;
		~Guard() { g.destroy(); }
	} guard{g};
	bool in = false;
	for(auto* p : g) if(p == &pipe) in = true;
	if(!in || g.size() != 1 || g.pipes().size() != 1) e.fail("group", "the pipe is not in its group");
	drive(e, pipe, model, dests, ops);
	bool t = true, mt = false;
	model.trigger(mt);
	g.trigger(&t);
	if(t != mt) e.fail("group", "Group::trigger() tells the wrong result");
	e.check("group trigger");
	if(e.r.flip()) g.destroy(pipe);
	else if(e.r.flip()) g.destroy();
	else if(e.r.flip()) { g.clear(); delete static_cast<sp::PipeBase*>(&pipe); }
	else { g.remove(pipe); g.add({pipe}); g.destroy(); }
	if(g.size() || g.begin() != g.end()) e.fail("group", "the group is not empty");
}

// ---------------------------------------------------------------- store

#include "PipeStore.h"
class PipeStore : public STORE_T(PipeStore, stored::PipeStoreBase) {
	STORE_CLASS(PipeStore, stored::PipeStoreBase)
public:
	PipeStore() = default;
	Env* e = nullptr;
	int32_t fiv = 3;
	double fdv = 4;
	void __fi(bool set, int32_t& x)
	{
		if(set) fiv = x;
		else x = fiv;
		if(e) e->real.push_back("fi " + std::string(set ? "set " : "get ") + show_(fiv));
	}
	void __fd(bool set, double& x)
	{
		if(set) fdv = x;
		else x = fdv;
		if(e) e->real.push_back("fd " + std::string(set ? "set " : "get ") + show_(fdv));
	}
};

struct Vars {
	PipeStore store;
	int32_t mi = 0, mfi = 3;
	double md = 1.5, mfd = 4;
	bool mb = false;
	uint8_t mu = 3;
	MVar<int32_t> i, fi;
	MVar<double> d, fd;
	MVar<bool> b;
	MVar<uint8_t> u;
	template <typename T> void bind(MVar<T>& v, T& x) { v.get = [&x] { return x; }; v.set = [&x](T y) { x = y; }; }
	template <typename T> void bindF(Env& e, MVar<T>& v, T& x, std::string n)
	{
		v.get = [&x, &e, n] { e.model.push_back(n + " get " + show_(x)); return x; };
		v.set = [&x, &e, n](T y) { x = y; e.model.push_back(n + " set " + show_(x)); };
	}
	explicit Vars(Env& e)
	{
		store.e = &e;
		bind(i, mi); bind(d, md); bind(b, mb); bind(u, mu);
		bindF(e, fi, mfi, "fi"); bindF(e, fd, mfd, "fd");
		e.mutate.push_back([this, &e] { store.i = mi = gen<int32_t>(e.r); });
		e.mutate.push_back([this, &e] { store.d = md = gen<double>(e.r); });
		e.mutate.push_back([this, &e] { store.b = mb = e.r.flip(); store.u = mu = gen<uint8_t>(e.r); });
		e.mutate.push_back([this, &e] { store.fiv = mfi = gen<int32_t>(e.r); store.fdv = mfd = gen<double>(e.r); });
		e.checks.push_back([this, &e] {
			if(store.i.get() != mi || show_<double>(store.d.get()) != show_(md) || (bool)store.b.get() != mb || store.u.get() != mu || store.fiv != mfi || show_(store.fdv) != show_(mfd))
				e.fail("store", fmt("the store contains %d %g %d %d %d %g instead of %d %g %d %d %d %g", (int)store.i.get(), (double)store.d.get(), (int)store.b.get(), (int)store.u.get(), (int)store.fiv, store.fdv, (int)mi, md, (int)mb, (int)mu, (int)mfi, mfd));
		});
	}
};
#endif
