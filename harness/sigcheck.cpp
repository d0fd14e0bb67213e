// C22: signals call exactly the connected slots that match.
#include "common.h"
#include "SStore.h"
#include <libstored/signal.h>
#include <memory>
#include <optional>
using namespace vf;

// ---------------------------------------------------------------- bare signals

struct Thrown {};

// What the slots report into; one per case.
struct Log {
	std::map<int, int> calls; // connection id -> number of calls
	std::map<std::string, int> copies; // signal copies have their own functor state
	std::string badArgs;
	std::string expArgs; // printed form of the arguments
	int throwAt = -1; // -1: do not throw; otherwise throw upon n-th call
	std::function<void()> nested;
	std::map<int, int> wanted; // expected calls of the running call
};
static Log* L;

static std::string str(int x) { return fmt("%d", x); }
static std::string str(std::string const& x) { return "'" + x + "'"; }
static std::string str(double x) { return fmt("%a", x); }
template <typename... A>
static std::string args(A const&... a)
{
	std::string s;
	(void)std::initializer_list<int>{(s += str(a) + ",", 0)...};
	return s;
}

static void invoked(int id, std::string const& a)
{
	L->calls[id]++;
	if(a != L->expArgs && L->badArgs.empty()) L->badArgs = fmt("slot %d got ", id) + a + " instead of " + L->expArgs;
	if(L->throwAt >= 0 && L->throwAt-- == 0) throw Thrown();
	if(L->nested) {
		auto n = L->nested;
		L->nested = nullptr;
		n();
	}
}

template <typename... A>
struct Slot {
	int id;
	Slot(int i) : id(i) {}
	void operator()(A... a) const { invoked(id, args(a...)); }
};
template <size_t N, typename... A>
struct BigSlot {
	int id;
	unsigned char pad[N];
	BigSlot(int i) : id(i) { memset(pad, i & 0xff, N); }
	void operator()(A... a) const
	{
		for(size_t i = 0; i < N; i++)
			if(pad[i] != (unsigned char)(id & 0xff)) {
				L->badArgs = fmt("functor of slot %d is damaged", id);
				break;
			}
		invoked(id, args(a...));
	}
};
template <typename... A> struct FnSlot { static void f(A... a) { invoked(-2, args(a...)); } static void g(A... a) { invoked(-3, args(a...)); } };

// A slot that modifies or consumes its arguments; others must not notice.
static void spoil(int& x) { x = -77; }
static void spoil(std::string& x) { std::string y(std::move(x)); x = "spoilt by another slot"; }
static void spoil(double& x) { x = -77.5; }

template <typename K> K keyOf(int i);
template <> int keyOf<int>(int i) { static int const k[] = {0, 1, 2, -2, 1000000, INT32_MIN, INT32_MAX, 3}; return k[i]; }
template <> uint8_t keyOf<uint8_t>(int i) { static uint8_t const k[] = {0, 1, 2, 254, 127, 128, 7, 9}; return k[i]; }
static char const keys[16] = {};
template <> void* keyOf<void*>(int i) { return (void*)(keys + i); }
template <> char const* keyOf<char const*>(int i) { return keys + i; }
enum class E { none, a, b, c, d, e, f, g, h };
template <> E keyOf<E>(int i) { return (E)(i + 1); }
template <> uint64_t keyOf<uint64_t>(int i) { return i < 4 ? (uint64_t)i : (uint64_t)i << 32; }

template <typename T> T tokenOf(int i);
template <> void* tokenOf<void*>(int i) { return i ? (void*)(keys + i) : nullptr; }
template <> int tokenOf<int>(int i) { return i; }
template <> int8_t tokenOf<int8_t>(int i) { return (int8_t)-i; }
template <> E tokenOf<E>(int i) { return (E)i; }

template <typename T> struct Val;
template <> struct Val<int> { static int make(Rng& r) { return (int)r.below(1000); } };
template <> struct Val<std::string> { static std::string make(Rng& r) { return std::string((size_t)r.below(40), (char)('a' + r.below(26))); } };
template <> struct Val<double> { static double make(Rng& r) { return (double)r.below(1000) / 8; } };

static void fail(char const* what, std::string const& m) { violation(what, m); }

template <typename K, typename T, typename... A>
struct Bare {
	typedef stored::Signal<K, T, A...> S;
	struct Conn { int key; int token; int id; }; // key -1: no key
	struct Sig { std::unique_ptr<S> s; std::vector<Conn> m; };
	Rng& r;
	std::vector<Sig> sigs;
	std::vector<std::unique_ptr<Slot<A...>>> lvalues; // kept by reference by the signal
	int nextId = 1;
	std::string trace;

	Bare(Rng& r_) : r(r_) {}

	void connect(Sig& g)
	{
		int key = r.chance(1, 5) ? -1 : (int)r.below(8), token = (int)r.below(4), id = nextId++;
		auto go = [&](auto&& f) {
			typedef decltype(f) F;
			if(key < 0) {
				if(token) g.s->connect(std::forward<F>(f), tokenOf<T>(token));
				else g.s->connect(std::forward<F>(f));
			} else if(token) g.s->connect(keyOf<K>(key), std::forward<F>(f), tokenOf<T>(token));
			else g.s->connect(keyOf<K>(key), std::forward<F>(f));
		};
		int kind = (int)r.below(9);
		switch(kind) {
		case 0: go(Slot<A...>(id)); break;
		case 1: go(BigSlot<13, A...>(id)); break;
		case 2: go(BigSlot<200, A...>(id)); break;
		case 3: lvalues.emplace_back(new Slot<A...>(id)); go(*lvalues.back()); break;
		case 4: go(std::function<void(A...)>([id](A... a) { invoked(id, args(a...)); })); break;
		case 5: go([id](A... a) { std::string s = args(a...); (void)std::initializer_list<int>{(spoil(a), 0)...}; invoked(id, s); }); break;
		case 6: id = -2; go(&FnSlot<A...>::f); break;
		case 7: id = -3; go(&FnSlot<A...>::g); break;
		default: go([id](A const&... a) { invoked(id, args(a...)); }); break;
		}
		g.m.push_back({key, token, id});
		trace += fmt("+%d/%d:%d ", key, token, kind);
		count("connects");
	}

	template <typename... X>
	void call_(Sig& g, int key, int how, X... x)
	{
		Log l;
		Log* outer = L;
		L = &l;
		l.expArgs = args(x...);
		size_t total = 0;
		for(auto& c : g.m)
			if(key < 0 || c.key == key) { l.wanted[c.id]++; total++; }
		if(total && r.chance(1, 8)) l.throwAt = (int)r.below(total);
		if(!outer && r.chance(1, 6)) l.nested = [&] { call(r.pick(sigs)); };
		int throwAt = l.throwAt;
		bool thrown = false;
		try {
			if(key < 0) {
				if(how & 1) g.s->call(x...);
				else (*g.s)(x...);
			} else if(how & 1) g.s->call(keyOf<K>(key), x...);
			else (*g.s)(keyOf<K>(key), x...);
		} catch(Thrown const&) {
			thrown = true;
		}
		L = outer;
		count(outer ? "nested calls" : key < 0 ? "calls without key" : "calls with key");
		count("slot invocations", total);
		countMax("most slots in one call", total);
		if(thrown) count("calls that were ended by an exception");
		trace += fmt("!%d:%zu ", key, total);
		if(!l.badArgs.empty()) return fail("argument", l.badArgs + " | " + trace);
		if(thrown != (throwAt >= 0)) return fail("exception", "the exception of a slot was " + std::string(thrown ? "invented" : "lost") + " | " + trace);
		if(thrown) { // a part is called, but never too often
			int n = 0;
			for(auto& c : l.calls) {
				n += c.second;
				if(c.second > l.wanted[c.first]) return fail("calls", fmt("slot %d called %d times instead of at most %d | ", c.first, c.second, l.wanted[c.first]) + trace);
			}
			if(n != throwAt + 1) return fail("calls", fmt("%d slots are called with an exception in number %d | ", n, throwAt) + trace);
			return;
		}
		if(l.calls != l.wanted) {
			std::string s;
			for(auto& c : l.wanted) if(l.calls[c.first] != c.second) s += fmt(" slot %d called %d times instead of %d;", c.first, l.calls[c.first], c.second);
			for(auto& c : l.calls) if(c.second && !l.wanted.count(c.first)) s += fmt(" slot %d called, which is not connected with this key;", c.first);
			fail("calls", fmt("call with key %d:", key) + s + " | " + trace);
		}
	}
	void call(Sig& g) { call_(g, r.chance(1, 4) ? -1 : (int)r.below(8), (int)r.below(2), Val<A>::make(r)...); }

	void check(Sig& g)
	{
		if(g.s->connected() != !g.m.empty()) fail("connected", fmt("connected() gives %d with %zu connections | ", (int)g.s->connected(), g.m.size()) + trace);
		int k = (int)r.below(8);
		bool e = false;
		for(auto& c : g.m) e = e || c.key == k;
		if(g.s->connected(keyOf<K>(k)) != e) fail("connected", fmt("connected(%d) gives %d | ", k, (int)!e) + trace);
	}

	void run()
	{
		sigs.reserve(6);
		sigs.push_back({std::unique_ptr<S>(new S()), {}});
		for(int i = 0, n = (int)r.range(5, 80); i < n && !ctx().caseViolated; i++) {
			auto& g = r.pick(sigs);
			switch(r.below(16)) {
			case 0: case 1: case 2: case 3: connect(g); break;
			case 4: case 5: case 6: case 7: case 8: call(g); break;
			case 9: case 10: { // also those that were connected without a token
				int k = (int)r.below(8), t = (int)r.below(4);
				g.s->disconnect(keyOf<K>(k), tokenOf<T>(t));
				size_t b = g.m.size();
				for(size_t j = 0; j < g.m.size();) if(g.m[j].key == k && g.m[j].token == t) g.m.erase(g.m.begin() + (long)j); else j++;
				trace += fmt("-%d/%d:%zu ", k, t, b - g.m.size());
				count("connections ended by token", b - g.m.size());
				break;
			}
			case 11: {
				int k = (int)r.below(8);
				g.s->disconnect(keyOf<K>(k));
				size_t b = g.m.size();
				for(size_t j = 0; j < g.m.size();) if(g.m[j].key == k) g.m.erase(g.m.begin() + (long)j); else j++;
				trace += fmt("-%d:%zu ", k, b - g.m.size());
				count("connections ended by key", b - g.m.size());
				break;
			}
			case 12: if(r.chance(1, 3)) {
				g.s->disconnect();
				count("connections ended all at once", g.m.size());
				g.m.clear();
				trace += "-* ";
			} else {
				g.s->reserve((size_t)r.below(100));
				trace += "r ";
			}
			break;
			case 13: if(sigs.size() < 5) { // new, or a copy
				if(r.chance(1, 3)) {
					sigs.push_back({std::unique_ptr<S>(r.flip() ? new S() : new S((size_t)r.below(50))), {}});
					trace += "new ";
				} else {
					size_t j = (size_t)r.below(sigs.size());
					sigs.push_back({std::unique_ptr<S>(new S(*sigs[j].s)), sigs[j].m});
					trace += "copy ";
					count("copies");
				}
			}
			break;
			case 14: { // assign
				size_t a = (size_t)r.below(sigs.size()), b = (size_t)r.below(sigs.size());
				if(r.flip()) {
					S const& from = *sigs[b].s;
					*sigs[a].s = from;
					auto m = sigs[b].m;
					sigs[a].m = m;
					trace += a == b ? "self " : "assign ";
					count("copies");
				} else if(a != b) {
					*sigs[a].s = std::move(*sigs[b].s);
					sigs[a].m = sigs[b].m;
					sigs[b] = {std::unique_ptr<S>(new S()), {}};
					trace += "move ";
					count("moves");
				}
				break;
			}
			default: if(sigs.size() > 1) {
				sigs.erase(sigs.begin() + (long)r.below(sigs.size()));
				trace += "destroy ";
				count("signals destroyed");
			} else connect(g);
			}
			for(auto& x : sigs) check(x);
		}
		for(auto& x : sigs) if(!ctx().caseViolated) call_(x, -1, 1, Val<A>::make(r)...);
		sig(trace);
		if(ctx().caseNo < 10) sample(trace);
	}
};

// ---------------------------------------------------------------- a store with signals

class Store : public STORE_T(Store, stored::SStoreDefaultFunctions, stored::Signalling, stored::SStoreBase) {
	STORE_CLASS(Store, stored::SStoreDefaultFunctions, stored::Signalling, stored::SStoreBase)
public:
	Store() = default;
};

struct VarIf {
	char const* name;
	std::function<void(std::function<void()>, void*)> connect; // token nullptr: none
	std::function<void(void*)> disconnect;
	std::function<void(int)> write; // by the member
};

template <typename V> static VarIf num(char const* name, Store& s, V& v)
{
	return {name, [&](std::function<void()> f, void* t) { if(t) s.connect(v, std::move(f), t); else s.connect(v, std::move(f)); },
		[&](void* t) { if(t) s.disconnect(v, t); else s.disconnect(v); },
		[&](int x) { v.set((decltype(v.get()))x); }};
}
template <typename V> static VarIf buf(char const* name, Store& s, V& v, bool str)
{
	return {name, [&](std::function<void()> f, void* t) { if(t) s.connect(v, std::move(f), t); else s.connect(v, std::move(f)); },
		[&](void* t) { if(t) s.disconnect(v, t); else s.disconnect(v); },
		[&v, str](int x) {
			if(str) { std::string y((size_t)(x % 4), (char)('a' + x % 3)); v.set(y.c_str(), y.size()); }
			else { char b[10]; memset(b, x, sizeof(b)); v.set(b, v.size() < 10 ? v.size() : 10); }
		}};
}

static void store(Rng& r)
{
	std::vector<std::unique_ptr<Store>> ss;
	int nStores = (int)r.range(1, 2);
	struct Conn { size_t var; int token; int id; };
	struct Sv { std::vector<VarIf> v; std::vector<Conn> m; };
	std::vector<Sv> svs;
	for(int i = 0; i < nStores; i++) {
		ss.emplace_back(new Store());
		Store& s = *ss.back();
		svs.push_back({{num("/a", s, s.a), num("/b", s, s.b), buf("/s", s, s.s, true), buf("/blo", s, s.blo, false), num("/arr[0]", s, s.arr_0), num("/arr[1]", s, s.arr_1),
			num("/arr[2]", s, s.arr_2), num("/arr[3]", s, s.arr_3), num("/sc/x", s, s.sc__x), num("/sc/y", s, s.sc__y), num("/flag", s, s.flag)}, {}});
	}
	std::map<int, int> called;
	int id = 0;
	static char tok[4];
	std::string trace = "store: ";
	std::function<void(int)> nested;
	auto bytes = [&](Store& s, char const* name) {
		auto v = s.find(name);
		std::string b(v.size() + 1, 0);
		size_t n = v.get(&b[0], v.size());
		b.resize(n);
		return b;
	};
	// Which connections (ids) are called by which writes.
	auto write = [&](size_t si, size_t vi, int x, int how) {
		Store& s = *ss[si];
		auto& v = svs[si].v[vi];
		std::string b0 = bytes(s, v.name);
		if(how == 0) v.write(x);
		else {
			auto o = s.find(v.name);
			if(stored::Type::isFixed(o.type())) {
				std::string b((size_t)o.size(), 0);
				for(auto& c : b) c = (char)(o.type() == stored::Type::Bool ? x & 1 : x);
				o.set(b.data(), b.size());
			} else {
				std::string b((size_t)r.below(o.size()), (char)('a' + x % 4));
				o.set(b.data(), b.size());
			}
		}
		return b0 != bytes(s, v.name);
	};
	for(int i = 0, n = (int)r.range(5, 80); i < n && !ctx().caseViolated; i++) {
		size_t si = (size_t)r.below((uint64_t)nStores), vi = (size_t)r.below(svs[si].v.size());
		auto& sv = svs[si];
		switch(r.below(8)) {
		case 0: case 1: {
			int t = (int)r.below(4), me = ++id;
			bool nest = r.chance(1, 8);
			sv.v[vi].connect([&called, &nested, &bytes, me, nest, s = ss[si].get(), name = sv.v[vi].name] {
				called[me]++;
				if(me & 1) bytes(*s, name); // a slot can access the store

				if(nest && nested) nested(me);
			}, t ? tok + t : nullptr);
			sv.m.push_back({vi, t, me});
			trace += fmt("+%zu.%zu/%d ", si, vi, t);
			count("connects to variables");
			break;
		}
		case 2: {
			int t = (int)r.below(4);
			sv.v[vi].disconnect(t ? tok + t : nullptr);
			for(size_t j = 0; j < sv.m.size();) if(sv.m[j].var == vi && sv.m[j].token == t) sv.m.erase(sv.m.begin() + (long)j); else j++;
			trace += fmt("-%zu.%zu/%d ", si, vi, t);
			break;
		}
		default: {
			called.clear();
			int x = (int)r.below(3);
			int how = (int)r.below(2);
			// A slot may write another variable.
			std::map<int, int> wanted;
			bool used = false;
			size_t si2 = (size_t)r.below((uint64_t)nStores), vi2 = (size_t)r.below(svs[si2].v.size());
			int x2 = (int)r.below(3);
			nested = [&](int) {
				if(used || (si2 == si && vi2 == vi)) return;
				used = true;
				if(write(si2, vi2, x2, 0))
					for(auto& c : svs[si2].m) if(c.var == vi2) wanted[c.id]++;
				count("nested writes");
			};
			bool changed = write(si, vi, x, how);
			nested = nullptr;
			if(changed) for(auto& c : sv.m) if(c.var == vi) wanted[c.id]++;
			trace += fmt("%zu.%zu%c ", si, vi, changed ? '!' : '=');
			count(changed ? "changes" : "writes without change");
			for(auto& w : wanted) count("variable slot invocations", (uint64_t)w.second);
			if(called != wanted) {
				std::string m;
				for(auto& c : called) m += fmt(" slot %d called %d times instead of %d;", c.first, c.second, wanted.count(c.first) ? wanted[c.first] : 0);
				for(auto& c : wanted) if(!called.count(c.first)) m += fmt(" slot %d not called;", c.first);
				fail("signalling", std::string(changed ? "change of " : "write without change of ") + sv.v[vi].name + ":" + m + " | " + trace);
			}
		}
		}
	}
	sig(trace);
}

int main(int argc, char** argv)
{
	return runMain(argc, argv, [](Rng& r) {
		switch(r.below(9)) {
		case 0: Bare<void*, void*>(r).run(); break;
		case 1: Bare<int, int, int>(r).run(); break;
		case 2: Bare<uint8_t, void*, std::string>(r).run(); break;
		case 3: Bare<E, int8_t, int, std::string>(r).run(); break;
		case 4: Bare<uint64_t, E, double>(r).run(); break;
		case 5: Bare<char const*, int, std::string, int, double>(r).run(); break;
		default: store(r);
		}
	});
}
