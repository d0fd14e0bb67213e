// C21: the ledger of the configured allocator, allocation failures, and the balance of Callable.
#include "common.h"
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <stored>
#include <libstored/components.h>
#include <libstored/fifo.h>
#include <libstored/pipes.h>
#include <libstored/poller.h>
#include <libstored/signal.h>
#include <libstored/spm.h>
#include <libstored/synchronizer.h>
#include <libstored/compress.h>
#include <libstored/debugger.h>
#include "AStore.h"
#include <execinfo.h>
#include <exception>
using namespace vf;

// ---------------------------------------------------------------- ledger

static int lib;              // > 0 while within the library
static int64_t failIn = -1;  // allocations till a failure
static uint64_t failed, bypass, allocs;
static void* bypassAt[12];
static int bypassN;
static char const* badFree;
static size_t badInfo[4];

struct Rec { size_t bytes, elem, align; };
template <typename T>
struct RawAlloc { // independent of operator new
	using value_type = T;
	RawAlloc() noexcept {}
	template <typename U>
	RawAlloc(RawAlloc<U> const&) noexcept
	{}
	T* allocate(size_t n);
	void deallocate(T* p, size_t) noexcept;
	bool operator==(RawAlloc const&) const noexcept { return true; }
	bool operator!=(RawAlloc const&) const noexcept { return false; }
};
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __real_calloc(size_t, size_t);
template <typename T>
T* RawAlloc<T>::allocate(size_t n) { return static_cast<T*>(__real_malloc(n * sizeof(T))); }
template <typename T>
void RawAlloc<T>::deallocate(T* p, size_t) noexcept { __real_free(p); }
typedef std::map<void*, Rec, std::less<void*>, RawAlloc<std::pair<void* const, Rec>>> Ledger;
static Ledger& ledger()
{
	static Ledger l;
	return l;
}

struct Lib {
	Lib() { lib++; }
	~Lib() { lib--; }
};
struct Out { // harness code that is called by the library
	int l;
	Out() : l(lib) { lib = 0; }
	~Out() { lib = l; }
};

void* vfAllocate(size_t bytes, size_t elem, size_t align)
{
	allocs++;
	if(lib && failIn >= 0 && failIn-- == 0) {
		failed++;
		throw std::bad_alloc();
	}
	void* p = nullptr;
	if(align > 16) p = aligned_alloc(align, (bytes + align - 1) / align * align);
	else p = __real_malloc(bytes ? bytes : 1);
	if(!p) harnessError("out of memory");
	ledger()[p] = Rec{bytes, elem, align};
	return p;
}

static void bad(char const* what, size_t a = 0, size_t b = 0, size_t c = 0, size_t d = 0) noexcept
{
	if(badFree) return;
	badFree = what;
	badInfo[0] = a; badInfo[1] = b; badInfo[2] = c; badInfo[3] = d;
}

void vfDeallocate(void* p, size_t bytes, size_t elem, size_t align) noexcept
{
	auto it = ledger().find(p);
	if(it == ledger().end()) {
		bad(p ? "dealloc-unknown" : "dealloc-null");
		return; // never pass it on
	}
	if(it->second.bytes != bytes || it->second.elem != elem || it->second.align != align)
		bad("dealloc-mismatch", it->second.bytes, bytes, it->second.elem, elem);
	ledger().erase(it);
	__real_free(p);
}

static void noteBypass()
{
	if(!lib) return;
	Out out;
	if(!bypass++) bypassN = backtrace(bypassAt, 12);
}

extern "C" void* __wrap_malloc(size_t n) { noteBypass(); return __real_malloc(n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { noteBypass(); return __real_realloc(p, n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { noteBypass(); return __real_calloc(a, b); }
extern "C" void __wrap_free(void* p) { __real_free(p); }
// the allocations of the heatshrink library are its own
extern "C" void* __real_heatshrink_encoder_alloc(uint8_t, uint8_t);
extern "C" void* __real_heatshrink_decoder_alloc(uint16_t, uint8_t, uint8_t);
static uint64_t hsAllocs, hsFrees;
extern "C" void* __wrap_heatshrink_encoder_alloc(uint8_t a, uint8_t b) { Out out; hsAllocs++; return __real_heatshrink_encoder_alloc(a, b); }
extern "C" void* __wrap_heatshrink_decoder_alloc(uint16_t a, uint8_t b, uint8_t c) { Out out; hsAllocs++; return __real_heatshrink_decoder_alloc(a, b, c); }
extern "C" void __real_heatshrink_encoder_free(void*);
extern "C" void __real_heatshrink_decoder_free(void*);
extern "C" void __wrap_heatshrink_encoder_free(void* p) { hsFrees++; __real_heatshrink_encoder_free(p); }
extern "C" void __wrap_heatshrink_decoder_free(void* p) { hsFrees++; __real_heatshrink_decoder_free(p); }

void* operator new(size_t n)
{
	noteBypass();
	void* p = __real_malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { noteBypass(); return __real_malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { noteBypass(); return __real_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { noteBypass(); return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void operator delete(void* p) noexcept { __real_free(p); }
void operator delete[](void* p) noexcept { __real_free(p); }
void operator delete(void* p, size_t) noexcept { __real_free(p); }
void operator delete[](void* p, size_t) noexcept { __real_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __real_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __real_free(p); }

static std::string what; // the operation at hand
static char const* workload = "";

template <typename F>
static bool run(char const* op, F&& f) // returns false upon a failed allocation
{
	what = op;
	VERBOSE("  %s%s\n", op, failIn >= 0 ? fmt(" (fail in %d)", (int)failIn).c_str() : "");
	uint64_t failed0 = failed;
	try {
		{
			Lib l;
			f();
		}
		count(std::string("op:") + op);
		if(failed != failed0)
			// Swallowed. That may be fine, but it must be an error in that case; the models check.
			count(std::string("failure without exception:") + op);
		return true;
	} catch(std::bad_alloc const&) {
		if(failed == failed0) {
			lib = 0;
			violation(fmt("%s: bad_alloc without a failed allocation", workload), op);
		} else
			count(std::string("failed:") + op);
		return false;
	}
}

// ---------------------------------------------------------------- Callable

static std::map<void const*, int>* live; // functors and their values
static int64_t copyFailIn = -1;
static uint64_t copyFailed;
struct CopyFailed {};

static void reg(void const* p, int v)
{
	Out o;
	if(live->count(p)) violation("callable: functor constructed over a live one", what);
	(*live)[p] = v;
}
static void unreg(void const* p)
{
	Out o;
	if(!live->erase(p)) violation("callable: functor destroyed that is not alive", what);
}
static int valueOf(void const* p)
{
	Out o;
	auto it = live->find(p);
	if(it == live->end()) {
		violation("callable: dead functor used", what);
		return -1;
	}
	return it->second;
}

template <size_t Size>
struct Functor {
	char pad[Size];
	int v;
	explicit Functor(int x) : v(x) { memset(pad, 0x40, Size); reg(this, v); }
	Functor(Functor const& f) : v(valueOf(&f))
	{
		memset(pad, 0x40, Size);
		if(copyFailIn >= 0 && copyFailIn-- == 0) {
			copyFailed++;
			Out o;
			throw CopyFailed();
		}
		reg(this, v);
	}
	Functor(Functor&& f) noexcept : v(valueOf(&f)) { memset(pad, 0x41, Size); reg(this, v); }
	Functor& operator=(Functor const&) = delete;
	~Functor() { unreg(this); }
	int operator()(int x) const
	{
		if(valueOf(this) != v) { Out o; violation("callable: wrong functor", what); }
		return v + x;
	}
};
// Without move constructor, so also a temporary is copied (which can fail).
template <size_t Size>
struct CopyOnly : Functor<Size> {
	explicit CopyOnly(int x) : Functor<Size>(x) {}
	CopyOnly(CopyOnly const& f) : Functor<Size>(f) {}
	~CopyOnly() = default;
};
static int plain1(int x) { return 1000 + x; }
static int plain2(int x) { return 2000 + x; }

static void callables(Rng& r)
{
	typedef stored::Callable<int(int)>::type C;
	std::map<void const*, int> liveMap;
	live = &liveMap;
	copyFailIn = -1;
	int next = 1;
	{
		std::vector<std::unique_ptr<Functor<4>>> refs;
		std::vector<std::unique_ptr<Functor<100>>> refsL;
		for(int i = 0; i < 2; i++) {
			refs.emplace_back(new Functor<4>(next++ * 10000));
			refsL.emplace_back(new Functor<100>(next++ * 10000));
		}
		enum { N = 4 };
		std::vector<std::optional<C>> c(N);
		std::vector<int> m(N, 0); // expected value; 0 is empty
		auto verify = [&](int i) {
			bool b = false;
			int v = 0;
			bool threw = false;
			try {
				Lib l;
				b = (bool)*c[(size_t)i];
				if(b) v = (*c[(size_t)i])(7);
				else if(r.below(8) == 0) (*c[(size_t)i])(7);
			} catch(std::bad_function_call const&) {
				lib = 0;
				threw = true;
			}
			if(b != (m[(size_t)i] != 0) || (b && (threw || v != m[(size_t)i] + 7)))
				violation("callable: wrong value", fmt("%s: slot %d calls %d%s, expected %d", what.c_str(), i, b ? v - 7 : 0, threw ? " (threw)" : "", m[(size_t)i]));
		};
		int ops = (int)r.range(5, 60);
		std::string s = "callable";
		for(int n = 0; n < ops && !ctx().caseViolated; n++) {
			int i = (int)r.below(N), j = (int)r.below(N);
			auto& slot = c[(size_t)i];
			int op = (int)r.below(16);
			int before = slot ? m[(size_t)i] : 0;
			int src = c[(size_t)j] ? m[(size_t)j] : 0;
			int kind = (int)r.below(9);
			if(r.below(10) == 0) failIn = (int64_t)r.below(2);
			if(r.below(10) == 0) copyFailIn = (int64_t)r.below(3);
			uint64_t cf = copyFailed, af = failed;
			s += fmt(" %d.%d.%d.%d", op, i, j, kind);
			bool fresh = !slot;
			int want = before;
			int wantSrc = src;
			auto from = [&](auto&& set, char const* name) {
				switch(kind) {
				case 0: want = next++ * 10000; run(fmt("%s small", name).c_str(), [&] { set(Functor<1>(want)); }); break;
				case 1: want = next++ * 10000; run(fmt("%s medium", name).c_str(), [&] { set(Functor<12>(want)); }); break;
				case 2: want = next++ * 10000; run(fmt("%s large", name).c_str(), [&] { set(Functor<200>(want)); }); break;
				case 3: { auto& f = *r.pick(refs); want = f.v; run(fmt("%s reference", name).c_str(), [&] { set(f); }); break; }
				case 4: { auto& f = *r.pick(refsL); want = f.v; run(fmt("%s reference to large", name).c_str(), [&] { set(f); }); break; }
				case 5: want = r.flip() ? 1000 : 2000; run(fmt("%s pointer", name).c_str(), [&] { set(want == 1000 ? &plain1 : &plain2); }); break;
				case 6: want = next++ * 10000; run(fmt("%s large, copied", name).c_str(), [&] { set(CopyOnly<200>(want)); }); break;
				case 7: want = next++ * 10000; run(fmt("%s small, copied", name).c_str(), [&] { set(CopyOnly<4>(want)); }); break;
				default: {
					Functor<40> const f(next++ * 10000);
					want = f.v;
					// a copy of a const object
					run(fmt("%s copy", name).c_str(), [&] { set(Functor<40>(f)); });
				}
				}
			};
			try {
				switch(op) {
				case 0: case 1: case 2:
					run("destroy", [&] { slot.reset(); });
					before = 0;
					from([&](auto&& f) { slot.emplace(std::forward<decltype(f)>(f)); }, "construct");
					break;
				case 3: case 4: case 5:
					if(!slot) slot.emplace();
					from([&](auto&& f) { *slot = std::forward<decltype(f)>(f); }, "assign");
					break;
				case 6:
					if(!slot) slot.emplace();
					want = 0;
					run("assign nullptr", [&] { *slot = nullptr; });
					break;
				case 7: // copy construct
					if(i == j || !c[(size_t)j]) continue;
					want = src;
					run("destroy", [&] { slot.reset(); });
					before = 0;
					run("copy construct", [&] { slot.emplace(static_cast<C const&>(*c[(size_t)j])); });
					break;
				case 8: // move construct
					if(i == j || !c[(size_t)j]) continue;
					want = src; wantSrc = 0;
					copyFailIn = -1;
					run("destroy", [&] { slot.reset(); });
					before = 0;
					run("move construct", [&] { slot.emplace(std::move(*c[(size_t)j])); });
					break;
				case 9: case 10:
					if(!slot || !c[(size_t)j]) continue;
					want = src;
					run(i == j ? "copy assign to itself" : "copy assign", [&] { *slot = static_cast<C const&>(*c[(size_t)j]); });
					break;
				case 11: case 12:
					if(!slot || !c[(size_t)j]) continue;
					copyFailIn = -1;
					want = src;
					if(i != j) wantSrc = 0;
					run(i == j ? "move assign to itself" : "move assign", [&] { *slot = std::move(*c[(size_t)j]); });
					break;
				case 13:
					if(!slot || !c[(size_t)j]) continue;
					copyFailIn = -1;
					want = src;
					wantSrc = before;
					run(i == j ? "swap with itself" : "swap", [&] { std::swap(*slot, *c[(size_t)j]); });
					break;
				case 14:
					run("destroy", [&] { slot.reset(); });
					want = before = 0;
					break;
				default:
					if(!slot) continue;
					run("call", [&] {});
				}
			} catch(CopyFailed const&) {
				lib = 0;
				count("failed: copy of a functor");
			}
			failIn = copyFailIn = -1;
			if(cf != copyFailed || af != failed) {
				// Assignment may leave it empty, or as it was. Nothing else.
				if(slot && fresh && !before && op < 3) violation("callable: constructed regardless of the failure", what);
				if(slot) {
					bool b = (bool)*slot;
					want = b ? before : 0;
					if(op == 3 || op == 4 || op == 5 || op == 9 || op == 10)
						count("state after failed assignment: " + std::string(b ? "as before" : "empty"));
				} else
					want = 0;
				wantSrc = src;
			}
			m[(size_t)i] = slot ? want : 0;
			if(i != j) m[(size_t)j] = wantSrc;
			for(int k = 0; k < N; k++)
				if(c[(size_t)k]) verify(k);
				else m[(size_t)k] = 0;
		}
		sig(s);
		what = "destroy all";
		Lib l;
		c.clear();
		lib = 0;
		Out o;
		refs.clear();
		refsL.clear();
		lib = 1;
	}
	if(!liveMap.empty()) violation("callable: functors remain", fmt("%d functors were never destroyed", (int)liveMap.size()));
	live = nullptr;
}

// Arguments are passed on as they are.
static void arguments(Rng& r)
{
	struct Move {
		std::unique_ptr<int> p;
	};
	std::string str = r.bytes(r.size(60));
	std::string const* seen = nullptr;
	int out = 0;
	typedef stored::Callable<int&(std::string const&, int&, int&&)>::type C;
	std::string const* got = nullptr;
	char big[80] = {};
	C small{[&](std::string const& a, int& b, int&& c) -> int& { got = &a; b = c; return b; }};
	C large{[&got, big](std::string const& a, int& b, int&& c) -> int& { got = &a; b = c + big[3]; return b; }};
	for(C* f : {&small, &large}) {
		C copy(*f);
		for(C* g : {f, &copy}) {
			seen = nullptr;
			got = nullptr;
			int v = (int)r.below(1000);
			int* ret = nullptr;
			run("call with references", [&] { ret = &(*g)(str, out, (int)v); });
			(void)seen;
			if(got != &str || out != v || ret != &out) violation("callable: arguments or result changed", "reference arguments");
		}
	}
	stored::Callable<int(Move&&)>::type mo{[](Move&& m) { return m.p ? *m.p : -1; }};
	Move mv{std::unique_ptr<int>(new int(5))};
	int x = 0;
	run("call with rvalue", [&] { x = mo(std::move(mv)); });
	if(x != 5) violation("callable: rvalue argument", fmt("%d", x));
}

// ---------------------------------------------------------------- workloads

class Store : public STORE_T(Store, stored::AStoreDefaultFunctions, stored::Synchronizable, stored::Signalling, stored::AStoreBase) {
	STORE_CLASS(Store, stored::AStoreDefaultFunctions, stored::Synchronizable, stored::Signalling, stored::AStoreBase)
public:
	Store() = default;
};

static void maybeFail(Rng& r, unsigned range = 6)
{
	failIn = r.below(5) == 0 ? (int64_t)r.below(range) : -1;
}

static void signals(Rng& r)
{
	typedef stored::Signal<int, int, int> S;
	std::optional<S> s;
	run("signal", [&] { s.emplace(); });
	std::multimap<int, std::pair<int, int>> model; // key -> (token, id)
	std::vector<int> called;
	if(!s) return;
	int id = 0;
	int n = (int)r.range(1, 40);
	for(int i = 0; i < n; i++) {
		int key = (int)r.below(5), token = (int)r.below(3);
		maybeFail(r, 3);
		switch(r.below(6)) {
		case 0: case 1: case 2: {
			int me = ++id;
			bool ok;
			if(r.flip()) ok = run("connect", [&] { s->connect(key, [&called, me](int) { Out o; called.push_back(me); }, token); });
			else {
				char pad[64] = {};
				ok = run("connect large", [&] { s->connect(key, [&called, me, pad](int) { Out o; called.push_back(me + pad[1]); }, token); });
			}
			if(ok) model.emplace(key, std::make_pair(token, me));
			break;
		}
		case 3:
			run("disconnect", [&] { s->disconnect(key, token); });
			for(auto it = model.lower_bound(key); it != model.upper_bound(key);)
				if(it->second.first == token) it = model.erase(it);
				else ++it;
			break;
		case 4:
			run("disconnect key", [&] { s->disconnect(key); });
			model.erase(key);
			break;
		default: {
			called.clear();
			bool ok = run("call", [&] { s->call(key, 3); });
			std::multiset<int> exp;
			for(auto it = model.lower_bound(key); it != model.upper_bound(key); ++it) exp.insert(it->second.second);
			if(!ok || std::multiset<int>(called.begin(), called.end()) != exp)
				violation("signal: wrong slots called after a failed connect", fmt("%d called, %d expected", (int)called.size(), (int)exp.size()));
		}
		}
		failIn = -1;
	}
	run("destroy", [&] { s.reset(); });
}

struct Sink : stored::ProtocolLayer {
	std::string data;
	std::vector<std::string> msgs;
	void encode(void const* b, size_t n, bool last) override
	{
		Out o;
		data.append((char const*)b, n);
		if(last) { msgs.push_back(data); data.clear(); }
	}
	using stored::ProtocolLayer::encode;
};

static std::string request(Rng& r)
{
	static char const* const names[] = {"/a", "/b", "/s", "/blo", "/f", "/arr[1]", "/sc/x", "/sc/y", "/nope", "/"};
	std::string n = names[r.below(10)];
	switch(r.below(14)) {
	case 0: return "?";
	case 1: return "l";
	case 2: return "r" + n;
	case 3: return "w" + std::to_string(r.below(9999)) + n;
	case 4: return "a" + std::string(1, (char)('a' + r.below(6))) + (r.below(4) ? n : "");
	case 5: return "m" + std::string(1, (char)('A' + r.below(4))) + (r.below(4) ? ";r" + n + ";e" + r.bytes(r.size(40)) : "");
	case 6: return std::string(1, (char)('A' + r.below(4)));
	case 7: return "s" + (r.flip() ? std::string(1, (char)('g' + r.below(5))) : "");
	case 8: return "s" + std::string(1, (char)('g' + r.below(5))) + "/x";
	case 9: return "t" + (r.flip() ? std::string("Ah") : std::string());
	case 10: return "f" + std::string(1, (char)('g' + r.below(5)));
	case 11: return "i";
	case 12: return "e" + r.bytes(r.size(100));
	default: return r.bytes(1 + r.size(30));
	}
}

static void debugger(Rng& r)
{
	std::unique_ptr<Store> s1, s2;
	s1.reset(new Store());
	s2.reset(new Store());
	// The hooks do not throw, so let them not allocate.
	s1->reserveHeap();
	s2->reserveHeap();
	std::unique_ptr<stored::Debugger> d;
	Sink sink;
	{
		// Construction may fail as well.
		maybeFail(r, 10);
		alignas(stored::Debugger) static char mem[sizeof(stored::Debugger)];
		stored::Debugger* p = nullptr;
		run("debugger", [&] { p = new(mem) stored::Debugger("verif"); });
		failIn = -1;
		if(!p) return;
		struct Dtor { stored::Debugger* d; ~Dtor() { Lib l; d->~Debugger(); } } dtor{p};
		sink.wrap(*p);
		int n = (int)r.range(3, 40);
		std::string data;
		uint64_t f0 = failed;
		for(int i = 0; i < n; i++) {
			maybeFail(r);
			switch(r.below(8)) {
			case 0: run("map", [&] { if(r.flip()) p->map(*s1, "/one"); else p->map(*s2, "/two"); }); break;
			case 1: run("unmap", [&] { if(r.flip()) p->unmap("/one"); else p->unmap("/two"); }); break;
			case 2: {
				char c = (char)('g' + r.below(5));
				data = r.bytes(r.size(400));
				run("stream", [&] { p->stream(c, data.data(), data.size()); });
				break;
			}
			case 3: {
				stored::DebugVariant v;
				run("find", [&] { v = p->find("/two/a"); if(!v.valid()) v = p->find("/one/a"); });
				break;
			}
			case 4: run("trace", [&] { p->trace(); }); break;
			case 5:
				if(r.flip()) {
					failIn = -1; // list() does not throw
					run("list", [&] { p->list([](char const*, stored::DebugVariant&) { }); });
					break;
				}
				// fall through
			default:
				data = request(r);
				if(data[0] == 'l') failIn = -1;
				run("request", [&] { p->decode(&data[0], data.size()); });
			}
			failIn = -1;
			if(f0 != failed) return; // only destroy it
		}
		// Still usable.
		size_t before = sink.msgs.size();
		std::string echo = "eabc";
		if(run("echo", [&] { p->decode(&echo[0], echo.size()); }) && (sink.msgs.size() <= before || sink.msgs.back() != "abc"))
			violation("debugger: unusable after a failed allocation", show(sink.msgs.empty() ? "" : sink.msgs.back()));
		if(r.flip()) {
			run("destroy mapped store", [&] { p->unmap("/one"); });
			s1.reset();
		}
	}
}

static void stacks(Rng& r)
{
	struct App : stored::ProtocolLayer {
		std::vector<std::string> got;
		void decode(void* b, size_t n) override { Out o; got.emplace_back((char*)b, n); }
	};
	// Two equal stacks, connected by a Loopback.
	std::vector<std::unique_ptr<stored::ProtocolLayer>> ls[2];
	App app[2];
	int depth = (int)r.range(0, 4);
	std::vector<int> kinds;
	for(int i = 0; i < depth; i++) {
		int k = (int)r.below(9);
		// A compressor needs unlimited frames.
		if(std::find(kinds.begin(), kinds.end(), 7) != kinds.end() && k != 0 && k != 8) k = 5;
		// Text and messages are separated once.
		if(k == 1 && std::find(kinds.begin(), kinds.end(), 1) != kinds.end()) k = 5;
		if(k == 1) kinds.push_back(0); // which relies on messages without control characters
		kinds.push_back(k);
	}
	std::string ks;
	for(int k : kinds) ks += fmt(" %d", k);
	VERBOSE("layers%s\n", ks.c_str());
	size_t mtu = (size_t)r.range(16, 80);
	stored::ProtocolLayer* bottom[2];
	bool ok = true;
	for(int side = 0; side < 2; side++) {
		stored::ProtocolLayer* prev = &app[side];
		for(int k : kinds) {
			stored::ProtocolLayer* l = nullptr;
			Out o;
			switch(k) {
			case 0: l = new stored::AsciiEscapeLayer(); break;
			case 1: l = new stored::TerminalLayer(); break;
			case 2: l = new stored::SegmentationLayer(mtu); break;
			case 3: l = new stored::ArqLayer(); break;
			case 4: l = new stored::Crc16Layer(); break;
			case 5: l = new stored::BufferLayer(); break;
			case 6: l = new stored::Crc8Layer(); break;
			case 7: l = new stored::CompressLayer(); break;
			default: l = new stored::IdleCheckLayer(); break;
			}
			ls[side].emplace_back(l);
			run("wrap", [&] { l->wrap(*prev); });
			prev = l;
		}
		bottom[side] = prev;
	}
	std::optional<stored::Loopback> loop;
	run("loopback", [&] { loop.emplace(*bottom[0], *bottom[1]); });
	if(r.flip()) {
		maybeFail(r, 2);
		size_t cap = r.size(500);
		run("reserve", [&] { loop->reserve(cap); });
		failIn = -1;
	}
	int n = (int)r.range(1, 12);
	bool anyArq = std::find(kinds.begin(), kinds.end(), 3) != kinds.end();
	for(int i = 0; i < n && ok; i++) {
		int side = (int)r.below(2);
		std::string m = r.bytes(1 + r.size(anyArq ? 60 : 300));
		maybeFail(r);
		uint64_t f0 = failed;
		size_t before = app[1 - side].got.size();
		size_t cut = r.below(m.size() + 1);
		bool done = run("send", [&] {
			app[side].stored::ProtocolLayer::encode(m.data(), cut, false);
			app[side].stored::ProtocolLayer::encode(m.data() + cut, m.size() - cut, true);
		});
		failIn = -1;
		if(f0 != failed) break; // only destroy it
		if(done && !anyArq)
			if(app[1 - side].got.size() != before + 1 || app[1 - side].got.back() != m)
				violation("stack: message lost", fmt("%d bytes in chunks of %d and %d, layers%s, mtu %d: %s, got %s", (int)m.size(), (int)cut, (int)(m.size() - cut), ks.c_str(), (int)mtu, show(m, 300).c_str(), show(app[1 - side].got.empty() ? "" : app[1 - side].got.back(), 300).c_str()));
	}
	run("destroy loopback", [&] { loop.reset(); });
	for(int side = 0; side < 2; side++) {
		Lib l;
		while(!ls[side].empty()) ls[side].pop_back();
	}
}

static void sync(Rng& r)
{
	alignas(stored::Synchronizer) char mem[2][sizeof(stored::Synchronizer)];
	std::unique_ptr<Store> st[2];
	stored::Synchronizer* s[2] = {};
	for(int i = 0; i < 2; i++) {
		st[i].reset(new Store());
		run("synchronizer", [&] { s[i] = new(mem[i]) stored::Synchronizer(); });
	}
	struct Dtor { stored::Synchronizer** s; ~Dtor() { for(int i = 0; i < 2; i++) { Lib l; s[i]->~Synchronizer(); } } } dtor{s};
	stored::ProtocolLayer l[2];
	std::optional<stored::Loopback> loop;
	run("loopback", [&] { loop.emplace(l[0], l[1]); });
	bool mapped[2] = {}, conn[2] = {};
	int n = (int)r.range(5, 40);
	for(int k = 0; k < n; k++) {
		int i = (int)r.below(2);
		uint64_t f0 = failed;
		// Not while writing; the hooks are noexcept.
		switch(r.below(8)) {
		case 0: maybeFail(r, 3); if(!mapped[i] && run("map", [&] { s[i]->map(*st[i]); })) mapped[i] = true; break;
		case 1: maybeFail(r, 3); if(!conn[i] && run("connect", [&] { s[i]->connect(l[i]); })) conn[i] = true; break;
		case 2: maybeFail(r, 3); if(mapped[i] && conn[i]) run("syncFrom", [&] { s[i]->syncFrom(*st[i], l[i]); }); break;
		case 3: if(conn[i] && r.below(3) == 0) { run("disconnect", [&] { s[i]->disconnect(l[i]); }); conn[i] = false; } break;
		case 4: if(mapped[i] && r.below(6) == 0) { run("unmap", [&] { s[i]->unmap(*st[i]); }); mapped[i] = false; } break;
		case 5: maybeFail(r, 3); run("process", [&] { s[i]->process(); }); break;
		default: {
			int32_t v = (int32_t)r.next();
			run("write", [&] { st[i]->a = v; st[i]->sc__x = (int16_t)v; st[i]->b = v; });
		}
		}
		failIn = -1;
		if(f0 != failed) { // only destroy it
			Lib lib_;
			loop.reset();
			return;
		}
	}
	// Usable afterwards, if everything is connected afresh.
	for(int i = 0; i < 2; i++) {
		run("disconnect", [&] { s[i]->disconnect(l[i]); });
		run("map", [&] { if(!mapped[i]) s[i]->map(*st[i]); });
	}
	for(int i = 0; i < 2; i++) run("connect", [&] { s[i]->connect(l[i]); });
	run("syncFrom", [&] { s[1]->syncFrom(*st[1], l[1]); });
	run("write", [&] { st[0]->a = 4711; });
	for(int k = 0; k < 4; k++)
		for(int i = 0; i < 2; i++) run("process", [&] { s[i]->process(); });
	int32_t v = st[1]->a;
	if(v != 4711) violation("sync: does not converge", fmt("the copy holds %d", v));
	for(int i = 0; i < 2; i++) {
		run("disconnect", [&] { s[i]->disconnect(l[i]); });
		run("unmap", [&] { s[i]->unmap(*st[i]); });
	}
	run("destroy loopback", [&] { loop.reset(); });
}

static void pollers(Rng& r)
{
	alignas(stored::Poller) char mem[sizeof(stored::Poller)];
	int fds[2];
	if(pipe(fds)) harnessError("pipe");
	stored::Poller* p = nullptr;
	run("poller", [&] { p = new(mem) stored::Poller(); });
	std::vector<std::unique_ptr<stored::PollableFd>> pl;
	std::vector<bool> in;
	int old = 0; // number of times that fds[1] is added by the deprecated interface
	for(int i = 0; i < 6; i++) {
		pl.emplace_back(new stored::PollableFd(fds[i & 1], (i & 1) ? stored::Pollable::Events(stored::Pollable::PollOut) : stored::Pollable::Events(stored::Pollable::PollIn)));
		in.push_back(false);
	}
	int n = (int)r.range(3, 20);
	for(int k = 0; k < n; k++) {
		size_t i = (size_t)r.below(6);
		switch(r.below(5)) {
		case 4: { // these are allocated by the poller
			bool add = r.flip();
			maybeFail(r, 4);
			uint64_t f0 = failed;
			int res = -1;
			bool ok = run("old add/remove", [&] { res = add ? p->add(fds[1], nullptr, stored::Pollable::PollOut) : p->remove(fds[1]); });
			failIn = -1;
			ok = ok && !res;
			if(ok != (f0 == failed && (add || old))) violation("poller: failed add reported as success, or the other way", fmt("result %d", res));
			if(ok) old += add ? 1 : -1;
			break;
		}
		case 0: case 1:
			if(!in[i]) {
				maybeFail(r, 3);
				uint64_t f0 = failed;
				int res = -1;
				run("add", [&] { res = p->add(*pl[i]); });
				failIn = -1;
				if((res != 0) != (f0 != failed)) violation("poller: failed add reported as success, or the other way", fmt("result %d", res));
				in[i] = res == 0;
			}
			break;
		case 2: {
			int res = -1;
			run("remove", [&] { res = p->remove(*pl[i]); });
			if((res == 0) != in[i]) violation("poller: membership after a failed add", fmt("remove gives %d", res));
			in[i] = false;
			break;
		}
		default: {
			size_t got = 0, exp = (size_t)old;
			for(size_t j = 1; j < 6; j += 2) exp += in[j];
			run("poll", [&] { got = p->poll(0).size(); });
			if(got != exp) violation("poller: wrong number of results", fmt("%d, expected %d", (int)got, (int)exp));
		}
		}
	}
	{
		Lib l;
		p->~Poller();
	}
	::close(fds[0]);
	::close(fds[1]);
}

static void pipes(Rng& r)
{
	using namespace stored::pipes;
	int got = 0;
	int v = (int)r.below(1000);
	run("static pipe", [&] {
		auto p = Entry<int>{} >> Buffer<int>{} >> Call{[&](int x) { got = x; }} >> Exit{};
		auto q = Entry<int>{} >> Buffer<int>{} >> Exit{};
		p >> q;
		p.inject(v);
		if(q.extract() != v) got = -1;
	});
	if(got != v) violation("pipes: value lost", fmt("%d", got));
	Group group;
	Group& g = r.flip() ? group : gc;
	int n = (int)r.range(1, 5);
	for(int i = 0; i < n; i++) {
		maybeFail(r, 2);
		run("dynamic pipe", [&] {
			auto& p = Entry<int>{} >> Buffer<int>{} >> Ref{g};
			failIn = -1;
			p.inject(v);
			if(p.extract() != v) got = -1;
		});
		failIn = -1;
	}
	if(got != v) violation("pipes: value lost", "dynamic");
	run("destroy", [&] { g.destroy(); });
}

static void fifos(Rng& r)
{
	std::optional<stored::Fifo<std::string, 0>> f;
	std::optional<stored::MessageFifo<0>> m;
	std::optional<stored::ScratchPad<>> s;
	std::deque<std::string> model;
	run("fifo", [&] { f.emplace(); });
	run("message fifo", [&] { m.emplace(); });
	run("scratch pad", [&] { s.emplace(r.size(200)); });
	int n = (int)r.range(5, 40);
	for(int i = 0; i < n; i++) {
		std::string x = r.bytes(r.size(200));
		maybeFail(r, 3);
		switch(r.below(6)) {
		case 0: case 1: { uint64_t n0 = m->available(); (void)n0; if(run("message push", [&] { m->push_back({x.data(), x.size()}); })) model.push_back(x); else { m->pop_back(); } break; }
		case 2:
			run("message pop", [&] { if(!m->empty()) m->pop_front(); });
			if(!model.empty()) model.pop_front();
			break;
		case 3: run("spm alloc", [&] { size_t k = r.size(500); char* c = s->alloc<char>(k); if(k) memset(c, 1, k); }); break;
		case 4: run("spm snapshot", [&] { auto sn = s->snapshot(); s->alloc<int>(r.size(50)); }); break;
		default: run("spm reset", [&] { if(r.flip()) s->reset(); else s->shrink_to_fit(); }); break;
		}
		failIn = -1;
		if(m->available() != model.size()) { violation("fifo: size after a failed push", fmt("%d, expected %d", (int)m->available(), (int)model.size())); break; }
		if(!model.empty()) {
			auto front = m->front();
			if(std::string(front.data(), front.size()) != model.front()) { violation("fifo: contents", "front differs"); break; }
		}
	}
	Lib l;
	f.reset();
	m.reset();
	s.reset();
}

static void stores(Rng& r)
{
	std::unique_ptr<Store> s(new Store());
	std::string lst;
	int calls = 0;
	run("signalling connect", [&] { maybeFail(r, 3); s->connect(s->a, [&]() { calls++; }); });
	failIn = -1;
	uint64_t f0 = failed;
	run("write", [&] { s->a = 5; s->a = 6; });
	(void)f0;
	run("list", [&] { s->list([&](Store*, char const* n, stored::Type::type, void*, size_t) { Out o; lst += n; }); });
	run("find", [&] { auto v = s->find("/sc/x"); if(v.valid()) v.set<int16_t>(3); });
	run("string", [&] { auto v = s->find("/s"); if(v.valid()) v.set("hello", 5); });
	run("disconnect", [&] { s->disconnect(s->a); });
}

int main(int argc, char** argv)
{
	std::set_terminate([] {
		lib = 0;
		std::string e = "?";
		try {
			if(auto x = std::current_exception()) std::rethrow_exception(x);
		} catch(std::exception const& x) {
			e = x.what();
		} catch(...) {
		}
		violation(std::string(workload) + ": terminated in " + what, "std::terminate() after a failed allocation, in " + what + ": " + e);
		abort();
	});
	struct W { char const* name; void (*f)(Rng&); int weight; };
	static W const ws[] = {{"callable", callables, 6}, {"arguments", arguments, 1}, {"signal", signals, 2}, {"debugger", debugger, 3}, {"stacks", stacks, 3},
		{"sync", sync, 3}, {"poller", pollers, 2}, {"pipes", pipes, 1}, {"fifo", fifos, 2}, {"store", stores, 1}};
	int total = 0;
	for(auto& w : ws) total += w.weight;
	{ // libraries that allocate once
		void* x[2];
		backtrace(x, 2);
	}
	return runMain(argc, argv, [&](Rng& r) {
		int k = (int)r.below((uint64_t)total);
		W const* w = ws;
		while(k >= w->weight) k -= (w++)->weight;
		workload = w->name;
		label(w->name);
		failIn = -1;
		lib = 0;
		bypass = 0;
		badFree = nullptr;
		hsAllocs = hsFrees = 0;
		size_t before = ledger().size();
		uint64_t f0 = failed, a0 = allocs;
		w->f(r);
		lib = 0;
		failIn = -1;
		if(bypass) {
			char** s = backtrace_symbols(bypassAt, bypassN);
			std::string t;
			for(int i = 0; i < bypassN; i++) t += std::string(s[i]) + "\n";
			__real_free(s);
			violation(fmt("%s: allocation outside the allocator", workload), fmt("%d allocations, last operation %s\n", (int)bypass, what.c_str()) + t);
		}
		if(badFree) violation(fmt("%s: %s", workload, badFree), fmt("allocated %zu bytes in elements of %zu, released as %zu bytes in elements of %zu", badInfo[0], badInfo[2], badInfo[1], badInfo[3]));
		if(ledger().size() != before)
			violation(fmt("%s: memory remains", workload), fmt("%d blocks remain after all objects are destroyed (%d failed allocations)", (int)(ledger().size() - before), (int)(failed - f0)));
		if(hsAllocs != hsFrees) violation(fmt("%s: coders remain", workload), fmt("%d allocated, %d freed", (int)hsAllocs, (int)hsFrees));
		ledger().clear();
		count("allocations", allocs - a0);
		count("failed allocations", failed - f0);
		count(std::string("workload:") + w->name);
		sig(fmt("%s %d %d", w->name, (int)(allocs - a0), (int)(failed - f0)));
	});
}
