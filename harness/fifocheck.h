#ifndef VERIF_FIFOCHECK_H
#define VERIF_FIFOCHECK_H
// C19: element FIFOs, message FIFOs and the FIFO loopback.
// Single-threaded: against a reference queue. Two threads: sequence-number checker (under TSan and at full speed).
#include "common.h"
#include <libstored/fifo.h>
#include <libstored/protocol.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <memory>
#include <thread>

using namespace vf;

// ---------------------------------------------------------------- values

struct Trip { // trivially copyable, larger than a word
	uint64_t a = 0, b = 0, c = 0;
	bool operator==(Trip const& o) const { return a == o.a && b == o.b && c == o.c; }
};
struct Small {
	uint16_t x = 0;
	Small() = default;
	explicit Small(uint16_t v) : x(v) {}
	Small(Small const& o) : x(o.x) {} // not trivially copyable
	Small& operator=(Small const& o) { x = o.x; return *this; }
	bool operator==(Small const& o) const { return x == o.x; }
};
template <typename T> T mk(uint64_t n) { return (T)n; }
template <> inline std::string mk<std::string>(uint64_t n) { return std::string((size_t)(n % 40), (char)('a' + n % 26)) + std::to_string(n); }
template <> inline Trip mk<Trip>(uint64_t n) { Trip t; t.a = n; t.b = ~n; t.c = n * 7; return t; }
template <> inline Small mk<Small>(uint64_t n) { return Small((uint16_t)n); }

// ---------------------------------------------------------------- element FIFO, one thread

template <typename T, size_t C>
static void elements(Rng& r)
{
	auto fp = std::make_unique<stored::Fifo<T, C>>();
	auto& f = *fp;
	std::deque<T> q;
	uint64_t n = r.below(1000);
	std::string trace = fmt("Fifo<%zu bytes,%zu>", sizeof(T), C);
	size_t const maxFill = C ? C : 400;
	int const ops = (int)r.range(5, C > 60 || !C ? 160 : 80);
	auto bad = [&](char const* key, std::string const& m) { violation(key, trace + ": " + m); };
	auto check = [&]() {
		if(f.empty() != q.empty()) bad("fifo-empty", fmt("empty() is %d, while %zu items are queued", (int)f.empty(), q.size()));
		if(f.available() != q.size()) bad("fifo-available", fmt("available() is %zu, while %zu items are queued", f.available(), q.size()));
		if(f.bounded() != (C > 0)) bad("fifo-bounded", "bounded()");
		if(C) {
			if(f.space() != C - q.size()) bad("fifo-space", fmt("space() is %zu with %zu of %zu used", f.space(), q.size(), C));
			if(f.full() != (q.size() == C)) bad("fifo-full", fmt("full() is %d with %zu of %zu used", (int)f.full(), q.size(), C));
		} else if(f.full() || f.space() < 1000000) bad("fifo-space", "unbounded FIFO is full");
		if(f.available_chunk() > q.size() || (f.available_chunk() == 0) != q.empty()) bad("fifo-chunk", fmt("available_chunk() is %zu with %zu queued", f.available_chunk(), q.size()));
		if(!q.empty() && !(f.front() == q.front())) bad("fifo-front", "front() is not the oldest item");
	};
	auto room = [&](size_t want) { return std::min(want, maxFill - q.size()); };
	bool fillPhase = r.flip();
	for(int i = 0; i < ops && !ctx().caseViolated; i++) {
		if(r.chance(1, 12)) fillPhase = !fillPhase;
		unsigned op = (unsigned)r.below(20);
		if(fillPhase && op >= 9 && op <= 12) op = (unsigned)r.below(7);
		if(!fillPhase && op < 7 && r.flip()) op = 9 + (unsigned)r.below(3);
		label(trace + fmt(" op %u with %zu queued", op, q.size()));
		VERBOSE("op %u with %zu queued\n", op, q.size());
		count("operations");
		switch(op) {
		case 0: case 1: if(room(1)) { f.push_back(mk<T>(n)); q.push_back(mk<T>(n)); n++; } break;
		case 2: if(room(1)) { f.emplace_back(mk<T>(n)); q.push_back(mk<T>(n)); n++; } break;
		case 3: case 4: { // block
			std::vector<T> v;
			size_t k = room((size_t)r.size(maxFill));
			if(r.chance(1, 5)) k = room(maxFill);
			for(size_t j = 0; j < k; j++) v.push_back(mk<T>(n++));
			f.push_back(v.data(), v.size());
			q.insert(q.end(), v.begin(), v.end());
			break;
		}
		case 5: { // iterators
			std::deque<T> v;
			size_t k = room((size_t)r.size(maxFill));
			for(size_t j = 0; j < k; j++) v.push_back(mk<T>(n++));
			f.push_back(v.begin(), v.end());
			q.insert(q.end(), v.begin(), v.end());
			break;
		}
		case 6: if(room(3) == 3) {
			f.push_back({mk<T>(n), mk<T>(n + 1), mk<T>(n + 2)});
			for(int j = 0; j < 3; j++) q.push_back(mk<T>(n++));
		} break;
		case 7: case 8: if(!q.empty()) { // modify in place
			size_t k = (size_t)r.below(q.size());
			if(r.flip()) f[k] = mk<T>(n); else f.peek(k) = mk<T>(n);
			q[k] = mk<T>(n++);
		} break;
		case 9: case 10: if(!q.empty()) { f.pop_front(); q.pop_front(); } break;
		case 11: { // block pop
			size_t k = (size_t)r.below(q.size() + 1);
			if(r.chance(1, 5)) k = q.size();
			f.pop_front(k);
			q.erase(q.begin(), q.begin() + (ptrdiff_t)k);
			break;
		}
		case 12: { // iterate and pop
			size_t k = r.flip() ? q.size() : (size_t)r.below(q.size() + 1);
			size_t had = q.size(), got = 0;
			if(k == had) {
				for(auto& x : f) {
					if(q.empty() || !(x == q.front())) { bad("fifo-iterate", "iteration yields another item than the oldest"); break; }
					q.pop_front();
					got++;
				}
			} else {
				auto it = f.begin();
				for(; got < k && it != f.end(); got++) {
					if(r.flip()) { if(!(*it == q.front())) bad("fifo-iterate", "iteration yields another item than the oldest"); ++it; }
					else { auto w = it++; if(!(*w == q.front())) bad("fifo-iterate", "iteration yields another item than the oldest"); }
					q.pop_front();
				}
			}
			if(got != k) bad("fifo-iterate", fmt("iteration gave %zu of %zu items", got, k));
			break;
		}
		case 13: if(r.chance(1, 4)) { f.clear(); q.clear(); } break;
		case 14: case 15: { // view
			auto v = f.view();
			size_t off = 0, len = q.size();
			for(int j = 0; j < (int)r.below(4); j++) {
				size_t a = (size_t)r.below(len + 1);
				switch(r.below(4)) {
				case 0: v.lstrip(a); off += a; len -= a; break;
				case 1: v.rstrip(a); len -= a; break;
				case 2: v = v.subview(a); off += a; len -= a; break;
				default: { size_t l = (size_t)r.below(len - a + 1); v = v.subview(a, l); off += a; len = l; }
				}
			}
			if(v.size() != len || v.empty() != (len == 0)) { bad("view-size", fmt("view has %zu items instead of %zu", v.size(), len)); break; }
			for(size_t j = 0; j < len; j++)
				if(!(v[j] == q[off + j])) { bad("view-item", fmt("view[%zu] is wrong", j)); break; }
			size_t j = 0;
			for(auto const& x : v) {
				if(j >= len || !(x == q[off + j])) { bad("view-iterate", "iterating the view yields a wrong item"); break; }
				j++;
			}
			if(j != len) bad("view-iterate", fmt("iterating the view yields %zu of %zu items", j, len));
			std::vector<T> d(len + 1), sp(len + 1);
			d[len] = mk<T>(3);
			v.copy(d.data());
			if(!std::equal(d.begin(), d.begin() + (ptrdiff_t)len, q.begin() + (ptrdiff_t)off) || !(d[len] == mk<T>(3))) bad("view-copy", "copy() of the view is wrong");
			auto const* p = v.contiguous(sp.data());
			if(!std::equal(p, p + len, q.begin() + (ptrdiff_t)off)) bad("view-contiguous", "contiguous() of the view is wrong");
			count("views");
			break;
		}
		default: // read all
			for(size_t j = 0; j < q.size(); j++)
				if(!(f.peek(j) == q[j]) || !(static_cast<stored::Fifo<T, C> const&>(f)[j] == q[j])) { bad("fifo-peek", fmt("peek(%zu) is wrong", j)); break; }
		}
		check();
		sig(fmt("%zu/%zu/%u/%zu/%zu", sizeof(T), C, op, q.size(), f.available_chunk()));
		countMax("queued", q.size());
	}
	while(!q.empty() && !ctx().caseViolated) {
		check();
		f.pop_front();
		q.pop_front();
	}
	check();
}

// ---------------------------------------------------------------- message FIFO, one thread

template <size_t C, size_t M>
static void messages(Rng& r)
{
	auto fp = std::make_unique<stored::MessageFifo<C, M>>();
	auto& f = *fp;
	std::deque<std::string> q;
	std::string partial;
	size_t linear = 0; // upper bound of what was put in since it was last found empty
	std::string trace = fmt("MessageFifo<%zu,%zu>", C, M);
	size_t const cap = C ? f.capacity() : 2000;
	auto bad = [&](char const* key, std::string const& m) { violation(key, trace + ": " + m); };
	if(C && (cap > C || cap + 1 < C)) bad("message-capacity", fmt("capacity() is %zu", cap));
	auto bytes = [&]() { size_t s = 0; for(auto& x : q) s += x.size(); return s; };
	auto check = [&]() {
		if(f.empty() != q.empty()) bad("message-empty", fmt("empty() is %d with %zu queued", (int)f.empty(), q.size()));
		if(f.available() != q.size()) bad("message-available", fmt("available() is %zu with %zu queued", f.available(), q.size()));
		if(C && (q.size() == M || f.space() == 0) != f.full()) bad("message-full", fmt("full() is %d with %zu of %zu messages and space() %zu", (int)f.full(), q.size(), M, f.space()));
		if(C && f.space() > cap - bytes() - partial.size()) bad("message-space", fmt("space() is %zu with %zu of %zu used", f.space(), bytes() + partial.size(), cap));
		if(C && bytes() == 0 && q.size() < M && f.space() != cap - partial.size()) bad("message-space", fmt("space() is %zu while only %zu of %zu is used", f.space(), partial.size(), cap));
		if(!C && f.full()) bad("message-full", "unbounded FIFO is full");
		if(!q.empty()) {
			auto const& m = f.front();
			if(std::string(m.data(), m.size()) != q.front()) bad("message-front", "front is '" + show(std::string(m.data(), m.size())) + "' instead of '" + show(q.front()) + "'");
			auto const& cm = static_cast<stored::MessageFifo<C, M> const&>(f).front();
			if(std::string(cm.data(), cm.size()) != q.front()) bad("message-front", "const front differs");
		}
	};
	// May and must adding n bytes be accepted?
	auto judge = [&](bool ok, size_t n, bool finish, size_t space, char const* what) {
		bool slot = !finish || !M || q.size() < M;
		count(ok ? "accepted" : "refused");
		if(ok && !slot) bad("message-slot", fmt("%s accepted while %zu messages are queued", what, q.size()));
		if(ok && C && bytes() + partial.size() + n > cap) bad("message-overcommit", fmt("%s of %zu bytes accepted with %zu of %zu in use", what, n, bytes() + partial.size(), cap));
		if(!ok && slot) {
			if(!C) bad("message-refused", fmt("%s refused by an unbounded FIFO", what));
			else if(n == 0) bad("message-refused", fmt("%s without data refused", what));
			else if(q.empty() && partial.size() + n <= cap) bad("message-refused", fmt("%s of %zu bytes refused, while the FIFO only holds %zu bytes of the same message (of %zu)", what, n, partial.size(), cap));
			else if(linear + n <= cap) bad("message-refused", fmt("%s of %zu bytes refused, but only %zu of %zu were used since it was empty", what, n, linear, cap));
			else if(n <= space) bad("message-refused", fmt("%s of %zu bytes refused with space() %zu", what, n, space));
		}
		if(ok && C && slot && n > space && space > 0 && bytes() > 0 && linear + n > cap) bad("message-space", fmt("%s of %zu bytes accepted with space() %zu", what, n, space));
	};
	auto gen = [&]() {
		size_t n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? (size_t)r.below(std::min<size_t>(cap, 3000) + 1) : (size_t)r.below(std::min<size_t>(cap, 1 + cap / (size_t)r.range(1, 6)) + 1);
		std::string s(n, 0);
		for(auto& c : s) c = (char)r.below(256);
		return s;
	};
	int const ops = (int)r.range(10, 150);
	bool fillPhase = r.flip(), zeros = r.chance(2, 3), partials = r.chance(2, 3);
	for(int i = 0; i < ops && !ctx().caseViolated; i++) {
		if(r.chance(1, 8)) fillPhase = !fillPhase;
		unsigned op = (unsigned)r.below(16);
		if(fillPhase && op >= 8 && op <= 12) op = (unsigned)r.below(8);
		if(!fillPhase && op < 8 && r.flip()) op = 8 + (unsigned)r.below(3);
		label(trace + fmt(" op %u with %zu queued", op, q.size()));
		count("operations");
		size_t space = f.space();
		if(q.empty() && partial.empty()) linear = 0;
		switch(op) {
		case 0: case 1: case 2: case 3: {
			auto s = gen();
			if(!zeros && s.empty()) break;
			if(C && partial.size() + s.size() > cap) break; // never fits; may throw
			bool ok = r.flip() ? f.push_back(s.data(), s.size()) : f.push_back({s.data(), s.size()});
			VERBOSE("push %zu (partial %zu) -> %d\n", s.size(), partial.size(), (int)ok);
			judge(ok, s.size(), true, space, "push_back");
			if(ok) { q.push_back(partial + s); partial.clear(); linear += s.size(); }
			break;
		}
		case 4: case 5: if(partials) {
			auto s = gen();
			if(C && partial.size() + s.size() > cap) break;
			bool ok = r.flip() ? f.append_back(s.data(), s.size()) : f.append_back({s.data(), s.size()});
			VERBOSE("append %zu (partial %zu) -> %d\n", s.size(), partial.size(), (int)ok);
			judge(ok, s.size(), false, space, "append_back");
			if(ok) { partial += s; linear += s.size(); }
			break;
		}
		case 6: if(partials && (zeros || !partial.empty())) {
			bool ok = f.push_back();
			VERBOSE("push partial %zu -> %d\n", partial.size(), (int)ok);
			judge(ok, 0, true, space, "push_back()");
			if(ok) { q.push_back(partial); partial.clear(); }
			break;
		}
		case 7: {
			if(r.chance(2, 3)) {
				if(r.flip()) f.reset_back(); else f.pop_back();
				partial.clear();
				VERBOSE("reset_back\n");
			} else if(C) { // several at once
				std::vector<std::string> v;
				for(int j = 0; j < 3; j++) { v.push_back(gen()); if(!zeros && v.back().empty()) v.back() = "x"; }
				size_t sum = partial.size();
				for(auto& x : v) sum += x.size();
				if(sum > cap) break;
				size_t n = r.flip() ? f.push_back({{v[0].data(), v[0].size()}, {v[1].data(), v[1].size()}, {v[2].data(), v[2].size()}})
						    : f.push_back(v.begin(), v.end());
				VERBOSE("push 3 -> %zu\n", n);
				if(n > 3) { bad("message-bulk", "more pushed than given"); break; }
				for(size_t j = 0; j < n; j++) { q.push_back(partial + v[j]); partial.clear(); linear += v[j].size(); }
				if(n < 3 && q.size() < M && !q.empty() && linear + v[n].size() <= cap) bad("message-refused", "bulk push stopped while there is room");
				if(C && bytes() > cap) bad("message-overcommit", "bulk push exceeds the capacity");
			}
			break;
		}
		case 8: case 9: case 10: if(!q.empty()) { f.pop_front(); q.pop_front(); VERBOSE("pop\n"); } break;
		case 11: {
			size_t n = 0;
			for(auto m : f) {
				if(q.empty() || std::string(m.data(), m.size()) != q.front()) { bad("message-iterate", "iteration yields a wrong message"); break; }
				q.pop_front();
				n++;
			}
			VERBOSE("iterate %zu\n", n);
			break;
		}
		case 12: if(!q.empty() && !q.front().empty()) { // in place
			auto m = f.front();
			m.data()[0] = q.front()[0] = (char)r.below(256);
		} break;
		case 13: if(r.chance(1, 4)) { f.clear(); q.clear(); partial.clear(); VERBOSE("clear\n"); } break;
		default: break;
		}
		check();
		sig(fmt("m%zu/%zu/%u/%zu/%zu/%zu", C, M, op, q.size(), bytes(), partial.size()));
		countMax("messages queued", q.size());
	}
	while(!q.empty() && !ctx().caseViolated) {
		check();
		f.pop_front();
		q.pop_front();
	}
	check();
	if(C && !ctx().caseViolated) { // a drained FIFO has room for the largest message
		f.reset_back();
		std::string s(cap, 'x');
		if(!f.push_back(s.data(), s.size())) bad("message-refused", "empty FIFO refuses a message of its capacity");
		else {
			auto m = f.front();
			if(std::string(m.data(), m.size()) != s) bad("message-front", "message of the full capacity is damaged");
		}
	}
}

// ---------------------------------------------------------------- loopback, one thread

struct Collect : public stored::ProtocolLayer {
	std::vector<std::string> got;
	std::function<void(std::string const&)> on;
	void decode(void* buffer, size_t len) override
	{
		std::string s((char const*)buffer, len);
		got.push_back(s);
		if(on) on(s);
	}
	using stored::ProtocolLayer::decode;
};

template <size_t C, size_t M>
static void loopback1(Rng& r)
{
	Collect a, b;
	auto lp = std::make_unique<stored::FifoLoopback<C, M>>(a, b);
	auto& l = *lp;
	std::string trace = fmt("FifoLoopback<%zu,%zu>", C, M);
	struct Dir { Collect* from; Collect* to; stored::FifoLoopback1<C, M>* f; std::deque<std::string> q; std::string part; bool dropping; size_t overflows; bool mid; };
	Dir dirs[2] = {{&a, &b, &l.a2b(), {}, "", false, 0, false}, {&b, &a, &l.b2a(), {}, "", false, 0, false}};
	bool handler = r.flip();
	auto bad = [&](char const* key, std::string const& m) { violation(key, trace + ": " + m); };
	for(auto& d : dirs) {
		if(handler) d.f->setOverflowHandler([&d]() { d.overflows++; return false; });
	}
	size_t mtu = a.mtu();
	if(mtu == 0 || mtu > C) { bad("loopback-mtu", fmt("mtu() is %zu", mtu)); return; }
	auto drain = [&](Dir& d, bool all) {
		d.to->got.clear();
		size_t n = d.q.size();
		if(d.f->available() != n || d.f->empty() != (n == 0)) bad("loopback-available", fmt("available() is %zu with %zu queued", d.f->available(), n));
		if(all) d.f->recvAll();
		else {
			int e = d.f->recv();
			if((e == 0) != (n > 0)) bad("loopback-recv", fmt("recv() gives %d with %zu queued", e, n));
			n = std::min<size_t>(n, 1);
		}
		if(d.to->got.size() != n) { bad("loopback-lost", fmt("%zu messages received instead of %zu", d.to->got.size(), n)); return; }
		for(size_t i = 0; i < n; i++) {
			if(d.to->got[i] != d.q.front()) bad("loopback-message", "received '" + show(d.to->got[i]) + "' instead of '" + show(d.q.front()) + "'");
			d.q.pop_front();
		}
	};
	for(int i = 0, n = (int)r.range(5, 60); i < n && !ctx().caseViolated; i++) {
		auto& d = dirs[r.below(2)];
		if(r.chance(1, 3)) { drain(d, r.chance(1, 4)); continue; }
		size_t len = r.chance(1, 6) ? mtu - d.part.size() : (size_t)r.below(mtu - d.part.size() + 1);
		if(r.chance(1, 3)) len = std::min<size_t>(len, 3);
		bool last = r.chance(2, 3);
		std::string s(len, 0);
		for(auto& c : s) c = (char)r.below(256);
		label(trace + fmt(" encode %zu %d", len, (int)last));
		size_t had = d.f->available(), ov = d.overflows;
		if(!handler && !d.mid) d.f->reset();
		d.mid = !last;
		d.from->encode(s.data(), s.size(), last);
		count("loopback encodes");
		bool dropped = handler ? d.overflows != ov : d.f->lastError() == ENOMEM;
		VERBOSE("%d: encode %zu (part %zu) last %d -> dropped %d, available %zu -> %zu\n", (int)(&d - dirs), len, d.part.size(), (int)last, (int)dropped, had, d.f->available());
		if(dropped) {
			count("loopback drops");
			if(had == 0 && !d.dropping) bad("loopback-refused", fmt("message of %zu bytes (MTU %zu) dropped by an empty FIFO", d.part.size() + len, mtu));
			d.dropping = true; // the message is incomplete, so none of it may arrive
		}
		d.part += s;
		if(last) {
			if(!d.dropping) d.q.push_back(d.part);
			d.dropping = false;
			d.part.clear();
		}
		sig(fmt("l%zu/%zu/%zu/%d/%d", C, had, len, (int)last, (int)dropped));
	}
	for(auto& d : dirs)
		if(!ctx().caseViolated) drain(d, true);
}

// ---------------------------------------------------------------- two threads

static inline void pace(Rng& r)
{
	switch(r.below(12)) {
	case 0: std::this_thread::yield(); break;
	case 1: for(volatile int i = 0; i < (int)r.below(300); i = i + 1) ; break;
	default: break;
	}
}

struct Fail {
	std::atomic<bool> set{false};
	std::string key, msg;
	std::atomic<bool> owned{false};
	void operator()(char const* k, std::string const& m)
	{
		if(!owned.exchange(true)) { key = k; msg = m; set = true; }
	}
	void report()
	{
		if(set) violation(key, msg);
	}
};

// A thread that spins for this long without progress is stuck.
static uint64_t const StuckSpins = 5000000;

template <typename T, size_t C>
static void elementsMT(Rng& r)
{
	auto fp = std::make_unique<stored::Fifo<T, C>>();
	auto& f = *fp;
	uint64_t const total = (uint64_t)r.range(50, ctx().thorough ? 6000 : 1500);
	uint64_t s1 = r.next(), s2 = r.next();
	Fail fail;
	// Bounds of what was put in and taken out, at any moment. Relaxed, as they must not synchronize the threads.
	std::atomic<uint64_t> pushing{0}, pushed{0}, popping{0}, popped{0};
	auto const rlx = std::memory_order_relaxed;
	std::string what = fmt("Fifo<%zu bytes,%zu> over two threads: ", sizeof(T), C);
	label(what);
	uint64_t h = 0, handovers = 0;
	std::thread p([&]() {
		Rng r1(s1);
		uint64_t n = 0, spin = 0;
		while(n < total && !fail.set) {
			uint64_t pd = popped.load(rlx);
			size_t sp = f.space();
			uint64_t pg = popping.load(rlx);
			if(sp > C || sp + (n - pd) < C || sp + (n - std::min(n, pg)) > C) fail("fifo-space", what + fmt("space() is %zu", sp));
			if((f.full() && sp) || (sp == C && !f.empty())) fail("fifo-full", what + "size queries by the producer contradict each other");
			if(!sp) {
				if(++spin > StuckSpins) { fail("fifo-stuck", what + "the FIFO remains full"); break; }
				std::this_thread::yield();
				continue;
			}
			spin = 0;
			size_t k = (size_t)std::min<uint64_t>((uint64_t)r1.range(1, (int64_t)sp), total - n);
			if(r1.flip()) k = 1;
			pushing.store(n + k, rlx);
			switch(r1.below(4)) {
			case 0: { std::vector<T> v; for(size_t i = 0; i < k; i++) v.push_back(mk<T>(n + i)); f.push_back(v.data(), k); break; }
			case 1: for(size_t i = 0; i < k; i++) f.emplace_back(mk<T>(n + i)); break;
			case 2: { std::deque<T> v; for(size_t i = 0; i < k; i++) v.push_back(mk<T>(n + i)); f.push_back(v.begin(), v.end()); break; }
			default:
				if(k >= 2) { k = 2; f.push_back({mk<T>(n), mk<T>(n + 1)}); }
				else for(size_t i = 0; i < k; i++) f.push_back(mk<T>(n + i));
			}
			n += k;
			pushed.store(n, rlx);
			pace(r1);
		}
	});
	std::thread c([&]() {
		Rng r2(s2);
		uint64_t n = 0, spin = 0;
		while(n < total && !fail.set) {
			uint64_t pd = pushed.load(rlx);
			size_t av = f.available();
			uint64_t pg = pushing.load(rlx);
			if(av > C || n + av < pd || n + av > pg) { fail("fifo-available", what + fmt("available() is %zu", av)); break; }
			if(av && f.empty()) { fail("fifo-empty", what + "empty() while there are items"); break; }
			if(!av) {
				if(++spin > StuckSpins) { fail("fifo-stuck", what + "nothing arrives anymore"); break; }
				std::this_thread::yield();
				continue;
			}
			if(n + av > total) { fail("fifo-available", what + "more available than put in"); break; }
			spin = 0;
			handovers++;
			h = h * 31 + av;
			auto expect = [&](T const& x, uint64_t i) { if(!(x == mk<T>(i))) fail("fifo-item", what + fmt("item %llu is wrong", (unsigned long long)i)); };
			// popping is updated before, popped afterwards
			switch(r2.below(4)) {
			case 0: expect(f.front(), n); popping.store(n + 1, rlx); f.pop_front(); n++; break;
			case 1: { size_t k = (size_t)r2.range(1, (int64_t)av); for(size_t i = 0; i < k; i++) expect(f.peek(i), n + i); popping.store(n + k, rlx); f.pop_front(k); n += k; break; }
			case 2: { popping.store(total, rlx); auto it = f.begin(); auto e = f.end(); uint64_t k = 0; for(; it != e; ++it, ++k) expect(*it, n + k); n += k; if(k < av) fail("fifo-iterate", what + "iteration misses items"); break; }
			default: { auto v = f.view(); size_t k = v.size(); if(k < av) fail("view-size", what + "view misses items"); for(size_t i = 0; i < k; i++) expect(v[i], n + i); popping.store(n + k, rlx); f.pop_front(k); n += k; }
			}
			popping.store(n, rlx);
			popped.store(n, rlx);
			pace(r2);
		}
	});
	p.join();
	c.join();
	if(!fail.set && !f.empty()) fail("fifo-extra", what + "items are left in the FIFO");
	fail.report();
	count("items over threads", total);
	count("handovers", handovers);
	sig(h);
}

static std::string msgOf(uint64_t n, size_t len)
{
	std::string s(len, 0);
	Rng r(n * 77 + 5);
	for(auto& c : s) c = (char)r.next();
	return s;
}

template <size_t C, size_t M>
static void messagesMT(Rng& r)
{
	auto fp = std::make_unique<stored::MessageFifo<C, M>>();
	auto& f = *fp;
	uint64_t const total = (uint64_t)r.range(50, ctx().thorough ? 4000 : 800);
	uint64_t s0 = r.next(), s1 = r.next(), s2 = r.next();
	size_t const cap = f.capacity();
	unsigned const style = (unsigned)r.below(4);
	auto len = [&](uint64_t n) {
		Rng q(s0 + n * 1315423911u);
		switch(style) {
		case 0: return (size_t)q.below(cap + 1);
		case 1: return (size_t)q.below(std::min<size_t>(cap, 4) + 1);
		case 2: return q.flip() ? (size_t)0 : (size_t)q.below(cap + 1);
		default: return cap - std::min<size_t>(cap, (size_t)q.below(3));
		}
	};
	Fail fail;
	std::string what = fmt("MessageFifo<%zu,%zu> over two threads: ", C, M);
	label(what);
	uint64_t h = 0, handovers = 0;
	std::atomic<uint64_t> refused{0};
	std::thread p([&]() {
		Rng r1(s1);
		uint64_t spin = 0;
		for(uint64_t n = 0; n < total && !fail.set; n++) {
			auto m = msgOf(n, len(n));
			size_t off = 0;
			spin = 0;
			bool parts = r1.flip();
			while(!fail.set) {
				size_t sp = f.space();
				if(sp > cap) { fail("message-space", what + fmt("space() is %zu", sp)); break; }
				size_t k = m.size() - off;
				if(parts && k > 1 && r1.flip()) k = (size_t)r1.below(k) + 1;
				bool last = off + k == m.size() && !(parts && r1.chance(1, 4));
				bool ok = last ? f.push_back(m.data() + off, k) : f.append_back(m.data() + off, k);
				if(!ok) {
					refused.fetch_add(1, std::memory_order_relaxed);
					if(k && k <= sp) { fail("message-refused", what + fmt("%zu bytes refused with space() %zu", k, sp)); break; }
					if(++spin > StuckSpins) { fail("message-stuck", what + fmt("the FIFO remains full (message of %zu)", m.size())); break; }
					if(parts && r1.chance(1, 50)) { f.reset_back(); off = 0; } // start over
					std::this_thread::yield();
					continue;
				}
				off += k;
				if(last) break;
				if(off == m.size() && f.push_back()) break;
			}
			pace(r1);
		}
	});
	std::thread c([&]() {
		Rng r2(s2);
		uint64_t n = 0, spin = 0;
		auto expect = [&](char const* d, size_t l) {
			size_t want = len(n);
			if(l != want || (l && memcmp(d, msgOf(n, want).data(), l))) fail("message-item", what + fmt("message %llu is wrong (%zu bytes instead of %zu)", (unsigned long long)n, l, want));
			n++;
		};
		while(n < total && !fail.set) {
			size_t av = f.available();
			if(av > M || n + av > total) { fail("message-available", what + fmt("available() is %zu", av)); break; }
			if(!av) {
				if(++spin > StuckSpins) { fail("message-stuck", what + "nothing arrives anymore"); break; }
				std::this_thread::yield();
				continue;
			}
			spin = 0;
			handovers++;
			h = h * 31 + av;
			if(r2.flip()) {
				auto m = f.front();
				expect(m.data(), m.size());
				f.pop_front();
			} else for(auto m : f) expect(m.data(), m.size());
			pace(r2);
		}
	});
	p.join();
	c.join();
	if(!fail.set && !f.empty()) fail("message-extra", what + "messages are left in the FIFO");
	fail.report();
	count("messages over threads", total);
	count("refused over threads", refused.load());
	count("handovers", handovers);
	sig(h);
}

template <size_t C, size_t M>
static void loopbackMT(Rng& r)
{
	Collect top[2];
	auto lp = std::make_unique<stored::FifoLoopback<C, M>>(top[0], top[1]);
	auto& l = *lp;
	uint64_t const total = (uint64_t)r.range(30, ctx().thorough ? 2000 : 400);
	uint64_t seed[2] = {r.next(), r.next()}, s0 = r.next();
	Fail fail;
	std::string what = fmt("FifoLoopback<%zu,%zu> over two threads: ", C, M);
	label(what);
	size_t const mtu = top[0].mtu();
	if(!mtu || mtu > C) { violation("loopback-mtu", what + fmt("mtu() is %zu", mtu)); return; }
	auto len = [&](int side, uint64_t n) { Rng q(s0 + n * 1315423911u + (uint64_t)side * 99); return q.chance(1, 5) ? mtu : (size_t)q.below(mtu + 1); };
	uint64_t got[2] = {0, 0};
	std::atomic<int> done{0};
	uint64_t overflows[2] = {0, 0};
	auto side = [&](int me) {
		auto& out = me ? l.b2a() : l.a2b();
		auto& in = me ? l.a2b() : l.b2a();
		Rng q(seed[me]);
		uint64_t spin = 0;
		top[me].on = [&, me](std::string const& s) {
			uint64_t n = got[me]++;
			size_t want = len(1 - me, n);
			if(s != msgOf(n + (uint64_t)(1 - me) * 1000000, want)) fail("loopback-message", what + fmt("message %llu is wrong", (unsigned long long)n));
			spin = 0;
		};
		out.setOverflowHandler([&, me]() {
			overflows[me]++;
			in.recv(); // make progress at this side, so both cannot wait for each other
			if(++spin > StuckSpins) { fail("loopback-stuck", what + "the FIFO remains full"); return false; }
			std::this_thread::yield();
			return !fail.set.load();
		});
		for(uint64_t n = 0; n < total && !fail.set; n++) {
			auto m = msgOf(n + (uint64_t)me * 1000000, len(me, n));
			size_t off = 0;
			while(q.flip() && m.size() - off > 1) {
				size_t k = (size_t)q.below(m.size() - off);
				top[me].encode(m.data() + off, k, false);
				off += k;
			}
			top[me].encode(m.data() + off, m.size() - off, true);
			spin = 0;
			if(q.flip()) in.recv();
			if(q.chance(1, 4)) in.recvAll();
			pace(q);
		}
		while(got[me] < total && !fail.set) {
			if(in.recv() == EAGAIN) {
				if(++spin > StuckSpins) fail("loopback-stuck", what + "nothing arrives anymore");
				std::this_thread::yield();
			}
		}
	};
	std::thread a([&]() { side(0); });
	std::thread b([&]() { side(1); });
	a.join();
	b.join();
	if(!fail.set && (!l.a2b().empty() || !l.b2a().empty())) fail("loopback-extra", what + "messages are left");
	fail.report();
	count("loopback messages over threads", 2 * total);
	count("loopback overflows handled", overflows[0] + overflows[1]);
	sig(overflows[0] * 1000003 + overflows[1]);
}

using Fn = void (*)(Rng&);
#define PART(n) void part##n(std::vector<Fn>& single, std::vector<Fn>& threads)
PART(1); PART(2); PART(3); PART(4); PART(5); PART(6); PART(7); PART(8);
#endif
