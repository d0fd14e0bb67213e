// C23: a poll reports exactly the pollables that are ready.
#include "common.h"
#include <libstored/poller.h>
#include <libstored/zmq.h>
#include <atomic>
#include <chrono>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <thread>
#include <zmq.h>
using namespace vf;
using stored::Pollable;

static void* zctx;
typedef std::chrono::steady_clock Clock;

static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }

// poll_once() for the LoopPoller: it knows callbacks (by default), and file descriptors.
static std::map<int, int> onceError; // fd -> error
static bool onceAgain; // how to report a descriptor without events
namespace stored {
int poll_once(TypedPollable const& p, Pollable::Events& revents) noexcept
{
	if(p.type() != PollableFd::staticType()) return poll_once_default(p, revents);
	int fd = static_cast<PollableFd const&>(p).fd;
	auto e = onceError.find(fd);
	if(e != onceError.end()) return e->second;
	struct pollfd f = {fd, (short)((p.events.test(Pollable::PollInIndex) ? POLLIN : 0) | (p.events.test(Pollable::PollOutIndex) ? POLLOUT : 0)), 0};
	::poll(&f, 1, 0);
	revents = ((f.revents & POLLIN) ? Pollable::PollIn : 0) | ((f.revents & POLLOUT) ? Pollable::PollOut : 0) | ((f.revents & POLLERR) ? Pollable::PollErr : 0)
		| ((f.revents & POLLHUP) ? Pollable::PollHup : 0);
	return onceAgain && revents.none() ? EAGAIN : 0;
}
}

// ---------------------------------------------------------------- things to poll

struct Thing {
	std::string kind;
	int fd = -1; // polled descriptor
	int peer = -1;
	void* zsock = nullptr;
	void* zpeer = nullptr;
	std::unique_ptr<stored::ZmqLayer> zlayer;
	std::unique_ptr<stored::FileLayer> flayer;
	unsigned long cb = 0; // what the callback returns
	bool cbThrow = false;
	mutable unsigned cbCalls = 0;

	Thing(Thing const&) = delete;
	Thing() = default;
	~Thing()
	{
		if(flayer) fd = -1;
		flayer.reset();
		if(fd >= 0) ::close(fd);
		if(peer >= 0) ::close(peer);
		if(zlayer) zsock = nullptr;
		zlayer.reset();
		if(zsock) zmq_close(zsock);
		if(zpeer) zmq_close(zpeer);
	}
};
typedef std::shared_ptr<Thing> ThingP;

static uint64_t inprocId;

static ThingP makeThing(Rng& r, int kind)
{
	auto t = std::make_shared<Thing>();
	int p[2];
	switch(kind) {
	case 0: t->kind = "pipe(r)"; if(pipe(p)) abort(); t->fd = p[0]; t->peer = p[1]; break;
	case 1: t->kind = "pipe(w)"; if(pipe(p)) abort(); t->fd = p[1]; t->peer = p[0]; fcntl(p[1], F_SETPIPE_SZ, 4096); break;
	case 2: {
		t->kind = "socket";
		if(socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
		t->fd = p[0]; t->peer = p[1];
		int n = 4096;
		setsockopt(t->fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
		break;
	}
	case 3: t->kind = "event"; t->fd = eventfd((unsigned)r.below(2), EFD_NONBLOCK); break;
	case 4: {
		t->kind = "FileLayer";
		if(socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
		t->flayer.reset(new stored::FileLayer(p[0]));
		t->fd = t->flayer->fd();
		t->peer = p[1];
		break;
	}
	case 5: case 6: {
		std::string ep = fmt("inproc://p%" PRIu64, ++inprocId);
		t->zpeer = zmq_socket(zctx, ZMQ_PAIR);
		int zero = 0, hwm = 3;
		zmq_setsockopt(t->zpeer, ZMQ_LINGER, &zero, sizeof(zero));
		zmq_setsockopt(t->zpeer, ZMQ_RCVHWM, &hwm, sizeof(hwm));
		zmq_bind(t->zpeer, ep.c_str());
		if(kind == 5) {
			t->kind = "zmq";
			t->zsock = zmq_socket(zctx, ZMQ_PAIR);
		} else {
			t->kind = "ZmqLayer";
			t->zlayer.reset(new stored::ZmqLayer(zctx, ZMQ_PAIR));
			t->zsock = t->zlayer->socket();
		}
		zmq_setsockopt(t->zsock, ZMQ_LINGER, &zero, sizeof(zero));
		zmq_setsockopt(t->zsock, ZMQ_SNDHWM, &hwm, sizeof(hwm));
		zmq_connect(t->zsock, ep.c_str());
		break;
	}
	default: t->kind = "callback"; break;
	}
	if(t->fd >= 0) nonblock(t->fd);
	if(t->peer >= 0) nonblock(t->peer);
	return t;
}

static void change(Rng& r, Thing& t)
{
	char buf[5000] = {};
	auto wr = [&](int fd) { ssize_t n = send(fd, buf, (size_t)r.range(1, r.flip() ? 10 : 5000), MSG_NOSIGNAL); if(n < 0) n = write(fd, buf, 100); (void)n; };
	auto rd = [&](int fd) { ssize_t n = read(fd, buf, (size_t)r.range(1, 5000)); (void)n; };
	if(t.zsock) {
		auto drain = [&](void* s) { while(zmq_recv(s, buf, sizeof(buf), ZMQ_DONTWAIT) >= 0) {} };
		switch(r.below(5)) {
		case 0: case 1: zmq_send(t.zpeer, buf, 10, ZMQ_DONTWAIT); break;
		case 2: zmq_send(t.zsock, buf, 10, ZMQ_DONTWAIT); break;
		case 3: drain(t.zsock); break;
		default: drain(t.zpeer);
		}
		return;
	}
	if(t.kind == "callback") {
		t.cb = r.flip() ? 0 : r.below(32);
		t.cbThrow = r.chance(1, 12);
		return;
	}
	if(t.kind == "event") {
		uint64_t x = r.flip() ? 1 : 0xfffffffffffffffeull;
		ssize_t n = r.flip() ? write(t.fd, &x, 8) : read(t.fd, &x, 8);
		(void)n;
		return;
	}
	switch(r.below(12)) {
	case 0: case 1: case 2: if(t.peer >= 0 && t.kind != "pipe(w)") wr(t.peer); break;
	case 3: case 4: if(t.peer >= 0 && t.kind != "pipe(r)") rd(t.peer); break;
	case 5: case 6: if(t.kind != "pipe(w)") rd(t.fd); break;
	case 7: case 8: if(t.kind != "pipe(r)") wr(t.fd); break;
	case 9: if(t.kind != "pipe(r)") for(int i = 0; i < 50; i++) { ssize_t n = write(t.fd, buf, sizeof(buf)); if(n < 0) break; } break; // fill
	case 10: if(t.peer >= 0 && r.chance(1, 3)) { ::close(t.peer); t.peer = -1; } break;
	default: if(t.kind == "socket" && r.chance(1, 3)) { shutdown(r.flip() && t.peer >= 0 ? t.peer : t.fd, r.flip() ? SHUT_WR : SHUT_RD); }
		else if(t.kind == "socket" && t.peer >= 0) send(t.peer, buf, 1, MSG_OOB | MSG_NOSIGNAL);
	}
}

enum Backend { ZMQ_, POLL_, LOOP_ };

// The events that are pending according to the kernel, or ZMQ, as the back end should report them.
static unsigned long truth(Thing const& t, unsigned long ev, Backend b)
{
	unsigned long res = 0;
	if(t.zsock) {
		int e = 0;
		size_t n = sizeof(e);
		zmq_getsockopt(t.zsock, ZMQ_EVENTS, &e, &n);
		if(e & ZMQ_POLLIN) res |= Pollable::PollIn;
		if(e & ZMQ_POLLOUT) res |= Pollable::PollOut;
		return res & ev;
	}
	if(t.kind == "callback") return t.cbThrow ? (unsigned long)Pollable::PollErr : t.cb;
	struct pollfd f = {t.fd, 0, 0};
	if(ev & Pollable::PollIn) f.events |= POLLIN;
	if(ev & Pollable::PollOut) f.events |= POLLOUT;
	if(b == POLL_ && (ev & Pollable::PollPri)) f.events |= POLLPRI;
	if(::poll(&f, 1, 0) < 0) harnessError("poll");
	if(f.revents & POLLIN) res |= Pollable::PollIn;
	if(f.revents & POLLOUT) res |= Pollable::PollOut;
	if(b == ZMQ_) {
		if(f.revents & ~(POLLIN | POLLOUT)) res |= Pollable::PollErr; // ZMQ does not distinguish these
	} else {
		if(f.revents & (POLLERR | POLLNVAL)) res |= Pollable::PollErr;
		if(f.revents & POLLPRI) res |= Pollable::PollPri;
		if(f.revents & POLLHUP) res |= Pollable::PollHup;
	}
	return res;
}

// ---------------------------------------------------------------- the model

struct Reg {
	ThingP t;
	unsigned long events = 0;
	void* user = nullptr;
	std::shared_ptr<stored::TypedPollable> p; // null: owned by the poller (old interface)
	bool in = false;
};

template <typename T> struct IsPoller { enum { value = 0 }; };
template <> struct IsPoller<stored::Poller> { enum { value = 1 }; };

template <typename P>
struct Model {
	Rng& r;
	Backend b;
	std::unique_ptr<P> poller;
	std::vector<Reg> regs; // registered, or were registered
	std::string trace;
	int tag = 0;

	Model(Rng& rng, Backend be) : r(rng), b(be) {}

	void bad(std::string const& key, std::string const& m) { violation(key, m + " | " + trace); }

	unsigned long randEvents()
	{
		unsigned long e = r.below(4);
		if(r.chance(1, 4)) e |= 1u << r.range(2, 4);
		return e;
	}

	int randKind()
	{
		switch(b) {
		case ZMQ_: return (int)r.below(7);
		case POLL_: return (int)r.below(5);
		default: return r.flip() ? 7 : (int)r.below(4);
		}
	}

	Reg make(int kind)
	{
		Reg g;
		g.t = r.chance(1, 5) && !regs.empty() ? r.pick(regs).t : makeThing(r, kind); // one descriptor can be polled more than once
		g.events = randEvents();
		g.user = (void*)(uintptr_t)(++tag);
		Pollable::Events e(g.events);
		Thing* t = g.t.get();
		if(t->kind == "callback") {
			auto f = [t](Pollable const&) -> Pollable::Events {
				t->cbCalls++;
				if(t->cbThrow) throw 1;
				return t->cb;
			};
			typedef stored::PollableCallback<decltype(f)> C;
			g.p.reset(new C(f, e, g.user));
		} else if(t->zlayer && r.flip()) g.p.reset(new stored::PollableZmqLayer(stored::pollable(*t->zlayer, e, g.user)));
		else if(t->zsock) g.p.reset(new stored::PollableZmqSocket(stored::pollable(t->zsock, e, g.user)));
		else if(t->flayer && r.flip()) g.p.reset(new stored::PollableFileLayer(stored::pollable(static_cast<stored::PolledFileLayer&>(*t->flayer), e, g.user)));
		else g.p.reset(new stored::PollableFd(stored::pollable(t->fd, e, g.user)));
		return g;
	}

	size_t inCount()
	{
		size_t n = 0;
		for(auto& g : regs) n += g.in;
		return n;
	}

	void add()
	{
		if(b != LOOP_ && r.chance(1, 12)) { // not supported by this poller
			auto f = [](Pollable const&) -> Pollable::Events { return Pollable::PollIn; };
			stored::PollableCallback<decltype(f)> c(f, Pollable::PollIn);
			Reg ok = make(randKind());
			int res;
			if(r.flip()) res = poller->add(c);
			else { // all or nothing
				std::initializer_list<std::reference_wrapper<Pollable>> l = {*ok.p, c};
				res = poller->add(l);
			}
			if(!res) bad("unsupported", "adding a callback is accepted");
			count("unsupported pollables");
			trace += "unsupported ";
			return;
		}
		if(regs.size() > 12) return;
		if(r.chance(1, 4)) {
			Reg a = make(randKind()), c = make(randKind());
			std::initializer_list<std::reference_wrapper<Pollable>> l = {*a.p, *c.p};
			int res = poller->add(l);
			if(res) return bad("add", fmt("add() of two pollables returns %d", res));
			a.in = c.in = true;
			trace += "+" + a.t->kind + fmt("/%lx", a.events) + " +" + c.t->kind + fmt("/%lx ", c.events);
			regs.push_back(a);
			regs.push_back(c);
			return;
		}
		Reg g = make(randKind());
		int res = poller->add(*g.p);
		if(res) return bad("add", "add() of " + g.t->kind + fmt(" returns %d", res));
		g.in = true;
		trace += "+" + g.t->kind + fmt("/%lx ", g.events);
		regs.push_back(g);
		count("pollables added");
	}

	void remove()
	{
		if(regs.empty()) return;
		size_t i = (size_t)r.below(regs.size());
		auto& g = regs[i];
		if(!g.p) return;
		int res = poller->remove(*g.p);
		if((res == 0) != g.in) return bad("remove", fmt("remove() of a pollable that is%s registered returns %d", g.in ? "" : " not", res));
		if(!g.in && res != ESRCH) return bad("remove", fmt("remove() of an unknown pollable returns %d", res));
		g.in = false;
		trace += fmt("-%zu ", i);
		count("pollables removed");
		if(r.chance(3, 4)) regs.erase(regs.begin() + (long)i); // destroys the pollable, and maybe closes the descriptor
		else if(r.flip()) { // with other events
			auto& x = regs[i];
			x.events = randEvents();
			x.p->events = x.events;
			if(poller->add(*x.p)) return bad("add", "cannot add again");
			x.in = true;
			trace += fmt("=%lx ", x.events);
		}
	}

	template <typename R>
	void verify(R const& res, std::vector<unsigned long> const& before, int err, bool threaded)
	{
		count("polls");
		countMax("most pollables registered", inCount());
		std::vector<unsigned long> after;
		for(auto& g : regs) after.push_back(truth(*g.t, g.events, b));
		std::vector<int> seen(regs.size(), 0);
		for(auto& x : res) {
			Pollable* p = x.p;
			size_t i = 0;
			for(; i < regs.size(); i++)
				if(regs[i].p ? regs[i].p.get() == p : regs[i].in && regs[i].user == p->user_data) break;
			if(i == regs.size() || !regs[i].in) return bad("not registered", "poll() returns a pollable that is not registered");
			auto& g = regs[i];
			if(seen[i]++) return bad("twice", "poll() returns one pollable twice");
			unsigned long ev = x.revents;
			if(ev != p->revents.to_ulong()) return bad("revents", fmt("revents of the result %lx differ from those of the pollable %lx", ev, p->revents.to_ulong()));
			if(x.events != g.events || x.user_data != g.user) return bad("result", fmt("the result has events %lx and user data %p instead of %lx and %p", (unsigned long)x.events, x.user_data, g.events, g.user));
			if(!ev) return bad("no events", "poll() returns a pollable without events");
			if(ev & ~(before[i] | after[i])) return bad("events", g.t->kind + fmt(" polled for %lx reports %lx, while %lx is pending", g.events, ev, after[i]));
			if((before[i] & after[i]) & ~ev) return bad("events", g.t->kind + fmt(" polled for %lx reports only %lx, while %lx is pending", g.events, ev, after[i]));
			count("events reported");
		}
		for(size_t i = 0; i < regs.size(); i++) {
			auto& g = regs[i];
			if(!g.in || seen[i]) continue;
			if(err == EINTR) continue;
			if((before[i] & after[i]) && !threaded)
				return bad("missing", g.t->kind + fmt(" polled for %lx is not reported, while %lx is pending (errno %d)", g.events, after[i], err));
			if(g.p && g.p->revents.any() && !threaded) return bad("stale", "a pollable that is not ready has " + g.t->kind + fmt(" revents %lx after poll()", g.p->revents.to_ulong()));
			count("pollables not ready");
		}
		if(res.empty() && !err) return bad("errno", "poll() returns nothing without error code");
		if(!res.empty() && err) return bad("errno", fmt("poll() returns pollables with error code %d", err));
		if(res.empty() && err != EAGAIN && err != EINTR) return bad("errno", fmt("poll() without anything ready sets errno %d", err));
	}

	void poll()
	{
		std::vector<unsigned long> before;
		unsigned long any = 0;
		if(r.chance(1, 3)) for(auto& g : regs) if(g.p) { g.user = (void*)(uintptr_t)(++tag); g.p->user_data = g.user; }
		for(auto& g : regs) {
			before.push_back(truth(*g.t, g.events, b));
			if(g.in) any |= before.back();
		}
		int timeout = r.chance(1, b == LOOP_ ? 3 : 12) ? (int)r.range(1, 4) : 0;
		if(any && r.chance(1, 3)) timeout = r.flip() ? -1 : 100000;
		if(b == LOOP_ && !any && r.chance(1, 3)) timeout = 0;
		// Somebody makes one ready while it blocks.
		std::thread th;
		bool threaded = false;
		if(!any && b != LOOP_ && inCount() && r.chance(1, 10)) {
			for(auto& g : regs) if(g.in && (g.events & Pollable::PollIn) && (g.t->kind == "pipe(r)" || g.t->kind == "socket" || g.t->kind == "FileLayer") && g.t->peer >= 0) {
				int fd = g.t->peer;
				unsigned us = (unsigned)r.below(2500);
				th = std::thread([fd, us] { usleep(us); ssize_t n = write(fd, "x", 1); (void)n; });
				threaded = true;
				timeout = r.flip() ? -1 : 100000;
				trace += "async ";
				count("polls that were woken up by another thread");
				break;
			}
		}
		trace += fmt("poll(%d) ", timeout);
		auto t0 = Clock::now();
		errno = 0;
		auto const& res = doPoll(timeout);
		int err = errno;
		double ms = std::chrono::duration<double, std::milli>(Clock::now() - t0).count();
		if(threaded) {
			th.join();
			if(res.empty()) return bad("woken", fmt("poll(%d) returned nothing with errno %d, before the timeout", timeout, err));
		}
		verify(res, before, err, threaded);
		if(!any && !threaded && timeout > 0 && b != LOOP_ && err == EAGAIN) {
			count("polls that timed out");
			if(ms < timeout - 1.01) bad("timeout", fmt("poll(%d) returned after %.3f ms", timeout, ms));
		}
		if(ms > 50000) bad("timeout", fmt("poll(%d) with something ready took %.0f ms", timeout, ms));
	}

	typename P::Result const& doPoll(int timeout)
	{
		if constexpr(IsPoller<P>::value) {
			if(r.chance(1, 4)) return poller->poll(timeout < 0 ? (long)timeout : (long)timeout * 1000L - (timeout ? (long)r.below(2) * 999 : 0)); // us
		}
		return poller->poll(timeout);
	}

	// Old interface: the poller owns the pollables.
	void old()
	{
		if constexpr(IsPoller<P>::value) {
			size_t i = regs.size();
			for(size_t j = 0; j < 5 && !regs.empty(); j++) {
				size_t k = (size_t)r.below(regs.size());
				if(!regs[k].p) { i = k; break; }
			}
			int res = 0;
			if(i == regs.size() || r.chance(1, 4)) {
				if(regs.size() > 12) return;
				Reg g;
				g.t = makeThing(r, randKind());
				if(g.t->kind == "callback") return;
				g.events = randEvents();
				g.user = (void*)(uintptr_t)(++tag);
				Thing& t = *g.t;
				if(t.zlayer && r.flip()) { t.kind = "ZmqLayer by layer"; res = poller->add(*t.zlayer, g.user, g.events); }
				else if(t.zsock) res = poller->add(t.zsock, g.user, g.events);
				else if(t.flayer && r.flip()) { t.kind = "FileLayer by layer"; res = poller->add(static_cast<stored::PolledFileLayer&>(*t.flayer), g.user, g.events); }
				else res = poller->add(t.fd, g.user, g.events);
				if(res) return bad("old add", "add() of " + t.kind + fmt(" returns %d", res));
				g.in = true;
				trace += "+old " + t.kind + fmt("/%lx ", g.events);
				regs.push_back(g);
			} else {
				Reg& g = regs[i];
				Thing& t = *g.t;
				bool mod = r.flip();
				unsigned long ev = randEvents();
				if(t.kind == "ZmqLayer by layer") res = mod ? poller->modify(*t.zlayer, ev) : poller->remove(*t.zlayer);
				else if(t.zsock) res = mod ? poller->modify(t.zsock, ev) : poller->remove(t.zsock);
				else if(t.kind == "FileLayer by layer") {
					auto& l = static_cast<stored::PolledFileLayer&>(*t.flayer);
					res = mod ? poller->modify(l, ev) : poller->remove(l);
				} else res = mod ? poller->modify(t.fd, ev) : poller->remove(t.fd);
				trace += mod ? fmt("modify old %zu/%lx ", i, ev) : fmt("-old %zu ", i);
				if(res) return bad(mod ? "old modify" : "old remove", t.kind + fmt(": returns %d", res));
				if(mod) g.events = ev;
				else regs.erase(regs.begin() + (long)i);
			}
			count("operations of the deprecated interface");
		}
	}

	void run()
	{
		onceError.clear();
		onceAgain = r.flip();
		if(r.chance(1, 4)) {
			Reg a = make(randKind()), c = make(randKind());
			std::initializer_list<std::reference_wrapper<Pollable>> l = {*a.p, *c.p};
			poller.reset(new P(l));
			a.in = c.in = true;
			regs.push_back(a);
			regs.push_back(c);
			trace += "+" + a.t->kind + fmt("/%lx", a.events) + " +" + c.t->kind + fmt("/%lx ", c.events);
		} else poller.reset(new P());
		for(int i = 0, n = (int)r.range(5, 60); i < n && !ctx().caseViolated; i++) {
			switch(r.below(12)) {
			case 0: case 1: add(); break;
			case 2: remove(); break;
			case 3: old(); break;
			case 4: case 5: case 6: if(!regs.empty()) { auto& g = r.pick(regs); change(r, *g.t); trace += "c "; } break;
			case 7: if(r.chance(1, 8)) {
				poller->clear();
				regs.clear();
				trace += "clear ";
			} else poller->reserve((size_t)r.below(20));
			break;
			case 8: if(b == LOOP_ && !regs.empty()) { // an error is reported as such
				for(auto& g : regs) if(g.in && g.t->fd >= 0) {
					onceError[g.t->fd] = EIO;
					errno = 0;
					auto const& res = poller->poll(0);
					if(errno != EIO || !res.empty()) bad("error", fmt("an I/O error gives errno %d and %zu pollables", errno, res.size()));
					onceError.clear();
					count("polls with errors");
					break;
				}
			} else if(b != LOOP_ && r.chance(1, 4)) for(auto& g : regs) if(g.in && g.t->kind == "event") { // close it while it is registered
				int fd = g.t->fd;
				::close(fd);
				errno = 0;
				auto const& res = poller->poll(0);
				bool found = false;
				for(auto& x : res) if(g.p && x.p == g.p.get()) found = (x.revents & Pollable::PollErr) != 0;
				if(g.p && !found) bad("closed", "an invalid descriptor is not reported as error");
				int n = eventfd(0, EFD_NONBLOCK);
				if(n != fd) { dup2(n, fd); ::close(n); }
				count("polls with invalid descriptors");
				break;
			}
			break;
			default: poll();
			}
			if(poller->empty() != (inCount() == 0)) bad("empty", fmt("empty() gives %d with %zu pollables", (int)poller->empty(), inCount()));
		}
		if(r.flip()) poller->clear();
		poller.reset();
		regs.clear();
		sig(trace);
		if(ctx().caseNo < 6) sample(trace);
	}
};

int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN);
	zctx = zmq_ctx_new();
	zmq_ctx_set(zctx, ZMQ_MAX_SOCKETS, 10000);
	int res = runMain(argc, argv, [](Rng& r) {
#ifdef STORED_POLL_POLL
		Backend def = POLL_;
#else
		Backend def = ZMQ_;
#endif
		int k = (int)r.below(6);
		if(k < 2) Model<stored::Poller>(r, def).run();
		else if(k == 2) Model<stored::CustomPoller<stored::ZmqPoller>>(r, ZMQ_).run();
		else if(k < 5) Model<stored::CustomPoller<stored::PollPoller>>(r, POLL_).run();
		else Model<stored::CustomPoller<stored::LoopPoller>>(r, LOOP_).run();
	});
	zmq_ctx_term(zctx);
	return res;
}
