// C26: transports (files, pipes, stdio, serial, ZMQ) carry all data, in order.
#include "common.h"
#include <libstored/protocol.h>
#include <libstored/zmq.h>
#include <atomic>
#include <chrono>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <zmq.h>
using namespace vf;
typedef std::chrono::steady_clock Clock;

// ---------------------------------------------------------------- injected faults in the calls by the library

static thread_local Rng* faults; // only set while in the library
static thread_local bool noIntr;
static std::atomic<uint64_t> nIntr, nPartial, nAgain, nPollIntr;
extern "C" {
ssize_t __real_read(int fd, void* b, size_t n);
ssize_t __real_write(int fd, void const* b, size_t n);
int __real_zmq_poll(zmq_pollitem_t* items, int n, long timeout);
int __real_usleep(useconds_t us);

ssize_t __wrap_read(int fd, void* b, size_t n)
{
	if(faults) switch(faults->below(12)) {
	case 0: nIntr++; errno = EINTR; return -1;
	case 1: n = n > 1 ? (size_t)faults->range(1, (int64_t)n) : n; break;
	default:;
	}
	return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, void const* b, size_t n)
{
	if(faults) switch(faults->below(12)) {
	case 0: nIntr++; errno = EINTR; return -1;
	case 1: case 2: if(n > 1) { n = (size_t)faults->range(1, (int64_t)n); nPartial++; } break;
	case 3: nAgain++; errno = EAGAIN; return -1;
	default:;
	}
	return __real_write(fd, b, n);
}
int __wrap_zmq_poll(zmq_pollitem_t* items, int n, long timeout)
{
	if(faults && timeout < 0 && faults->below(8) == 0) { nPollIntr++; errno = EINTR; return -1; }
	return __real_zmq_poll(items, n, timeout);
}
int __wrap_usleep(useconds_t us) { return __real_usleep(us > 100000 ? 1000 : us); }
}

struct Lib { // in the library
	Rng r;
	Lib(Rng& x) : r(x.next()) { faults = &r; }
	~Lib() { faults = nullptr; }
};

// ---------------------------------------------------------------- helpers

class Top : public stored::ProtocolLayer { // what is received
public:
	std::string all;
	std::vector<std::string> msgs;
	std::function<void(std::string const&)> onMsg;
	void decode(void* buffer, size_t len) override
	{
		Rng* f = faults;
		faults = nullptr;
		std::string s(static_cast<char*>(buffer), len);
		all += s;
		msgs.push_back(s);
		memset(buffer, 0xee, len); // layers may decode in place
		faults = f;
		if(onMsg) onMsg(s);
	}
};

static std::string dir; // scratch
static uint64_t unique;
static std::string trace;
static void* zctx;

static int openFds()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	while(struct dirent* e = readdir(d)) {
		char b[100];
		ssize_t l = readlinkat(dirfd(d), e->d_name, b, sizeof(b));
		if(l > 0 && std::string(b, (size_t)l).find("anon_inode") == std::string::npos) n++; // (of the ZMQ context)
	}
	closedir(d);
	return n;
}

static std::string content(Rng& r, size_t n, bool text = false)
{
	std::string s = r.bytes(n);
	if(text) for(auto& c : s) if(c == 0x16) c = 'x';
	return s;
}

static size_t msgSize(Rng& r)
{
	switch(r.below(8)) {
	case 0: return (size_t)r.range(3000, 20000);
	case 1: return (size_t)r.range(120, 140); // around the buffer size
	case 2: return (size_t)r.range(4090, 4100);
	case 3: return 1;
	default: return (size_t)r.range(1, 400);
	}
}

static void bad(std::string const& key, std::string const& m) { violation(key, m + " | " + trace); }

static void compare(char const* what, std::string const& got, std::string const& exp)
{
	if(got == exp) return;
	size_t i = 0;
	while(i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
	bad(what, fmt("%s: %zu bytes received of %zu, which differ from byte %zu: %s instead of %s", what, got.size(), exp.size(), i, hex(got.substr(i, 10)).c_str(), hex(exp.substr(i, 10)).c_str()));
}

// The other end of a connection, in a thread of its own: reads (slowly), and writes.
struct Peer {
	int rfd, wfd;
	std::string got, toSend;
	size_t sent = 0;
	size_t closeAfter = SIZE_MAX; // stop after reading this number of bytes
	size_t want = 0;
	std::atomic<bool> stop{false};
	std::atomic<size_t> nGot{0};
	std::atomic<bool> done{false};
	Rng r;
	std::thread th;
	unsigned pause;

	Peer(int rf, int wf, Rng& x) : rfd(rf), wfd(wf), r(x.next()), pause((unsigned)r.below(4)) {}
	void start() { th = std::thread([this] { run(); }); }
	void run()
	{
		char buf[5000];
		while(true) {
			struct pollfd p[2] = {{rfd, POLLIN, 0}, {wfd, (short)(sent < toSend.size() ? POLLOUT : 0), 0}};
			if(sent >= toSend.size()) p[1].fd = -1;
			::poll(p, 2, 2);
			bool idle = true;
			size_t n = (size_t)r.range(1, r.flip() ? 100 : 5000);
			if(n > closeAfter - got.size()) n = closeAfter - got.size();
			if(rfd >= 0 && n) {
				ssize_t c = __real_read(rfd, buf, n);
				if(c > 0) { got.append(buf, (size_t)c); nGot = got.size(); idle = false; }
			}
			if(wfd >= 0 && sent < toSend.size()) {
				size_t m = std::min<size_t>(toSend.size() - sent, (size_t)r.range(1, 500));
				ssize_t c = __real_write(wfd, toSend.data() + sent, m);
				if(c > 0) { sent += (size_t)c; idle = false; }
			}
			if(got.size() >= closeAfter && sent >= toSend.size()) break;
			if(stop && idle) break;
			if(pause && r.below(8) == 0) __real_usleep((unsigned)r.below(50u * pause));
		}
		done = true;
	}
	void join() { stop = true; if(th.joinable()) th.join(); }
	~Peer() { join(); }
};

static void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }

// Encode a message in parts; returns the last error.
static int encode(Rng& r, stored::PolledLayer& l, std::string const& m)
{
	size_t i = 0;
	int e = 0;
	while(true) {
		size_t n = m.size() - i;
		if(r.chance(1, 4) && n > 1) n = (size_t)r.range(1, (int64_t)n - 1);
		bool last = i + n == m.size();
		std::string part = m.substr(i, n); // exact allocation
		{
			Lib lib(r);
			if(part.empty() && r.flip()) l.encode(nullptr, 0, last);
			else l.encode(part.data(), part.size(), last);
		}
		if(l.lastError()) e = l.lastError();
		i += n;
		if(last) return e;
	}
}

static int recv(Rng& r, stored::PolledLayer& l, long timeout)
{
	int e;
	{
		Lib lib(r);
		e = l.recv(timeout);
	}
	count("receives");
	return e;
}

// Receive what is expected, in any way.
static void recvAll(Rng& r, stored::PolledLayer& l, Top& top, std::string const& exp, bool mayBlock)
{
	auto t0 = Clock::now();
	while(top.all.size() < exp.size() && !ctx().caseViolated) {
		long timeout = 0;
		size_t before = top.all.size();
		switch(r.below(mayBlock ? 4 : 3)) {
		case 0: timeout = 500; break;
		case 1: timeout = 3000; break;
		case 2: break;
		default: timeout = -1;
		}
		int e = recv(r, l, timeout);
		if(e && e != EAGAIN && e != EINTR) return bad("receive error", fmt("recv(%ld) returns %d with %zu bytes of %zu received", timeout, e, top.all.size(), exp.size()));
		if(l.lastError() != e) return bad("last error", fmt("recv(%ld) returns %d, but lastError() is %d", timeout, e, l.lastError()));
		if(e && top.all.size() != before) return bad("receive error", fmt("recv() returns %d, but received data", e));
		if(timeout == -1 && e == EAGAIN) return bad("not blocking", "recv(-1) returns EAGAIN, while there is a peer");
		if(Clock::now() - t0 > std::chrono::seconds(20)) return bad("lost", fmt("nothing more is received; %zu bytes of %zu", top.all.size(), exp.size()));
	}
	if(!ctx().caseViolated) compare("received", top.all, exp);
}

static void timeouts(Rng& r, stored::PolledLayer& l, Top& top)
{
	long t = r.flip() ? 0 : r.range(1, 4000);
	size_t before = top.all.size();
	auto t0 = Clock::now();
	int e = recv(r, l, t);
	double us = std::chrono::duration<double, std::micro>(Clock::now() - t0).count();
	if(top.all.size() != before) return bad("invented", "data is received, that nobody sent");
	if(e != EAGAIN && !(e == EINTR)) return bad("receive error", fmt("recv(%ld) without data returns %d", t, e));
	if(e == EAGAIN && us + 1001 < (double)t) bad("timeout", fmt("recv(%ld) returned after %.0f us", t, us));
	count("receive timeouts");
}

// ---------------------------------------------------------------- file descriptors

static void drain(Peer& p, size_t n)
{
	auto t0 = Clock::now();
	while(p.nGot < n && !p.done && Clock::now() - t0 < std::chrono::seconds(20)) __real_usleep(100);
	p.join();
}

// Makes a pair of connected descriptors: layer's (r, w), and the peer's (r, w).
static void descriptors(Rng& r, int (&a)[2], int (&b)[2])
{
	if(r.flip()) {
		int p[2], q[2];
		if(pipe(p) || pipe(q)) abort();
		a[0] = p[0]; b[1] = p[1];
		b[0] = q[0]; a[1] = q[1];
		fcntl(a[1], F_SETPIPE_SZ, 4096);
		fcntl(b[1], F_SETPIPE_SZ, 4096);
		trace += "pipes ";
	} else {
		int s[2];
		if(socketpair(AF_UNIX, SOCK_STREAM, 0, s)) abort();
		int n = 4096;
		for(int f : s) setsockopt(f, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
		a[0] = s[0]; a[1] = -1;
		b[0] = s[1]; b[1] = -1;
		trace += "sockets ";
	}
}

static void files(Rng& r)
{
	int a[2], b[2];
	descriptors(r, a, b);
	bool pipes = a[1] >= 0;
	size_t bufSize = r.flip() ? stored::FileLayer::DefaultBufferSize : (size_t)r.range(1, 3000);
	stored::FileLayer l(a[0], a[1], bufSize);
	Top top;
	top.stack(l);
	if(l.lastError() || !l.isOpen() || l.fd() != a[0]) return bad("open", "the layer is not open");
	nb(b[0]);
	if(b[1] >= 0) nb(b[1]);
	int bw = b[1] >= 0 ? b[1] : b[0];
	bool lose = r.chance(1, 3);
	std::string out, in;
	{
		Peer p(b[0], bw, r);
		int n = (int)r.range(1, 12);
		std::vector<std::string> msgs;
		size_t total = 0;
		for(int i = 0; i < n; i++) {
			msgs.push_back(content(r, r.chance(1, 10) ? 0 : msgSize(r)));
			total += msgs.back().size();
		}
		p.toSend = in = content(r, (size_t)(r.flip() ? r.range(0, 100) : r.range(0, 12000)));
		if(lose) p.closeAfter = (size_t)r.below(total + 1);
		p.start();
		bool error = false;
		for(auto& m : msgs) {
			if(ctx().caseViolated) break;
			int e = 0;
			if(lose) { // the peer reads a part only, and goes; do not wait for it
				if(p.done) break;
				if(p.closeAfter < out.size() + m.size() + 10000) { out += m; break; }
			}
			e = encode(r, l, m);
			if(e) { bad("encode error", fmt("encode() of %zu bytes after %zu bytes gives %d", m.size(), out.size(), e)); error = true; break; }
			out += m;
			count("messages over descriptors");
			count("bytes over descriptors", m.size());
			trace += fmt("%zu ", m.size());
			if(r.chance(1, 3)) { int e2 = recv(r, l, 0); if(e2 && e2 != EAGAIN) bad("receive error", fmt("recv(0) returns %d", e2)); }
		}
		if(!error && !ctx().caseViolated) {
			recvAll(r, l, top, in, true);
			if(!lose) {
				drain(p, out.size());
				if(!ctx().caseViolated) compare("sent", p.got, out);
				if(!ctx().caseViolated) timeouts(r, l, top);
			} else {
				p.join();
				if(p.got != out.substr(0, p.got.size())) compare("sent", p.got, out);
			}
		}
		p.join();
	}
	if(!ctx().caseViolated) { // the peer goes, after sending some
		std::string tail = content(r, (size_t)r.range(0, 2000));
		if(__real_write(bw, tail.data(), tail.size()) != (ssize_t)tail.size()) harnessError("write");
		bool early = r.flip();
		std::string all = in + tail;
		if(early) { // still blocked in an encode()
			bool fill = r.flip();
			Rng r2(r.next());
			std::thread closer([&] {
				__real_usleep((unsigned)r2.below(1000));
				if(pipes) ::close(b[0]);
				else shutdown(b[0], SHUT_RDWR);
			});
			trace += fill ? "(lost while blocked) " : "(lost) ";
			int e = 0;
			auto t0 = Clock::now();
			if(!pipes) { if(r.flip()) recvAll(r, l, top, all, true); }
			for(int i = 0; !e && !ctx().caseViolated; i++) {
				e = encode(r, l, content(r, fill ? 20000 : 100));
				if(!fill) __real_usleep(100);
				if(Clock::now() - t0 > std::chrono::seconds(20)) bad("peer lost", "encode() does not report that the peer is lost");
			}
			closer.join();
			count("peers lost while sending");
			if(l.isOpen() || l.fd() != -1) bad("peer lost", fmt("the layer is open after encode() reported %d", e));
			if(encode(r, l, "x") == 0) bad("peer lost", "encode() on a closed layer succeeds");
			int e2 = recv(r, l, r.flip() ? 0 : -1);
			if(e2 == 0 || e2 == EAGAIN) bad("peer lost", fmt("recv() on a closed layer gives %d", e2));
		} else {
			trace += "(closed) ";
			if(b[1] >= 0) { ::close(b[1]); b[1] = -1; }
			else shutdown(b[0], SHUT_WR);
			for(int i = 0; i < 100000 && top.all.size() < all.size() && !ctx().caseViolated; i++) {
				int e = recv(r, l, r.flip() ? 0 : 1000);
				if(e && e != EAGAIN && e != EINTR) bad("receive error", fmt("recv() gives %d before all data is received of a peer that went", e));
			}
			if(!ctx().caseViolated) compare("received from a peer that went", top.all, all);
			count("peers lost while receiving");
		}
	}
	::close(b[0]);
	if(b[1] >= 0) ::close(b[1]);
}

// A file that grows is read, and another one is written.
static void regular(Rng& r)
{
	std::string fr = dir + fmt("/r%" PRIu64, ++unique), fw = dir + fmt("/w%" PRIu64, unique);
	std::string in, out;
	if(r.flip()) { // exists
		out = content(r, (size_t)r.below(50));
		int f = open(fw.c_str(), O_WRONLY | O_CREAT, 0600);
		if(__real_write(f, out.data(), out.size()) < 0) abort();
		::close(f);
	}
	{
		stored::FileLayer l(fr.c_str(), fw.c_str(), (size_t)r.range(1, 300));
		Top top;
		top.stack(l);
		if(l.lastError()) bad("open", fmt("files: %d", l.lastError()));
		int g = open(fr.c_str(), O_WRONLY | O_APPEND);
		for(int i = 0; i < 10 && !ctx().caseViolated; i++) {
			std::string m = content(r, (size_t)r.below(1000));
			if(r.flip()) {
				if(__real_write(g, m.data(), m.size()) < 0) abort();
				in += m;
			} else {
				int e = encode(r, l, m);
				if(e) bad("encode error", fmt("encode() to a file gives %d", e));
				out += m;
			}
			count("messages over files");
			if(r.flip()) recvAll(r, l, top, in, false);
		}
		if(!ctx().caseViolated) recvAll(r, l, top, in, false);
		if(!ctx().caseViolated && recv(r, l, 0) != EAGAIN) bad("receive error", "recv() at the end of a file is not EAGAIN");
		::close(g);
	}
	std::string got(out.size() + 100, 0);
	int f = open(fw.c_str(), O_RDONLY);
	ssize_t n = __real_read(f, &got[0], got.size());
	got.resize(n > 0 ? (size_t)n : 0);
	::close(f);
	if(!ctx().caseViolated) compare("file", got, out);
	unlink(fr.c_str());
	unlink(fw.c_str());
	{
		stored::FileLayer l("/nonexistent/libstored");
		if(!l.lastError() || l.isOpen()) bad("open", "opening a file that cannot be opened gives no error");
		if(!encode(r, l, "x") || !recv(r, l, 0)) bad("open", "using a file that cannot be opened gives no error");
	}
}

// ---------------------------------------------------------------- named pipes

static void named(Rng& r)
{
	std::string name = dir + fmt("/f%" PRIu64, ++unique);
	{
		stored::NamedPipeLayer w(name.c_str(), stored::NamedPipeLayer::Outbound);
		if(w.lastError()) return bad("open", fmt("outbound named pipe: %d", w.lastError()));
		for(int session = 0, n = (int)r.range(1, 4); session < n && !ctx().caseViolated; session++) {
			trace += "session ";
			// nobody reads
			std::string lost = content(r, 100);
			if(r.flip() && !encode(r, w, lost)) return bad("peer lost", "encode() without a reader gives no error");
			std::string out, in;
			if(r.flip()) { // raw reader
				int fd = open(name.c_str(), O_RDONLY | O_NONBLOCK);
				{
					Peer p(fd, -1, r);
					p.start();
					for(int i = 0, k = (int)r.range(1, 8); i < k && !ctx().caseViolated; i++) {
						std::string m = content(r, msgSize(r));
						int e = encode(r, w, m);
						if(e) bad("encode error", fmt("encode() to a named pipe gives %d", e));
						out += m;
						trace += fmt("%zu ", m.size());
						count("messages over named pipes");
					}
					drain(p, out.size());
					if(!ctx().caseViolated) compare("named pipe", p.got, out);
				}
				::close(fd);
			} else { // by a layer
				stored::NamedPipeLayer l(name.c_str(), stored::NamedPipeLayer::Inbound);
				Top top;
				top.stack(l);
				if(l.lastError()) return bad("open", fmt("inbound named pipe: %d", l.lastError()));
				if(r.flip() && recv(r, l, 0) != EAGAIN) bad("receive error", "recv() without a writer is not EAGAIN");
				std::vector<std::string> ms;
				for(int i = 0, k = (int)r.range(1, 8); i < k; i++) { ms.push_back(content(r, msgSize(r))); in += ms.back(); trace += fmt("%zu ", ms.back().size()); }
				std::atomic<int> err{0};
				Rng r2(r.next());
				bool close = r.flip();
				std::thread th([&] {
					for(auto& m : ms) {
						if(int e = encode(r2, w, m)) err = e;
						if(r2.flip()) __real_usleep((unsigned)r2.below(300));
					}
					if(close) w.reopen(); // the writer goes (and comes back)
				});
				auto t0 = Clock::now();
				while(top.all.size() < in.size() && !ctx().caseViolated) {
					int e = recv(r, l, r.flip() ? 0 : r.flip() ? -1 : 1000);
					if(e && e != EAGAIN && e != EINTR) { bad("receive error", fmt("named pipe recv() gives %d", e)); break; }
					if(Clock::now() - t0 > std::chrono::seconds(20)) { bad("lost", fmt("nothing more is received over a named pipe; %zu of %zu", top.all.size(), in.size())); break; }
				}
				if(ctx().caseViolated) { int fd = open(name.c_str(), O_RDONLY | O_NONBLOCK); Peer p(fd, -1, r); p.start(); th.join(); p.join(); ::close(fd); return; }
				th.join();
				if(err) bad("encode error", fmt("encode() to a named pipe gives %d", err.load()));
				else compare("named pipe", top.all, in);
				if(!ctx().caseViolated && !l.isOpen()) bad("peer lost", "an inbound pipe is closed");
				count("messages over named pipes", ms.size());
			}
			if(ctx().caseViolated) break;
			// The reader is gone. This is reported, and recovered from.
			int e = 0;
			for(int i = 0; i < 3 && !e; i++) e = encode(r, w, "gone");
			if(!e) bad("peer lost", "encode() does not report that the reader is gone");
			count("named pipe sessions");
		}
	}
	unlink(name.c_str());
}

static void doublePipe(Rng& r)
{
	std::string x = dir + fmt("/dx%" PRIu64, ++unique), y = dir + fmt("/dy%" PRIu64, unique);
	{
		stored::DoublePipeLayer a(x.c_str(), y.c_str());
		std::unique_ptr<stored::DoublePipeLayer> b(new stored::DoublePipeLayer(y.c_str(), x.c_str()));
		Top ta, tb;
		ta.stack(a);
		std::unique_ptr<Top> tbp(new Top());
		tbp->stack(*b);
		std::string ab, ba;
		for(int i = 0, n = (int)r.range(2, 30); i < n && !ctx().caseViolated; i++) {
			std::string m = content(r, (size_t)r.range(1, 300));
			switch(r.below(5)) {
			case 0: case 1: if(int e = encode(r, a, m)) bad("encode error", fmt("double pipe: %d", e)); ab += m; count("messages over double pipes"); break;
			case 2: case 3: if(int e = encode(r, *b, m)) bad("encode error", fmt("double pipe: %d", e)); ba += m; count("messages over double pipes"); break;
			default: if(r.chance(1, 3)) { // one goes, and a new one comes
				recvAll(r, a, ta, ba, false);
				if(ctx().caseViolated) break;
				b.reset();
				tbp.reset(new Top());
				int e = 0;
				for(int k = 0; k < 3 && !e; k++) e = encode(r, a, "gone");
				if(!e) { bad("peer lost", "double pipe: the lost peer is not reported"); break; }
				b.reset(new stored::DoublePipeLayer(y.c_str(), x.c_str()));
				tbp->stack(*b);
				ab.clear();
				trace += "new-peer ";
				count("double pipe peers replaced");
			} else if(r.flip()) recvAll(r, a, ta, ba, false);
			else recvAll(r, *b, *tbp, ab, false);
			}
			if(ab.size() > 4000 || ab.size() - tbp->all.size() > 3000) recvAll(r, *b, *tbp, ab, false);
		}
		if(!ctx().caseViolated) recvAll(r, a, ta, ba, false);
		if(!ctx().caseViolated) recvAll(r, *b, *tbp, ab, false);
		if(!ctx().caseViolated && (recv(r, a, 0) != EAGAIN || recv(r, *b, 0) != EAGAIN)) bad("receive error", "double pipe: recv() without data is not EAGAIN");
		sig(fmt("double %zu %zu", ab.size(), ba.size()));
	}
	unlink(x.c_str());
	unlink(y.c_str());
}

// The simulator reads to_xsim, tells on req_xsim how many bytes it read, and writes from_xsim.
static void xsim(Rng& r)
{
	std::string p = dir + fmt("/x%" PRIu64, ++unique);
	{
		stored::XsimLayer l(p.c_str());
		Top top;
		top.stack(l);
		int from = open((p + "_from_xsim").c_str(), O_WRONLY | O_NONBLOCK), req = open((p + "_req_xsim").c_str(), O_WRONLY | O_NONBLOCK);
		bool early = r.flip();
		if(early && !encode(r, l, "x")) bad("peer lost", "xsim: no reader is not reported");
		int to = open((p + "_to_xsim").c_str(), O_RDONLY | O_NONBLOCK);
		if(from < 0 || req < 0 || to < 0) return bad("open", "xsim: cannot open the pipes");
		{ Lib lib(r); l.keepAlive(); }
		std::string sent, got, in;
		auto sim = [&](size_t max) {
			char buf[300];
			ssize_t n = __real_read(to, buf, std::min<size_t>(max, sizeof(buf)));
			for(ssize_t i = 0; i < n; i++) if(buf[i] != stored::XsimLayer::KeepAlive) got += buf[i];
			if(n > 0 && __real_write(req, buf, (size_t)n) != n) harnessError("req");
			return n;
		};
		for(int i = 0, n = (int)r.range(3, 40); i < n && !ctx().caseViolated; i++) {
			std::string m = content(r, (size_t)r.range(1, 60), true);
			switch(r.below(4)) {
			case 0: if(int e = encode(r, l, m)) bad("encode error", fmt("xsim: %d", e)); sent += m; count("messages over xsim pipes"); break;
			case 1: if(__real_write(from, m.data(), m.size()) < 0) abort(); in += m; break;
			case 2: sim((size_t)r.range(1, 300)); break;
			default: recv(r, l, 0);
			}
			if(r.chance(1, 4)) {
				for(int k = 0; k < 20; k++) recv(r, l, 0);
				int avail = 0;
				ioctl(to, FIONREAD, &avail);
				if(avail < 1) bad("xsim", "there is nothing to read for the simulator, which blocks it");
			}
		}
		for(int i = 0; i < 3000 && !ctx().caseViolated && (got.size() < sent.size() || top.all.size() < in.size()); i++) { sim(300); recv(r, l, 0); }
		if(!ctx().caseViolated) compare("to xsim", got, sent);
		if(!ctx().caseViolated) compare("from xsim", top.all, in);
		::close(from);
		::close(req);
		::close(to);
	}
	for(auto s : {"_from_xsim", "_to_xsim", "_req_xsim"}) unlink((p + s).c_str());
}

// ---------------------------------------------------------------- stdio, serial

static void stdio(Rng& r)
{
	int in[2], out[2];
	if(pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) abort();
	fcntl(in[1], F_SETPIPE_SZ, 4096);
	fcntl(out[1], F_SETPIPE_SZ, 4096);
	uint64_t seed = r.next();
	pid_t pid = fork();
	if(!pid) {
		// Echoes all it gets, until it gets nothing anymore.
		dup2(in[0], 0);
		dup2(out[1], 1);
		::close(in[0]); ::close(in[1]); ::close(out[0]); ::close(out[1]);
		Rng c(seed);
		int rc = 0;
		{
			stored::StdioLayer l((size_t)c.range(1, 500));
			Top top;
			top.stack(l);
			top.onMsg = [&](std::string const& s) {
				if(c.chance(1, 10)) { printf("\x1b[p]"); } // stdout's own buffer is not reordered
				if(encode(c, l, s)) rc = 3;
			};
			int idle = 0;
			while(!rc && idle < 2) {
				int e = recv(c, l, c.flip() ? -1 : c.flip() ? 0 : 500);
				if(e && e != EAGAIN && e != EINTR) rc = 4;
				struct pollfd p = {0, POLLIN, 0};
				if(::poll(&p, 1, e ? 50 : 0) == 1 && !(p.revents & POLLIN) && (p.revents & POLLHUP)) idle++;
				else if(!e) idle = 0;
			}
		}
		_exit(rc);
	}
	::close(in[0]);
	::close(out[1]);
	nb(in[1]);
	nb(out[0]);
	std::string m = content(r, (size_t)r.range(1, 15000));
	for(auto& c : m) if(c == 0x1b) c = 'x';
	std::string got;
	{
		Peer p(out[0], in[1], r);
		p.toSend = m;
		p.start();
		auto strip = [](std::string s) { size_t i; while((i = s.find("\x1b[p]")) != std::string::npos) s.erase(i, 4); return s; };
		auto t0 = Clock::now();
		while(p.sent < m.size() && Clock::now() - t0 < std::chrono::seconds(20)) __real_usleep(100);
		::close(in[1]);
		p.wfd = -1;
		int st = 0;
		bool exited = false;
		while(Clock::now() - t0 < std::chrono::seconds(30))
			if(waitpid(pid, &st, WNOHANG) == pid) { exited = true; break; }
			else __real_usleep(500);
		if(!exited) { kill(pid, SIGKILL); waitpid(pid, &st, 0); bad("lost", "stdio: the echo does not end"); }
		else if(!WIFEXITED(st) || WEXITSTATUS(st)) bad("encode error", fmt("stdio: the echo ended with status %x", st));
		p.join();
		got = strip(p.got);
	}
	::close(out[0]);
	if(!ctx().caseViolated) compare("stdio", got, m);
	count("bytes over stdio", m.size());
}

static void serial(Rng& r)
{
	int pt = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
	if(pt < 0 || grantpt(pt) || unlockpt(pt)) {
		if(pt >= 0) ::close(pt);
		count("no pseudo-terminals");
		return;
	}
	{
		char name[100];
		if(ptsname_r(pt, name, sizeof(name))) harnessError("ptsname");
		stored::SerialLayer l(name, 115200, false, false);
		Top top;
		top.stack(l);
		if(l.lastError()) bad("open", fmt("serial: %d", l.lastError()));
		std::string out = "\x11", in;
		Peer p(pt, pt, r);
		p.toSend = in = content(r, (size_t)r.range(1, 3000));
		if(r.flip()) for(int i = 0; i < 256; i++) { in += (char)i; p.toSend = in; }
		p.start();
		for(int i = 0, n = (int)r.range(1, 10); i < n && !ctx().caseViolated; i++) {
			std::string m = content(r, (size_t)r.range(1, 2000));
			if(r.flip()) for(int k = 0; k < 256; k++) m += (char)k;
			if(int e = encode(r, l, m)) bad("encode error", fmt("serial: %d", e));
			out += m;
			count("messages over serial ports");
		}
		if(!ctx().caseViolated) recvAll(r, l, top, in, true);
		drain(p, out.size());
		if(!ctx().caseViolated) compare("serial", p.got, out);
	}
	::close(pt);
}

// ---------------------------------------------------------------- ZMQ

struct Zmsg { // one message, in parts
	std::vector<std::string> parts;
	std::string all() const { std::string s; for(auto& p : parts) s += p; return s; }
};

static Zmsg zmsg(Rng& r)
{
	Zmsg m;
	for(int i = 0, n = r.flip() ? 1 : (int)r.range(1, 4); i < n; i++) m.parts.push_back(content(r, r.chance(1, 5) ? 0 : r.chance(1, 10) ? (size_t)r.range(1000, 30000) : (size_t)r.range(1, 200)));
	return m;
}

static void checkMsgs(char const* what, std::vector<std::string> const& got, std::vector<std::string> const& exp)
{
	for(size_t i = 0; i < exp.size(); i++) {
		if(i >= got.size()) return bad(what, fmt("%s: message %zu (of %zu) did not arrive", what, i, exp.size()));
		if(got[i] != exp[i]) return bad(what, fmt("%s: message %zu has %zu bytes instead of %zu, or other contents", what, i, got[i].size(), exp[i].size()));
	}
	if(got.size() > exp.size()) bad(what, fmt("%s: %zu messages instead of %zu", what, got.size(), exp.size()));
}

static int encodeParts(Rng& r, stored::PolledLayer& l, Zmsg const& m)
{
	int e = 0;
	for(size_t i = 0; i < m.parts.size(); i++) {
		std::string p = m.parts[i];
		{
			Lib lib(r);
			l.encode(p.data(), p.size(), i + 1 == m.parts.size());
		}
		if(l.lastError()) e = l.lastError();
	}
	return e;
}

static void zmqSync(Rng& r)
{
	int kind = (int)r.below(3);
	std::string ep = kind == 0 ? fmt("inproc://t%" PRIu64, ++unique) : kind == 1 ? std::string("tcp://127.0.0.1:*") : "ipc://" + dir + fmt("/z%" PRIu64, ++unique);
	trace += ep.substr(0, 6) + " ";
	int hwm = (int)r.range(1, 4), sz = 4096;
	bool layerPeer = r.flip();
	auto tune = [&](void* s) {
		int zero = 0;
		zmq_setsockopt(s, ZMQ_LINGER, &zero, sizeof(zero));
		zmq_setsockopt(s, ZMQ_SNDHWM, &hwm, sizeof(hwm));
		zmq_setsockopt(s, ZMQ_RCVHWM, &hwm, sizeof(hwm));
		zmq_setsockopt(s, ZMQ_SNDBUF, &sz, sizeof(sz));
		zmq_setsockopt(s, ZMQ_RCVBUF, &sz, sizeof(sz));
	};
	// One end: a layer that listens, but with options that must be set before.
	struct Listen : public stored::ZmqLayer {
		Listen() : ZmqLayer(zctx, ZMQ_DEALER) {}
	};
	std::unique_ptr<stored::ZmqLayer> a;
	bool plain = r.flip();
	if(plain) a.reset(new stored::SyncZmqLayer(zctx, ep.c_str(), true));
	else {
		a.reset(new Listen());
		tune(a->socket());
		if(zmq_bind(a->socket(), ep.c_str())) harnessError("bind");
	}
	if(a->lastError()) return bad("open", fmt("SyncZmqLayer: %d", a->lastError()));
	char last[256];
	size_t len = sizeof(last);
	zmq_getsockopt(a->socket(), ZMQ_LAST_ENDPOINT, last, &len);
	Top ta;
	ta.stack(*a);
	int n = (int)r.range(1, 25);
	std::vector<Zmsg> ab, ba;
	std::vector<std::string> eab, eba;
	for(int i = 0; i < n; i++) { ab.push_back(zmsg(r)); eab.push_back(ab.back().all()); }
	for(int i = (int)r.range(0, n); i > 0; i--) { ba.push_back(zmsg(r)); eba.push_back(ba.back().all()); }
	std::vector<std::string> gb;
	std::atomic<bool> fail{false};
	uint64_t seed = r.next();
	std::atomic<size_t> nb_{0};
	std::atomic<bool> stop{false};
	std::thread th([&] { // the other end
		Rng c(seed);
		if(layerPeer) {
			stored::SyncZmqLayer b(zctx, last, false);
			Top tb;
			tb.stack(b);
			int zero = 0;
			zmq_setsockopt(b.socket(), ZMQ_LINGER, &zero, sizeof(zero));
			size_t s = 0;
			while(!stop) {
				// (both blocking in encode() would be a deadlock)
				if(s < ba.size() && nb_ == eab.size() && c.flip()) { if(encodeParts(c, b, ba[s])) fail = true; s++; }
				recv(c, b, c.flip() ? 0 : 200);
				nb_ = tb.msgs.size();
				if(c.chance(1, 4)) __real_usleep((unsigned)c.below(500));
			}
			gb = tb.msgs;
		} else {
			void* b = zmq_socket(zctx, ZMQ_DEALER);
			tune(b);
			zmq_connect(b, last);
			size_t s = 0;
			std::string cur;
			auto get = [&] {
				for(int k = (int)c.below(4); k > 0; k--) {
					zmq_msg_t m;
					zmq_msg_init(&m);
					if(zmq_msg_recv(&m, b, ZMQ_DONTWAIT) >= 0) {
						cur.append((char*)zmq_msg_data(&m), zmq_msg_size(&m));
						if(!zmq_msg_more(&m)) { gb.push_back(cur); cur.clear(); nb_ = gb.size(); }
					}
					zmq_msg_close(&m);
				}
			};
			while(!stop) {
				if(s < ba.size() && c.flip()) {
					for(size_t i = 0; i < ba[s].parts.size(); i++) {
						auto& p = ba[s].parts[i];
						int more = i + 1 < ba[s].parts.size() ? ZMQ_SNDMORE : 0;
						int rc;
						do {
							if(c.flip()) rc = zmq_send(b, p.data(), p.size(), ZMQ_DONTWAIT | more);
							else { // shared with a copy
								zmq_msg_t m, m2;
								zmq_msg_init_size(&m, p.size());
								memcpy(zmq_msg_data(&m), p.data(), p.size());
								zmq_msg_init(&m2);
								zmq_msg_copy(&m2, &m);
								rc = zmq_msg_send(&m2, b, ZMQ_DONTWAIT | more);
								zmq_msg_close(&m2);
								zmq_msg_close(&m);
							}
							if(rc < 0) { get(); __real_usleep(100); }
						} while(rc < 0 && !stop);
					}
					s++;
				}
				get();
				if(c.chance(1, 4)) __real_usleep((unsigned)c.below(500));
			}
			zmq_close(b);
		}
	});
	auto t0 = Clock::now();
	for(auto& m : ab) {
		if(ctx().caseViolated) break;
		int e = encodeParts(r, *a, m);
		if(e) bad("encode error", fmt("ZMQ encode() with %zu parts gives %d", m.parts.size(), e));
		count("messages over ZMQ");
		if(r.chance(1, 3)) recv(r, *a, 0);
	}
	while(!ctx().caseViolated && (ta.msgs.size() < eba.size() || nb_ < eab.size())) {
		long t = r.flip() ? 0 : r.flip() && ta.msgs.size() < eba.size() ? -1 : 500;
		size_t before = ta.msgs.size();
		int e = recv(r, *a, t);
		if(e && e != EAGAIN && e != EINTR) bad("receive error", fmt("ZMQ recv() gives %d", e));
		if(t == -1 && e == EAGAIN && ta.msgs.size() == before) bad("not blocking", "ZMQ recv(-1) returns EAGAIN");
		if(Clock::now() - t0 > std::chrono::seconds(20)) bad("lost", fmt("ZMQ: %zu messages of %zu received, %zu of %zu by the peer", ta.msgs.size(), eba.size(), nb_.load(), eab.size()));
	}
	if(!ctx().caseViolated) timeouts(r, *a, ta);
	stop = true;
	th.join();
	if(fail) bad("encode error", "ZMQ encode() of the peer fails");
	if(!ctx().caseViolated) checkMsgs("ZMQ receive", ta.msgs, eba);
	if(!ctx().caseViolated) checkMsgs("ZMQ send", gb, eab);
	int zero = 0;
	zmq_setsockopt(a->socket(), ZMQ_LINGER, &zero, sizeof(zero));
}

static void zmqDebug(Rng& r)
{
	stored::DebugZmqLayer l(r.flip() ? zctx : nullptr, 0);
	if(l.lastError()) return bad("open", fmt("DebugZmqLayer: %d", l.lastError()));
	char last[256];
	size_t len = sizeof(last);
	zmq_getsockopt(l.socket(), ZMQ_LAST_ENDPOINT, last, &len);
	std::string ep = last;
	ep = "tcp://127.0.0.1" + ep.substr(ep.rfind(':'));
	Top top;
	top.stack(l);
	std::vector<std::string> reqs, reps, gotReps;
	std::vector<Zmsg> q, p;
	int n = (int)r.range(1, 10);
	for(int i = 0; i < n; i++) {
		q.push_back(zmsg(r));
		p.push_back(zmsg(r));
		reqs.push_back(q.back().all());
		reps.push_back(p.back().all());
	}
	size_t k = 0;
	top.onMsg = [&](std::string const&) {
		if(k < p.size() && encodeParts(r, l, p[k])) bad("encode error", fmt("DebugZmqLayer: response gives %d", l.lastError()));
		k++;
	};
	std::atomic<bool> done{false};
	std::thread th([&] {
		void* s = zmq_socket(zctx, ZMQ_REQ);
		int zero = 0, to = 30000;
		zmq_setsockopt(s, ZMQ_LINGER, &zero, sizeof(zero));
		zmq_setsockopt(s, ZMQ_RCVTIMEO, &to, sizeof(to));
		zmq_connect(s, ep.c_str());
		for(auto& m : q) {
			for(size_t i = 0; i < m.parts.size(); i++) zmq_send(s, m.parts[i].data(), m.parts[i].size(), i + 1 < m.parts.size() ? ZMQ_SNDMORE : 0);
			std::string cur;
			int more = 0;
			do {
				zmq_msg_t x;
				zmq_msg_init(&x);
				if(zmq_msg_recv(&x, s, 0) < 0) { zmq_msg_close(&x); goto out; }
				cur.append((char*)zmq_msg_data(&x), zmq_msg_size(&x));
				more = zmq_msg_more(&x);
				zmq_msg_close(&x);
			} while(more);
			gotReps.push_back(cur);
		}
	out:
		zmq_close(s);
		done = true;
	});
	while(!done) recv(r, l, r.flip() ? 0 : 1000);
	th.join();
	count("requests over ZMQ", reqs.size());
	if(!ctx().caseViolated) checkMsgs("ZMQ requests", top.msgs, reqs);
	if(!ctx().caseViolated) checkMsgs("ZMQ responses", gotReps, reps);
	int zero = 0;
	zmq_setsockopt(l.socket(), ZMQ_LINGER, &zero, sizeof(zero));
}

int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN);
	signal(SIGHUP, SIG_IGN); // by a pseudo-terminal
	char tmpl[200]; snprintf(tmpl, sizeof(tmpl), "%s/tr-XXXXXX", getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp");
	if(!mkdtemp(tmpl)) harnessError("mkdtemp");
	dir = tmpl;
	zctx = zmq_ctx_new();
	zmq_ctx_set(zctx, ZMQ_MAX_SOCKETS, 10000);
	struct W { char const* name; void (*f)(Rng&); int weight; bool zmq; };
	static W const ws[] = {{"files", files, 12, false}, {"regular", regular, 3, false}, {"named", named, 6, false}, {"double", doublePipe, 6, false}, {"xsim", xsim, 4, false},
		{"stdio", stdio, 2, false}, {"serial", serial, 2, false}, {"zmq", zmqSync, 6, true}, {"zmqdebug", zmqDebug, 3, true}};
	int total = 0;
	for(auto& w : ws) total += w.weight;
	int res = runMain(argc, argv, [&](Rng& r) {
		int k = (int)r.below((uint64_t)total);
		W const* w = ws;
		while(k >= w->weight) k -= (w++)->weight;
		trace = std::string(w->name) + ": ";
		label(w->name);
		int fds = w->zmq ? 0 : openFds();
		w->f(r);
		if(!w->zmq && !ctx().caseViolated) {
			int n = openFds();
			for(int i = 0; i < 3000 && n > fds; i++) { __real_usleep(1000); n = openFds(); } // the ZMQ context may still be busy
			if(n > fds) bad("descriptor leak", fmt("%d file descriptors are open after this case, and %d before", n, fds));
		}
		count(std::string("cases ") + w->name);
		sig(trace + fmt("%" PRIu64, r.next()));
		if(ctx().caseNo < 20) sample(trace);
	}, [] {
		count("interrupted reads and writes", nIntr);
		count("partial writes", nPartial);
		count("spurious EAGAIN", nAgain);
		count("interrupted polls", nPollIntr);
	});
	zmq_ctx_term(zctx);
	if(DIR* d = opendir(dir.c_str())) { // left by failed cases
		while(struct dirent* e = readdir(d)) if(e->d_name[0] != '.') { if(unlinkat(dirfd(d), e->d_name, 0)) {} }
		closedir(d);
	}
	rmdir(dir.c_str());
	return res;
}
