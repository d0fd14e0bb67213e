// C12, C13: automatic repeat request layers over a channel that fails.
#pragma once
#include "protoif.h"
#include <libstored/debugger.h>

// ---------------------------------------------------------------- C12

struct ArqPeer {
	Stack s;
	stored::ArqLayer* arq = nullptr;
	std::vector<std::string> msgs; // everything delivered to the upper layer, also before a restart
	size_t events[4] = {};

	void create(std::vector<Spec> const& above, size_t maxBuffer, std::vector<Spec> const& below, Rng& r, bool events_)
	{
		arq = nullptr;
		s.tearDown(r);
		s = Stack();
		auto t = std::make_unique<Recorder>();
		s.top = t.get();
		s.top->hook = [this](std::string const& m) { msgs.push_back(m); };
		s.l.push_back(std::move(t));
		for(auto& x : above) s.l.push_back(makeLayer(x));
		auto a = std::make_unique<stored::ArqLayer>(maxBuffer);
		arq = a.get();
		if(events_ || maxBuffer)
			a->setEventCallback([this](stored::ArqLayer&, stored::ArqLayer::Event e) { events[std::min<size_t>((size_t)e, 3)]++; });
		s.l.push_back(std::move(a));
		for(auto& x : below) s.l.push_back(makeLayer(x));
		auto w = std::make_unique<Wire>(0);
		s.wire = w.get();
		s.l.push_back(std::move(w));
		s.link(r);
	}
};

// A listed finding: a reset that is repeated, because its ack was lost, repeats a message.
static void caseArqHandshake()
{
	Rng r(1);
	ArqPeer p[2];
	for(auto& x : p) x.create({}, 0, {}, r, false);
	auto deliver = [&](int from, bool lost = false) {
		auto& q = p[from].s.wire->out;
		for(size_t n = q.size(); n; n--) {
			std::string f = q.front();
			q.pop_front();
			VERBOSE("%c->%c %s%s\n", 'A' + from, 'B' - from, hex(f).c_str(), lost ? " lost" : "");
			if(!lost) feed(*p[1 - from].s.wire, f);
		}
	};
	auto settle = [&]() {
		for(int i = 0; i < 20; i++) deliver(i % 2);
	};
	for(int i = 0; i < 4; i++) {
		p[i % 2].s.top->flush();
		settle();
	}
	VERBOSE("A resets\n");
	p[0].s.top->reset();
	deliver(0);
	deliver(1);
	deliver(0, true); // the ack of B's reset is lost
	VERBOSE("B sends M\n");
	p[1].s.top->encode("M", 1);
	deliver(1);       // B repeats its reset
	deliver(0);
	deliver(1, true); // B is connected and sends its message, together with the ack of A's reset
	p[1].s.top->flush();
	deliver(1);
	deliver(0, true); // the ack of the message is lost
	VERBOSE("A keeps alive\n");
	p[0].s.top->flush(); // A repeats its reset
	settle();
	for(int i = 0; i < 8; i++) {
		p[i % 2].s.top->flush();
		settle();
	}
	size_t n = 0;
	for(auto& m : p[0].msgs) n += m == "M";
	if(n > 1) violation("handshake-repeats", fmt("A delivers one message %zu times, as the ack of a reset was lost", n));
	else if(!n) violation("handshake-loses", "A never delivers a message, as the ack of a reset was lost");
}

static void caseArq(Rng& r)
{
	if(ctx().caseNo == 0) return caseArqHandshake();
	// 0: connected, then chaos; 1: messages from the start; 2: and resets. While connecting, the channel works.
	unsigned mode = (unsigned)r.below(3);
	std::vector<Spec> above, below;
	static size_t const segs[] = {0, 4, 10, 30};
	if(mode == 0 && r.chance(1, 3)) above.push_back({SEG, segs[r.below(4)]});
	if(r.chance(1, 6)) above.push_back({BUF, r.below(10)});
	if(r.chance(1, 3)) below.push_back({r.flip() ? CRC8 : CRC16, 0});
	if(r.chance(1, 4)) {
		below.push_back({ESC, 0});
		below.push_back({TERM, 0});
	}
	if(r.chance(1, 6)) below.push_back({BUF, r.below(10)});
	if(r.chance(1, 8)) below.push_back({IDLE, 0});
	unsigned pLoss = (unsigned)r.below(4) * 20, pDup = (unsigned)r.below(3) * 20; // percent
	bool reorder = mode == 0 && r.flip();
	size_t maxBuffer = r.chance(1, 4) ? 20 + (size_t)r.below(200) : 0;
	bool ev = r.flip();
	std::string what = fmt("stack %s/Arq/%s, %s, loss %u%%, duplicates %u%%%s", str(above).c_str(), str(below).c_str(), mode == 0 ? "connected first" : mode == 1 ? "sending from the start" : "with resets", pLoss, pDup, reorder ? ", reordered" : "");
	label(what);
	VERBOSE("%s\n", what.c_str());
	ArqPeer p[2];
	for(auto& x : p) x.create(above, maxBuffer, below, r, ev);

	struct Frame { std::string d; size_t stamp; };
	std::deque<Frame> ch[2]; // from side
	std::vector<std::string> sent[2];
	size_t epoch[2] = {0, 0}; // messages before this one may have been dropped by a reset
	size_t next[2] = {0, 0}; // per sender: id of next message expected by its peer
	size_t seen[2] = {0, 0}; // number of delivered messages checked, per sender
	// per sender: a repeat of the last message is possible, as the connection is being made
	bool repeatOk[2] = {true, true};
	bool failed = false; // a frame was lost or duplicated since then
	uint64_t trace = 0;
	bool connecting = true;
	size_t connectsAt[2] = {};
	auto disconnected = [&]() {
		connecting = true;
		for(int s = 0; s < 2; s++) connectsAt[s] = p[s].s.top->connects;
	};

	auto collect = [&]() {
		for(int s = 0; s < 2; s++) {
			auto& q = p[s].s.wire->out;
			while(!q.empty()) {
				ch[s].push_back({q.front(), sent[0].size() + sent[1].size()});
				q.pop_front();
			}
			while(ch[s].size() > (connecting ? 3000U : 60U)) { // also loss
				ch[s].pop_back();
				failed = true;
				count("frames lost");
			}
		}
	};
	auto check = [&]() {
		for(int s = 0; s < 2; s++) { // sender
			auto& got = p[1 - s].msgs;
			for(; seen[s] < got.size(); seen[s]++) {
				std::string const& m = got[seen[s]];
				unsigned id = 0;
				char c = 0;
				if(sscanf(m.c_str(), "%c%u|", &c, &id) != 2 || c != 'A' + s || id >= sent[s].size() || sent[s][id] != m) {
					violation("corrupt message", fmt("%c delivers %s, which was never sent; %s", 'B' - s, show(m).c_str(), what.c_str()));
					return;
				}
				if(id == next[s] || (id > next[s] && id <= epoch[s])) {
					next[s] = id + 1;
					count("messages delivered");
					continue;
				}
				if(id + 1 == next[s]) {
					if(repeatOk[s]) {
						count("messages repeated by a reset");
						// As documented, an ack must have been lost.
						if(!failed) violation("repeat-while-connecting", fmt("%c delivers message %u again while connecting, although no frame was lost; %s", 'B' - s, id, what.c_str()));
						continue;
					}
					violation("delivered twice", fmt("%c delivers message %u again; %s", 'B' - s, id, what.c_str()));
				} else if(id < next[s])
					violation("order", fmt("%c delivers message %u after %zu; %s", 'B' - s, id, next[s] - 1, what.c_str()));
				else
					violation("message skipped", fmt("%c delivers message %u, expected %zu; %s", 'B' - s, id, next[s], what.c_str()));
				return;
			}
		}
	};
	auto deliver = [&](int from, bool perfect) {
		collect();
		auto& q = ch[from];
		if(q.empty()) {
			if(connecting && ch[1 - from].empty() && p[0].s.top->connects > connectsAt[0] && p[1].s.top->connects > connectsAt[1]) {
				VERBOSE("connected\n");
				count("connected");
				connecting = false;
			}
			return;
		}
		if(connecting) perfect = true;
		size_t i = reorder && !perfect ? (size_t)r.below(std::min<size_t>(q.size(), 4)) : 0;
		std::string f = q[i].d;
		size_t stamp = q[i].stamp;
		bool keep = false, drop = false;
		if(!perfect) {
			drop = r.chance(pLoss, 100);
			keep = !drop && r.chance(pDup, 100);
		}
		// Messages that are delayed beyond the range of the sequence numbers, are lost.
		if(reorder && sent[0].size() + sent[1].size() > stamp + 25) drop = true;
		if(!keep) q.erase(q.begin() + (long)i);
		else if(reorder && r.flip()) {
			q.push_back(q[i]);
			q.erase(q.begin() + (long)i);
		}
		VERBOSE("  %c->%c %s%s%s\n", 'A' + from, 'B' - from, hex(f, 16).c_str(), drop ? " lost" : "", keep ? " (will be repeated)" : "");
		trace = hashBytes(&from, sizeof from, trace * 3 + drop * 2 + keep);
		if(drop || keep) failed = true;
		if(drop) {
			count("frames lost");
			return;
		}
		if(keep) count("frames duplicated");
		count("frames delivered");
		feed(*p[1 - from].s.wire, f);
		collect();
		check();
	};
	auto outstanding = [&]() { return sent[0].size() - std::min(next[0], sent[0].size()) + sent[1].size() - std::min(next[1], sent[1].size()); };
	auto settle = [&]() {
		// The channel works from now on.
		size_t todo = outstanding();
		size_t parts = todo * (above.empty() ? 1 : 40);
		size_t rounds = 8 + 2 * parts;
		bool keepAlive = r.flip();
		for(size_t k = 0;; k++) {
			uint64_t limit = 20000 + 200 * parts;
			while(true) {
				collect();
				if(ch[0].empty() && ch[1].empty()) break;
				int from = ch[0].empty() ? 1 : ch[1].empty() ? 0 : (int)r.below(2);
				deliver(from, true);
				if(ctx().caseViolated) return;
				if(!--limit) {
					violation("endless exchange", "the peers keep exchanging frames without progress; " + what);
					return;
				}
			}
			// The messages that a reset dropped at the sender do not arrive.
			bool done = true;
			for(int s = 0; s < 2; s++) done = done && (next[s] >= sent[s].size());
			if(done && k >= 3) {
				countMax("rounds to settle", k);
				break;
			}
			if(k > rounds) {
				violation("not delivered", fmt("messages are missing (%zu of %zu, %zu of %zu) after %zu rounds over a channel that works; %s", next[0], sent[0].size(), next[1], sent[1].size(), k, what.c_str()));
				return;
			}
			for(int s = 0; s < 2; s++) {
				if(keepAlive) p[s].arq->keepAlive();
				else p[s].s.top->flush();
			}
			VERBOSE(" round %zu\n", k);
		}
		repeatOk[0] = repeatOk[1] = failed = false;
		// Once everything is acknowledged, nothing is left to send.
		for(int s = 0; s < 2; s++) {
			if(p[s].arq->waitingForAck()) {
				violation("not acknowledged", fmt("%c still waits for an acknowledgement after everything was delivered; %s", 'A' + s, what.c_str()));
				return;
			}
			if(!p[s].s.top->flush()) violation("not flushed", "flush() reports blocked messages, while everything was acknowledged; " + what);
		}
		collect();
		count("settled");
	};

	disconnected();
	if(mode == 0) settle();
	unsigned phases = 1 + (unsigned)r.below(3);
	for(unsigned ph = 0; ph < phases && !ctx().caseViolated; ph++) {
		unsigned n = 5 + (unsigned)r.below(ctx().thorough ? 400 : 120);
		for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
			switch(r.below(16)) {
			case 0:
			case 1:
			case 2: {
				int s = (int)r.below(2);
				if(sent[s].size() > next[s] + 30) break;
				std::string m = fmt("%c%zu|", 'A' + s, sent[s].size()) + r.bytes(r.size(60));
				sent[s].push_back(m);
				VERBOSE("%c sends %s\n", 'A' + s, show(m, 40).c_str());
				size_t before = p[s].events[std::min<size_t>(3, stored::ArqLayer::EventEncodeBufferOverflow)];
				(void)before;
				bool mid = r.flip();
				send(*p[s].s.top, m, r, [&]() {
					if(mid && r.flip()) deliver((int)r.below(2), false);
				});
				count("messages sent");
				break;
			}
			case 3: {
				int s = (int)r.below(2);
				VERBOSE("%c flushes\n", 'A' + s);
				if(r.flip()) p[s].s.top->flush();
				else p[s].arq->keepAlive();
				break;
			}
			case 4:
				if(mode == 2 && r.chance(1, 5)) {
					int s = (int)r.below(2);
					epoch[s] = sent[s].size();
					// What the other side did not see acknowledged, it sends again.
					repeatOk[1 - s] = failed = true;
					// There are no session numbers: nothing of the old session may be in transit.
					collect();
					ch[0].clear();
					ch[1].clear();
					count("resets");
					if(r.flip()) {
						VERBOSE("%c resets\n", 'A' + s);
						p[s].s.top->reset();
					} else {
						VERBOSE("%c restarts\n", 'A' + s);
						p[s].s.wire->out.clear();
						p[s].create(above, maxBuffer, below, r, ev);
					}
					disconnected();
					break;
				}
				if(r.chance(1, 6)) p[r.below(2)].arq->shrink_to_fit();
				break;
			default: deliver((int)r.below(2), false); break;
			}
			// A reset that is sent again while the response is still under way, confuses both (known finding).
			for(size_t limit = 10000; connecting && !ctx().caseViolated && limit;) {
				collect();
				deliver(ch[0].empty() ? 1 : ch[1].empty() ? 0 : (int)r.below(2), true);
				if(ch[0].empty() && ch[1].empty()) {
					deliver(0, true);
					break;
				}
				if(!--limit) violation("endless exchange", "the peers keep exchanging frames while connecting; " + what);
			}
			check();
		}
		// Nothing sent before a reset comes anymore, once settled.
		if(ctx().caseViolated) break;
		VERBOSE("settle\n");
		for(int s = 0; s < 2; s++)
			if(epoch[s] > next[s] && epoch[s] == sent[s].size()) {
				// Make the last one a message that must arrive.
				std::string m = fmt("%c%zu|end", 'A' + s, sent[s].size());
				sent[s].push_back(m);
				send(*p[s].s.top, m, r);
			}
		settle();
	}
	sig(trace);
	sample(what + fmt(", %zu and %zu messages", sent[0].size(), sent[1].size()));
}

// ---------------------------------------------------------------- C13

// What the client and the target share below the DebugArqLayer, ending in a wire.
struct Below {
	std::vector<std::unique_ptr<ProtocolLayer>> l;
	Wire* wire = nullptr;
	void build(ProtocolLayer& top, std::vector<Spec> const& specs, size_t mtu)
	{
		ProtocolLayer* t = &top;
		for(auto& x : specs) {
			l.push_back(makeLayer(x));
			l.back()->wrap(*t);
			t = l.back().get();
		}
		auto w = std::make_unique<Wire>(mtu);
		wire = w.get();
		w->wrap(*t);
		l.push_back(std::move(w));
	}
};

// A client, written from the description of the protocol in protocol.h.
class DebugClient : public ProtocolLayer {
public:
	uint32_t sendSeq = 1, respSeq = 1;
	std::string collected;
	bool complete = false, resetAck = false, any = false, flagged = false;
	std::string lastBad;

	static uint32_t next(uint32_t s) { return s == 0x7ffffff ? 1 : s + 1; }
	static std::string enc(uint32_t s)
	{
		std::string r;
		if(s >= 0x100000) r += (char)(s >> 21 & 0x3f);
		if(s >= 0x2000) r += (char)(s >> 14 & (r.empty() ? 0x3f : 0x7f));
		if(s >= 0x40) r += (char)(s >> 7 & (r.empty() ? 0x3f : 0x7f));
		r += (char)(s & (r.empty() ? 0x3f : 0x7f));
		for(size_t i = 0; i + 1 < r.size(); i++) r[i] = (char)((uint8_t)r[i] | (i ? 0x80 : 0x40));
		return r;
	}
	void decode(void* buffer, size_t len) override
	{
		std::string f(static_cast<char*>(buffer), len);
		if(f.empty()) return;
		if(f == "\x80") {
			resetAck = true;
			return;
		}
		bool flag = (uint8_t)f[0] & 0x80;
		size_t i = 0;
		uint32_t s = (uint8_t)f[0] & 0x3f;
		bool more = (uint8_t)f[0] & 0x40;
		while(more && ++i < f.size()) {
			s = s << 7 | ((uint8_t)f[i] & 0x7f);
			more = (uint8_t)f[i] & 0x80;
		}
		if(more || i + 1 >= f.size() || !s) {
			violation("malformed response", "the target sends the frame " + hex(f));
			return;
		}
		any = true;
		if(complete) return;
		if(flag) {
			flagged = true;
			collected.clear();
		} else if(s != respSeq)
			return;
		respSeq = next(s);
		collected.append(f, i + 1, f.size() - i - 2);
		char m = f.back();
		if(m == 'E') complete = true;
		else if(m != 'C') violation("malformed response", "the target sends the frame " + hex(f) + " without segmentation marker");
	}
	void sendFrame(std::string const& f)
	{
		Exact e(f);
		ProtocolLayer::encode(e.data(), e.n, true);
	}
};

static void caseDebugArq(Rng& r)
{
	bool debugger = !stored::Config::CompressStreams && r.flip();
	std::vector<Spec> below;
	if(r.chance(1, 3)) below.push_back({r.flip() ? CRC8 : CRC16, 0});
	if(r.chance(1, 4)) {
		below.push_back({ESC, 0});
		below.push_back({TERM, 0});
	}
	if(r.chance(1, 6)) below.push_back({BUF, r.below(10)});
	static size_t const mtus[] = {0, 0, 20, 24, 32, 64, 100, 255, 256, 300};
	size_t wireMtu = mtus[r.below(10)];
	static size_t const segs[] = {0, 2, 3, 4, 7, 16, 32, 100, 256};
	size_t segMtu = segs[r.below(9)];
	size_t buffer = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 5 + (size_t)r.below(100) : 1000 + (size_t)r.below(5000);
	if(debugger) buffer = r.flip() ? 0 : 8000;
	unsigned pLoss = (unsigned)r.below(4) * 15, pDup = (unsigned)r.below(3) * 15;
	std::string what = fmt("%s/Segmentation(%zu)/DebugArq(%zu)/%s, MTU %zu, loss %u%%, duplicates %u%%", debugger ? "Debugger" : "application", segMtu, buffer, str(below).c_str(), wireMtu, pLoss, pDup);
	label(what);
	VERBOSE("%s\n", what.c_str());

	// The target
	struct Request { std::string text; char type; size_t len; unsigned execs; bool sent; };
	std::vector<Request> reqs;
	auto response = [](size_t id, unsigned exec, size_t len) {
		std::string s = fmt("%zu:%u:", id, exec);
		if(s.size() > len) s.resize(len); // only for very short ones
		for(size_t i = s.size(); i < len; i++) s += (char)('a' + (i * 7 + id * 3 + exec) % 26);
		return s;
	};
	Recorder app;
	size_t current = 0; // request being executed by the client
	app.hook = [&](std::string const& m) {
		char t = 0;
		size_t id = 0, len = 0;
		app.msgs.clear();
		if(sscanf(m.c_str(), "%c%zu,%zu|", &t, &id, &len) != 3 || id >= reqs.size() || reqs[id].text != m) {
			violation("corrupt request", fmt("the target gets the request %s (%zu bytes), which was never sent; %s", show(m, 60).c_str(), m.size(), what.c_str()));
			return;
		}
		Request& q = reqs[id];
		q.execs++;
		count("requests executed");
		VERBOSE("target executes %zu (%u)\n", id, q.execs);
		if(id != current) violation("old request executed", fmt("the target executes request %zu while the client is at %zu; %s", id, current, what.c_str()));
		if(q.execs > 1 && t == 'P') {
			violation("executed twice", fmt("request %zu is executed again; %s", id, what.c_str()));
			return;
		}
		std::string resp = response(id, q.execs, len);
		if(t == 'R') app.setPurgeableResponse(true);
		if(t == 'M') {
			size_t n = (size_t)r.below(resp.size() + 1);
			Exact e(resp.substr(0, n));
			app.encode(e.data(), e.n, false);
			app.setPurgeableResponse(true);
			Exact e2(resp.substr(n));
			app.encode(e2.data(), e2.n, true);
			return;
		}
		send(app, resp, r);
	};
	std::unique_ptr<stored::Debugger> dbg;
	if(debugger) dbg = std::make_unique<stored::Debugger>("target");
	stored::SegmentationLayer seg(segMtu);
	stored::DebugArqLayer arq(buffer);
	Below target;
	if(debugger) seg.wrap(*dbg);
	else seg.wrap(app);
	arq.wrap(seg);
	target.build(arq, below, wireMtu);
	size_t chunk = seg.lowerMtu();
	if(chunk == 1) chunk = 2;
	DebugClient client;
	Below cl;
	cl.build(client, below, wireMtu);
	// What fits in one frame of the client.
	size_t cChunk = client.down()->mtu();
	cChunk = cChunk ? (cChunk > 5 ? cChunk - 5 : 1) : 10000;

	// Responses that are surely kept for retransmission
	auto kept = [&](size_t len) {
		if(!buffer) return true;
		size_t frames = chunk ? len / (chunk - 1) + 1 : 1;
		return len + frames * 5 <= buffer;
	};

	uint64_t trace = 0;
	bool lossy = true, dupOk = false;
	auto pump = [&](unsigned maxFrames) {
		while(maxFrames && !ctx().caseViolated) {
			auto& a = cl.wire->out;
			auto& b = target.wire->out;
			if(a.empty() && b.empty()) break;
			maxFrames--;
			bool toTarget = b.empty() || (!a.empty() && r.flip());
			auto& q = toTarget ? a : b;
			std::string f = q.front();
			q.pop_front();
			bool lost = lossy && r.chance(pLoss, 100);
			bool dup = lossy && !lost && dupOk && r.chance(pDup, 100);
			VERBOSE(" %s %s%s\n", toTarget ? "->" : "<-", hex(f, 12).c_str(), lost ? " lost" : dup ? " twice" : "");
			trace = trace * 31 + (toTarget ? 1 : 2) + (lost ? 4 : 0) + (dup ? 8 : 0);
			count(lost ? "frames lost" : "frames delivered");
			if(lost) continue;
			if(dup) count("frames duplicated");
			for(int k = 0; k < 1 + dup; k++)
				feed(toTarget ? (ProtocolLayer&)*target.wire : (ProtocolLayer&)*cl.wire, f);
		}
	};
	auto drained = [&]() { return cl.wire->out.empty() && target.wire->out.empty(); };
	bool reset = false; // by client, so the first response is not flagged
	auto doReset = [&]() -> bool {
		static uint32_t const edge[] = {0x3f, 0x1fff, 0xfffff, 0x7ffffff};
		uint32_t s = r.flip() ? (uint32_t)r.below(100) : (uint32_t)(edge[r.below(4)] - r.below(5));
		VERBOSE("client resets to %x\n", (unsigned)s);
		count("client resets");
		client.resetAck = false;
		client.collected.clear();
		client.complete = true; // ignore what comes
		dupOk = false;
		for(unsigned k = 0; !client.resetAck; k++) {
			lossy = k < 6;
			if(k > 8) {
				violation("reset not acknowledged", "the target does not respond to a reset; " + what);
				return false;
			}
			std::string f = DebugClient::enc(s);
			f[0] = (char)((uint8_t)f[0] | 0x80);
			client.sendFrame(f);
			pump(1000000);
			if(ctx().caseViolated) return false;
		}
		client.sendSeq = DebugClient::next(s);
		client.respSeq = 1;
		reset = true;
		return true;
	};

	if(r.flip() && !doReset()) return;
	// Returns if complete, not if abandoned.
	bool prevKept = false;
	auto transact = [&](std::string const& text, bool mayDup, bool mayAbandon) -> bool {
		client.collected.clear();
		client.complete = client.any = client.flagged = false;
		std::vector<std::string> frames;
		uint32_t s = client.sendSeq;
		size_t pos = 0;
		do {
			size_t n = std::min(text.size() - pos, r.flip() ? cChunk : 1 + (size_t)r.below(cChunk));
			if(text.size() / 300 > n) n = std::min(cChunk, text.size() / 300);
			n = std::min(n, text.size() - pos);
			pos += n;
			frames.push_back(DebugClient::enc(s) + text.substr(pos - n, n) + (pos < text.size() ? 'C' : 'E'));
			s = DebugClient::next(s);
		} while(pos < text.size());
		for(unsigned k = 0; !client.complete; k++) {
			lossy = k < 8;
			if(k >= 12) {
				violation("no response", fmt("no response to request %zu, also after the channel works; %s", current, what.c_str()));
				return false;
			}
			dupOk = mayDup;
			if(k) count("requests retransmitted");
			for(auto& f : frames) {
				client.sendFrame(f);
				if(mayAbandon && r.chance(1, 100)) {
					// The client restarts, half way.
					VERBOSE("client abandons %zu\n", current);
					pump((unsigned)r.below(10));
					cl.wire->out.clear();
					target.wire->out.clear();
					count("requests abandoned");
					doReset();
					return false;
				}
				if(r.flip()) pump((unsigned)r.below(6));
			}
			if(mayDup && k < 8 && r.chance(1, 4)) {
				// Impatient: do not wait for what may be under way.
				pump((unsigned)r.below(4));
				count("premature retransmits");
			} else
				pump(10000000);
			if(ctx().caseViolated) return false;
		}
		client.sendSeq = s;
		// What is still on its way, arrives later.
		if(!mayDup) pump(10000000);
		else if(r.flip()) pump((unsigned)r.below(10));
		return !ctx().caseViolated;
	};

	if(debugger) {
		// A read of a stream is destructive.
		std::string accepted, got;
		auto* st = dbg->stream('a', true);
		if(!st) {
			harnessError("no stream");
			return;
		}
		unsigned n = 3 + (unsigned)r.below(20);
		auto collect = [&]() {
			bool ok = transact("sa", prevKept && reset, false);
			prevKept = ok && !client.flagged;
			if(!ok) return;
			got += client.collected;
			count("stream reads");
		};
		for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
			if(r.flip()) {
				std::string d = r.bytes(r.size(300));
				accepted.append(d, 0, dbg->stream('a', d.data(), d.size()));
			}
			if(r.chance(1, 3)) st->flush();
			switch(r.below(4)) {
			case 0:
				prevKept = false;
				if(!transact("?", false, false)) break;
				if(client.collected.empty() || client.collected[0] != '?') violation("wrong response", "capabilities: " + show(client.collected));
				break;
			case 1: {
				std::string m = "e" + r.bytes(r.size(500));
				prevKept = false;
				if(!transact(m, false, false)) break;
				if(client.collected != m.substr(1)) violation("wrong response", fmt("echo %s gives %s; %s", show(m).c_str(), show(client.collected).c_str(), what.c_str()));
				break;
			}
			default: collect(); break;
			}
			if(r.chance(1, 30)) doReset();
		}
		if(!ctx().caseViolated) {
			st->flush();
			for(size_t k = 0; k < 6 && !ctx().caseViolated; k++) collect();
		}
		if(!ctx().caseViolated) {
			auto& all = got;
			if(all != accepted) {
				size_t p = 0;
				while(p < all.size() && p < accepted.size() && all[p] == accepted[p]) p++;
				violation("stream data", fmt("%zu bytes are read from the stream, of %zu accepted (first difference at %zu); %s", all.size(), accepted.size(), p, what.c_str()));
			}
			count("stream bytes", all.size());
		}
	} else {
		unsigned n = 2 + (unsigned)r.below(ctx().thorough ? 60 : 25);
		for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
			Request q;
			q.len = r.size(r.chance(1, 10) ? 3000 : 200);
			if(chunk == 2 && r.chance(1, 60)) q.len = 8185 + (size_t)r.below(20); // the sequence number needs another byte
			if(ctx().thorough && chunk == 2 && !wireMtu && below.empty() && r.chance(1, 4000)) q.len = 0x100000 + (size_t)r.below(20);
			q.type = r.chance(2, 3) ? (kept(q.len) ? 'P' : 'p') : r.chance(1, 3) ? 'M' : 'R';
			q.execs = 0;
			q.text = fmt("%c%zu,%zu|", q.type, reqs.size(), q.len) + r.bytes(r.size(r.chance(1, 20) ? 3000 : 80));
			current = reqs.size();
			bool keep = q.type == 'P';
			reqs.push_back(q);
			VERBOSE("request %zu %c of %zu bytes, response of %zu\n", current, q.type, q.text.size(), q.len);
			bool mayDup = keep && prevKept && reset;
			bool ok = transact(reqs[current].text, mayDup, r.chance(1, 3));
			prevKept = keep && ok;
			if(ctx().caseViolated) break;
			if(!ok) continue;
			count("responses checked");
			Request& d = reqs[current];
			bool match = false;
			for(unsigned e = 1; e <= d.execs && !match; e++) match = client.collected == response(current, e, d.len);
			if(!match) violation("wrong response", fmt("request %zu (%c, executed %u times) gets the response %s (%zu bytes, expected %zu); %s", current, d.type, d.execs, show(client.collected, 60).c_str(), client.collected.size(), d.len, what.c_str()));
			if(client.flagged) prevKept = false;
			if(r.chance(1, 20)) {
				pump(1000000);
				prevKept = false;
				doReset();
			}
			if(r.chance(1, 100)) {
				pump(1000000);
				VERBOSE("target resets\n");
				arq.up()->top().reset();
				count("target resets");
				prevKept = reset = false;
				doReset();
			}
		}
	}
	sig(trace);
	sample(what + fmt(", %zu requests", reqs.size()));
}
