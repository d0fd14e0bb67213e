// C09..C14: protocol layers.
#include "protoif.h"
#include <functional>
#include <sanitizer/allocator_interface.h>

using namespace vf;

// ---------------------------------------------------------------- C09

static void compareMsgs(char const* who, std::vector<std::string> const& got, std::vector<std::string> const& want, bool atEnd, std::string const& what)
{
	for(size_t i = 0; i < got.size() && i < want.size(); i++)
		if(got[i] != want[i]) {
			violation("message differs", fmt("%s received as message %zu %s, sent was %s; %s", who, i, show(got[i]).c_str(), show(want[i]).c_str(), what.c_str()));
			return;
		}
	if(got.size() > want.size())
		violation("extra message", fmt("%s received %zu messages, only %zu were sent; %s", who, got.size(), want.size(), what.c_str()));
	else if(atEnd && got.size() < want.size())
		violation("message lost", fmt("%s received %zu messages of %zu; missing %s; %s", who, got.size(), want.size(), show(want[got.size()]).c_str(), what.c_str()));
}

static void caseStack(Rng& r)
{
	unsigned transport = (unsigned)r.below(4); // 0: frames, 1: byte stream, 2: loopback, 3: frames
	bool stream = transport == 1;
	bool loop = transport == 2;
	std::vector<Spec> specs;
	size_t mtu = 0;
	for(int i = 0;; i++) {
		specs = randomStack(r, stream, true);
		static size_t const mtus[] = {0, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32, 64, 128, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 1000};
		mtu = loop ? 0 : mtus[r.below(sizeof(mtus) / sizeof(*mtus))];
		if(mtuFits(specs, mtu)) break;
	}
	std::string what = fmt("stack %s, MTU %zu, %s", str(specs).c_str(), mtu, loop ? "loopback" : stream ? "byte stream" : "frames");
	label(what);
	VERBOSE("%s\n", what.c_str());
	bool probes = r.chance(4, 5);
	Stack a, b;
	a.build(specs, mtu, r, probes, !loop);
	b.build(specs, mtu, r, probes, !loop);
	bool arq = has(specs, ARQ);
	std::unique_ptr<stored::Loopback> lb;
	if(loop) {
		lb = std::make_unique<stored::Loopback>(a.bottom(), b.bottom());
		if(r.chance(1, 3)) lb->reserve((size_t)r.below(500));
	}
	Stack* st[2] = {&a, &b};
	std::vector<std::string> sent[2]; // by side
	size_t told = a.top->mtu();
	count(fmt("transport %u", loop ? 2 : stream ? 1 : 0));
	for(auto& x : specs) count("layer " + x.str().substr(0, x.str().find('(')));
	sig(str(specs) + fmt("|%zu", mtu));

	auto genMsg = [&](size_t cap) {
		size_t n = r.size(ctx().thorough ? 6000 : 1500);
		if(told) n = r.chance(1, 4) ? std::min(told, cap) : std::min(n, told);
		// Every part of a message triggers a retransmit of the one before.
		if(arq) n = std::min<size_t>(n, 150);
		n = std::min(n, cap);
		// A 1-byte segment MTU below escaping would give huge recursion-free but slow runs.
		return r.bytes(n);
	};
	int busy[2] = {0, 0}; // side is within encode of a message
	unsigned depth = 0;
	uint64_t replies = 0;
	bool wantReplies = r.flip();
	for(int s = 0; s < 2; s++)
		st[s]->top->hook = [&, s](std::string const& m) {
			compareMsgs(s ? "B" : "A", st[s]->top->msgs, sent[1 - s], false, what);
			if(ctx().caseViolated) return;
			if(!wantReplies || busy[s] || depth > 5 || m.empty() || (m[0] & 3) || replies > 40) return;
			// Respond from within decode().
			replies++;
			depth++;
			busy[s]++;
			std::string rep = genMsg(400);
			sent[s].push_back(rep);
			send(*st[s]->top, rep, r);
			busy[s]--;
			depth--;
			count("replies from within decode");
		};

	auto deliver = [&](int from) {
		auto& q = st[from]->wire->out;
		if(q.empty()) return false;
		ProtocolLayer& to = *st[1 - from]->wire;
		if(!stream) {
			std::string f = std::move(q.front());
			q.pop_front();
			count("frames delivered");
			VERBOSE("  to %c: %s   [%zu %zu]\n", 'B' - from, hex(f, 12).c_str(), st[0]->wire->out.size(), st[1]->wire->out.size());
			feed(to, f);
			return true;
		}
		// Any grouping of the byte stream.
		std::string all;
		while(!q.empty() && (all.empty() || r.chance(3, 4))) {
			all += q.front();
			q.pop_front();
		}
		size_t n = 0;
		switch(r.below(4)) {
		case 0: n = 1; break;
		case 1: n = 1 + (size_t)r.below(5); break;
		case 2: n = 1 + (size_t)r.below(all.size()); break;
		default: n = all.size(); break;
		}
		if(n < all.size()) q.push_front(all.substr(n));
		all.resize(std::min(n, all.size()));
		count("chunks delivered");
		if(all.size()) feed(to, all);
		return true;
	};
	auto pump = [&](bool everything) {
		if(loop) return;
		uint64_t limit = 1000000;
		while(true) {
			bool e0 = a.wire->out.empty(), e1 = b.wire->out.empty();
			if((e0 && e1) || ctx().caseViolated) return;
			int from = e0 ? 1 : e1 ? 0 : (int)r.below(2);
			deliver(from);
			if(!everything && r.chance(1, 4)) return;
			if(!--limit) {
				violation("endless exchange", "the two stacks keep exchanging frames although nothing is sent: " + what);
				return;
			}
		}
	};

	if(arq)
		// Connect first: what is queued while connecting may be repeated.
		for(int i = 0; i < 4; i++) {
			a.top->flush();
			b.top->flush();
			pump(true);
		}

	unsigned nops = 3 + (unsigned)r.below(ctx().thorough ? 60 : 25);
	for(unsigned op = 0; op < nops && !ctx().caseViolated; op++) {
		switch(r.below(10)) {
		default: {
			int s = (int)r.below(2);
			std::string m = genMsg(100000);
			sent[s].push_back(m);
			VERBOSE("%c sends %zu bytes %s\n", 'A' + s, m.size(), show(m, 40).c_str());
			count("messages");
			count("message bytes", m.size());
			busy[s]++;
			bool mid = r.chance(1, 3);
			send(*st[s]->top, m, r, [&]() { if(mid) pump(false); });
			busy[s]--;
			if(r.chance(1, 3)) pump(r.flip());
			break;
		}
		case 0: pump(true); break;
		case 1: st[r.below(2)]->top->flush(); break;
		case 2: {
			// Insert or remove a layer that has no effect of its own.
			pump(true);
			int s = (int)r.below(2);
			auto& l = st[s]->l;
			if(r.flip() || l.size() < 3) {
				size_t i = 1 + (size_t)r.below(l.size() - (loop ? 0 : 1));
				if(i >= l.size()) break;
				std::unique_ptr<ProtocolLayer> n;
				if(r.flip()) n = std::make_unique<stored::IdleCheckLayer>();
				else n = std::make_unique<stored::PrintLayer>(nullptr);
				n->wrap(*l[i - 1]);
				l.insert(l.begin() + (long)i, std::move(n));
				count("layers inserted");
			} else {
				for(size_t i = 1; i + (loop ? 0 : 1) < l.size(); i++) {
					bool plain = dynamic_cast<stored::IdleCheckLayer*>(l[i].get()) || dynamic_cast<stored::PrintLayer*>(l[i].get()) || dynamic_cast<stored::BufferLayer*>(l[i].get());
					if(plain && !(loop && i + 1 == l.size())) {
						l.erase(l.begin() + (long)i);
						count("layers removed");
						break;
					}
				}
			}
			st[s]->check("changed at run time");
			break;
		}
		}
	}
	pump(true);
	if(arq)
		for(int i = 0; i < 400 && (a.top->msgs.size() < sent[1].size() || b.top->msgs.size() < sent[0].size()); i++) {
			a.top->flush();
			b.top->flush();
			pump(true);
		}
	compareMsgs("A", a.top->msgs, sent[1], true, what);
	compareMsgs("B", b.top->msgs, sent[0], true, what);
	for(auto* s : st)
		for(auto& l : s->l)
			if(auto* p = dynamic_cast<Probe*>(l.get())) count("frames checked against an MTU", p->limited);
	lb.reset();
	a.tearDown(r);
	b.tearDown(r);
	sample(what + fmt(", %zu and %zu messages", sent[0].size(), sent[1].size()));
}

// ---------------------------------------------------------------- C10

// Bitwise, from the documented polynomial, initial value and order.
static unsigned refCrc(std::string const& d, size_t n, unsigned width)
{
	unsigned poly = width == 8 ? 0xa6u : 0xbaadu;
	unsigned crc = width == 8 ? 0xffu : 0xffffu;
	unsigned top = 1u << (width - 1);
	unsigned mask = (top << 1) - 1;
	for(size_t i = 0; i < n; i++) {
		crc ^= (unsigned)(uint8_t)d[i] << (width - 8);
		for(int k = 0; k < 8; k++) crc = ((crc & top) ? (crc << 1) ^ poly : crc << 1) & mask;
	}
	return crc;
}

static bool refAccept(std::string const& f, unsigned width)
{
	size_t w = width / 8;
	if(f.size() < w) return false;
	unsigned have = 0;
	for(size_t i = 0; i < w; i++) have = have << 8 | (uint8_t)f[f.size() - w + i];
	return have == refCrc(f, f.size() - w, width);
}

static void caseCrc(Rng& r)
{
	unsigned width = r.flip() ? 8 : 16;
	Stack tx, rx;
	std::vector<Spec> specs = {{width == 8 ? CRC8 : CRC16, 0}};
	tx.build(specs, 0, r, false, true);
	rx.build(specs, 0, r, false, true);
	label(fmt("crc%u", width));
	size_t w = width / 8;
	auto encode = [&](std::string const& m) {
		tx.wire->out.clear();
		send(*tx.top, m, r);
		if(tx.wire->out.size() != 1) {
			violation("crc encode", fmt("encoding one message gave %zu frames", tx.wire->out.size()));
			return std::string();
		}
		std::string f = tx.wire->out.front();
		tx.wire->out.clear();
		if(f.size() != m.size() + w || f.compare(0, m.size(), m))
			violation("crc encode", fmt("crc%u frame of %s is %s", width, hex(m).c_str(), hex(f).c_str()));
		else if(!refAccept(f, width))
			violation("crc value", fmt("crc%u of %s is encoded as %s, expected %0*x", width, hex(m).c_str(), hex(f.substr(m.size())).c_str(), (int)w * 2, refCrc(m, m.size(), width)));
		return f;
	};
	auto tryFrame = [&](std::string const& f) {
		size_t before = rx.top->msgs.size();
		feed(*rx.wire, f);
		size_t n = rx.top->msgs.size() - before;
		if(n > 1) violation("crc decode", "one frame gave more than one message");
		if(n && rx.top->msgs.back() != f.substr(0, f.size() - std::min(w, f.size())))
			violation("crc decode", fmt("delivered %s for frame %s", hex(rx.top->msgs.back()).c_str(), hex(f).c_str()));
		return n > 0;
	};
	enum Class { Single, Burst, Two, Other };
	auto damaged = [&](std::string const& orig, std::string const& f, Class cls, std::string const& what) {
		count(cls == Single ? "single bit errors" : cls == Burst ? "bursts" : cls == Two ? "two bit errors" : "other damage");
		bool ok = tryFrame(f);
		bool ref = refAccept(f, width);
		if(ok && !ref) violation("damaged frame delivered", fmt("crc%u: frame %s with %s is delivered although its checksum does not match", width, hex(orig).c_str(), what.c_str()));
		else if(!ok && ref) violation("matching frame dropped", fmt("crc%u: frame %s with %s is dropped although its checksum matches", width, hex(orig).c_str(), what.c_str()));
		if(ok && cls != Other) {
			// As documented, this cannot be.
			bool known = width == 8 && (cls == Burst || cls == Two);
			violation(known ? "crc8-generator" : "error class not detected", fmt("crc%u: %s in a frame of %zu bytes is not detected", width, what.c_str(), f.size()));
		}
	};
	auto flip = [](std::string& f, size_t bit) { f[bit / 8] = (char)((uint8_t)f[bit / 8] ^ (0x80u >> (bit % 8))); };

	unsigned rounds = 1 + (unsigned)r.below(4);
	for(unsigned k = 0; k < rounds && !ctx().caseViolated; k++) {
		size_t n = r.chance(1, 3) ? (size_t)r.below(257) : r.size(r.chance(1, 20) ? 5000 : 600);
		std::string m = r.bytes(n);
		std::string f = encode(m);
		if(ctx().caseViolated) return;
		sig(fmt("%u %zu", width, n));
		if(!tryFrame(f)) violation("good frame dropped", fmt("crc%u: undamaged frame %s is not delivered", width, hex(f).c_str()));
		size_t bits = f.size() * 8;
		bool inBlock = f.size() <= 256;
		unsigned tests = ctx().thorough ? 400 : 120;
		for(unsigned t = 0; t < tests && !ctx().caseViolated; t++) {
			std::string g = f;
			std::string what;
			switch(r.below(9)) {
			case 0:
				if(f.size() <= 12 && t == 0) {
					for(size_t i = 0; i < bits; i++) {
						g = f;
						flip(g, i);
						damaged(f, g, Single, fmt("bit %zu flipped", i));
					}
					break;
				}
				// fallthrough
			case 1: {
				size_t i = (size_t)r.below(bits);
				flip(g, i);
				damaged(f, g, Single, fmt("bit %zu flipped", i));
				break;
			}
			case 2: {
				// A burst: first and last bit wrong, anything in between.
				size_t len = 2 + (size_t)r.below(width - 1);
				if(len > bits) break;
				size_t i = (size_t)r.below(bits - len + 1);
				uint32_t pat = 1u | 1u << (len - 1) | (uint32_t)(r.next() & ((1u << len) - 1));
				for(size_t j = 0; j < len; j++)
					if(pat >> j & 1u) flip(g, i + j);
				damaged(f, g, Burst, fmt("a burst of %zu bits (%x) at bit %zu", len, pat, i));
				break;
			}
			case 3: {
				if(!inBlock) break;
				size_t i = (size_t)r.below(bits), j = (size_t)r.below(bits);
				if(i == j) break;
				flip(g, i);
				flip(g, j);
				damaged(f, g, Two, fmt("bits %zu and %zu flipped", i, j));
				break;
			}
			case 4: g.resize((size_t)r.below(g.size())); damaged(f, g, Other, fmt("%zu bytes left", g.size())); break;
			case 5: g += r.bytes(1 + (size_t)r.below(4)); damaged(f, g, Other, "bytes " + hex(g.substr(f.size())) + " added"); break;
			case 6: {
				size_t i = (size_t)r.below(g.size());
				g.erase(i, 1 + (size_t)r.below(3));
				damaged(f, g, Other, fmt("bytes erased at %zu", i));
				break;
			}
			case 7: {
				std::string o = r.bytes((size_t)r.below(8));
				size_t i = (size_t)r.below(g.size() + 1);
				g.insert(i, o);
				if(g == f) break;
				damaged(f, g, Other, fmt("%s inserted at %zu", hex(o).c_str(), i));
				break;
			}
			default: {
				unsigned c = 1 + (unsigned)r.below(6);
				while(c--) g[(size_t)r.below(g.size())] = (char)r.next();
				if(g == f) break;
				damaged(f, g, Other, "changed into " + hex(g));
				break;
			}
			}
			if(r.chance(1, 4) && !tryFrame(f))
				violation("good frame dropped", fmt("crc%u: undamaged frame %s is not delivered after a damaged one", width, hex(f).c_str()));
			if(r.chance(1, 8)) {
				// The encoder is independent of what was received.
				std::string m2 = r.bytes(r.size(40));
				std::string f2 = encode(m2);
				if(!ctx().caseViolated && !tryFrame(f2)) violation("good frame dropped", "a later frame is not delivered");
			}
		}
	}
	count("frames");
	sample(fmt("crc%u", width));
}

// ---------------------------------------------------------------- C11

// A terminal layer that does not use a callback.
class MyTerminal : public stored::TerminalLayer {
public:
	std::string* text;
	explicit MyTerminal(std::string* t) : text(t) {}
	void nonDebugDecode(void* buffer, size_t len) override { text->append(static_cast<char*>(buffer), len); }
};

static std::string appText(Rng& r)
{
	std::string t;
	switch(r.below(6)) {
	case 0: t = r.bytes(r.size(60)); break;
	case 1: t = "\x1b[3" + std::to_string(r.below(8)) + "mred\x1b[0m"; break;
	case 2: t = "\x1b"; break;
	case 3: {
		static char const c[] = "\x1b\x1b\x1b\\\\\\_a\r\n\x7f";
		size_t n = 1 + (size_t)r.below(8);
		while(n--) t += c[r.below(sizeof(c) - 1)];
		break;
	}
	case 4: t = "Hello World\r\n"; break;
	default: t = r.bytes(r.size(600)); break;
	}
	// The sequence that starts a message is not application text.
	size_t p;
	while((p = t.find("\x1b_")) != std::string::npos) t[p + 1] = '-';
	return t;
}

static void caseTerminal(Rng& r)
{
	struct Side {
		Recorder top;
		std::unique_ptr<stored::AsciiEscapeLayer> esc;
		std::unique_ptr<stored::TerminalLayer> term;
		std::vector<std::unique_ptr<ProtocolLayer>> extra;
		Wire wire;
		std::string text;
		std::string sentText;
		std::vector<std::string> sentMsg;
	} s[2];
	bool esc = r.chance(3, 4);
	bool all = r.flip();
	for(auto& x : s) {
		ProtocolLayer* p = &x.top;
		auto add = [&](ProtocolLayer* l) { l->wrap(*p); p = l; };
		if(esc) {
			x.esc = std::make_unique<stored::AsciiEscapeLayer>(all);
			add(x.esc.get());
		}
		if(r.flip()) {
			auto* t = &x.text;
			x.term = std::make_unique<stored::TerminalLayer>([t](void* b, size_t n) { t->append(static_cast<char*>(b), n); });
		} else x.term = std::make_unique<MyTerminal>(&x.text);
		add(x.term.get());
		if(r.chance(1, 3)) {
			x.extra.push_back(std::make_unique<stored::BufferLayer>(r.below(20)));
			add(x.extra.back().get());
		}
		add(&x.wire);
	}
	label(fmt("terminal, escape %d/%d", esc, all));
	std::string stream[2];
	unsigned mode = (unsigned)r.below(4);
	auto check = [&](int to, bool end) {
		Side& a = s[1 - to];
		Side& b = s[to];
		compareMsgs(to ? "B" : "A", b.top.msgs, a.sentMsg, end, "terminal layer");
		if(b.text.size() > a.sentText.size() || b.text.compare(0, b.text.size(), a.sentText, 0, b.text.size()))
			violation("application text", fmt("application text is %s, sent was %s", show(b.text, 200).c_str(), show(a.sentText, 200).c_str()));
		if(end && b.text != a.sentText) {
			// Escape as last byte may be start of something that is still to come.
			bool pending = b.text.size() + 1 == a.sentText.size() && a.sentText.back() == '\x1b';
			if(!pending) violation("application text lost", fmt("application text is %s, sent was %s", show(b.text, 200).c_str(), show(a.sentText, 200).c_str()));
		}
	};
	auto pump = [&](int from, bool end) {
		auto& q = s[from].wire.out;
		while(!q.empty()) {
			stream[from] += q.front();
			q.pop_front();
		}
		auto& d = stream[from];
		while(!d.empty() && !ctx().caseViolated) {
			size_t n = d.size();
			switch(mode) {
			case 0: n = 1; break;
			case 1: n = 1 + (size_t)r.below(std::min<size_t>(n, 4)); break;
			case 2: n = 1 + (size_t)r.below(n); break;
			default: break;
			}
			feed(s[1 - from].wire, d.substr(0, n));
			d.erase(0, n);
			count("chunks");
			check(1 - from, false);
			if(!end && r.chance(1, 10)) break;
		}
	};
	unsigned n = 2 + (unsigned)r.below(ctx().thorough ? 80 : 30);
	for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
		int f = (int)r.below(2);
		Side& x = s[f];
		switch(r.below(6)) {
		case 0:
		case 1: {
			std::string t = appText(r);
			// What is sent right after an escape must not make it a start sequence.
			std::string last = x.sentText.empty() ? "" : x.sentText.substr(x.sentText.size() - 1);
			if(last == "\x1b" && !t.empty() && t[0] == '_') t[0] = 'x';
			VERBOSE("%c text %s\n", 'A' + f, show(t).c_str());
			Exact e(t);
			x.term->nonDebugEncode(e.data(), e.n);
			x.sentText += t;
			count("application text bytes", t.size());
			break;
		}
		case 2:
		case 3: {
			std::string m = r.bytes(r.size(400));
			if(!esc) {
				for(auto& c : m)
					if(c == '\x1b') c = 'e';
			}
			VERBOSE("%c message %s\n", 'A' + f, show(m).c_str());
			x.sentMsg.push_back(m);
			send(x.top, m, r);
			count("debug messages");
			break;
		}
		case 4: pump(f, false); break;
		default: pump(f, true); break;
		}
		if(r.chance(1, 100)) {
			// Reset both on a boundary.
			for(int k = 0; k < 2; k++) pump(k, true);
			if(s[0].sentText.empty() || s[0].sentText.back() != '\x1b')
				if(s[1].sentText.empty() || s[1].sentText.back() != '\x1b')
					for(auto& y : s) y.top.reset();
		}
	}
	for(int k = 0; k < 2; k++) {
		pump(k, true);
		check(1 - k, true);
	}
	sig(fmt("%d%d %u", esc, all, mode) + s[0].sentText + "|" + std::to_string(s[0].sentMsg.size()));
	sample(fmt("terminal: text %s, %zu messages", show(s[0].sentText, 60).c_str(), s[0].sentMsg.size()));
	for(auto& x : s) {
		x.term.reset();
		x.esc.reset();
	}
}

#include "proto_arq.h"
#include "proto_hostile.h"
#include "proto_compress.h"

int main(int argc, char** argv)
{
	return runMain(argc, argv, [](Rng& r) {
		std::string m = ctx().arg("mode", "C09");
		if(m == "C09") caseStack(r);
		else if(m == "C10") caseCrc(r);
		else if(m == "C11") caseTerminal(r);
		else if(m == "C12") caseArq(r);
		else if(m == "C13") caseDebugArq(r);
		else if(m == "C14") caseHostile(r);
		else if(m == "C08") caseCompress(r);
	});
}
