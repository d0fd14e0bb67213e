// C14: any received bytes.
#pragma once
#include "protoif.h"
#include <sanitizer/allocator_interface.h>

// A stack that logs all what can be observed, of which the upper layer now and then responds.
struct Victim {
	Stack s;
	Rng r{1};
	uint64_t log = 0;
	uint64_t events = 0;
	uint64_t in = 0, out = 0; // bytes since reset
	int64_t used = 0; // memory
	struct Meter {
		Victim& v;
		int64_t at = (int64_t)__sanitizer_get_current_allocated_bytes();
		~Meter() { v.used += (int64_t)__sanitizer_get_current_allocated_bytes() - at; }
	};
	bool replies = false;
	std::string last;
	std::deque<std::string> frames; // sent

	void build(std::vector<Spec> const& specs, Rng& rb, uint64_t seed, bool replies_)
	{
		r = Rng(seed);
		replies = replies_;
		s.build(specs, 0, rb, false, true);
		s.top->hook = [this](std::string const& m) {
			note('<', m);
			s.top->msgs.clear();
			if(replies && r.chance(1, 3)) {
				std::string a = "re:" + r.bytes(r.size(60));
				out += a.size();
				send(*s.top, a, r);
			}
			if(r.chance(1, 20)) s.top->flush();
		};
		s.wire->onFrame = [this](std::string const& f) {
			note('>', f);
			frames.push_back(f);
			if(frames.size() > 40) frames.pop_front();
		};
	}
	void note(char c, std::string const& m)
	{
		events++;
		log = hashBytes(m.data(), m.size(), log * 31 + (uint8_t)c);
		last = fmt("%c%s", c, hex(m, 30).c_str());
		VERBOSE("   %s\n", last.c_str());
	}
	void rx(std::string const& f)
	{
		in += f.size();
		Meter m{*this};
		feed(*s.wire, f);
		if(!s.text.empty()) {
			note('T', s.text);
			s.text.clear();
		}
	}
	void clear()
	{
		log = events = in = out = 0;
		frames.clear();
		s.text.clear();
		s.wire->cur.clear();
	}
};

static void caseHostile(Rng& r)
{
	bool stream = r.flip();
	auto specs = randomStack(r, stream, true);
	bool arq = has(specs, ARQ), darq = false;
	if(!arq && r.chance(1, 4)) {
		// The stack for a debugger.
		darq = true;
		specs.insert(specs.begin(), {DARQ, r.flip() ? 0 : (size_t)r.below(100)});
		specs.insert(specs.begin(), {SEG, r.flip() ? 0 : 2 + (size_t)r.below(30)});
	}
	if(r.chance(1, 5)) {
		if(!darq) specs.insert(specs.begin(), {SEG, 2 + (size_t)r.below(40)});
		specs.insert(specs.begin(), {COMP, 0});
	}
	// CRC does not fit in unlimited messages, but that is up to the sender.
	std::string what = str(specs);
	label(what);
	VERBOSE("%s\n", what.c_str());
	uint64_t seed = r.next();
	bool replies = r.flip();
	Victim v;
	v.build(specs, r, seed, replies);
	Stack peer;
	peer.build(specs, 0, r, false, true);

	// Something that may be received.
	auto garbage = [&](Victim& victim) {
		std::string g;
		switch(r.below(7)) {
		case 0: return r.bytes(r.size(r.chance(1, 30) ? 20000 : 200));
		case 1: {
			// All what is special for some layer.
			static char const sp[] = "\x1b\x1b_\\\x7f\x40\x80\x81\x01\x02\x00\xff" "CECECE\r\n\x11\x13\x5f";
			size_t n = r.size(60);
			while(n--) g += sp[r.below(sizeof(sp) - 1)];
			return g;
		}
		default: {
			// The layers at the bottom are used properly.
			size_t k = (size_t)r.below(peer.l.size());
			peer.wire->out.clear();
			std::string m;
			switch(r.below(5)) {
			case 0: m = std::string(r.size(3000), "CE\0@"[r.below(4)]); break;
			case 1: m = std::string(1, (char)r.next()) + std::string(1, (char)r.next()) + r.bytes(r.size(30)); break;
			case 2: m = std::string(1, (char)(r.flip() ? r.below(4) : 0x80 | r.below(4))) + r.bytes(r.size(20)) + (r.flip() ? "E" : "C"); break;
			default: m = r.bytes(r.size(400)); break;
			}
			if(r.chance(1, 30)) peer.top->reset();
			send(*peer.l[k], m, r);
			// (when the next lower one does not pass it now, as it waits for an ack)
			if(peer.wire->out.empty() && r.flip()) peer.top->flush();
			while(!peer.wire->out.empty()) {
				if(g.size() > 3000 && r.flip()) break;
				std::string f = peer.wire->out.front();
				peer.wire->out.pop_front();
				if(r.chance(1, 4) && !f.empty()) {
					switch(r.below(5)) {
					case 0: f[(size_t)r.below(f.size())] = (char)r.next(); break;
					case 1: f.resize((size_t)r.below(f.size())); break;
					case 2: f += f; break;
					case 3: f.insert((size_t)r.below(f.size()), r.bytes(1 + (size_t)r.below(4))); break;
					default: f.erase((size_t)r.below(f.size()), 1 + (size_t)r.below(4)); break;
					}
				}
				g += f;
				if(!stream && r.chance(2, 3)) break;
			}
			peer.wire->out.clear();
			// The peer sees some of the responses, such that it continues.
			while(!victim.frames.empty() && r.flip()) {
				feed(*peer.wire, victim.frames.front());
				victim.frames.pop_front();
			}
			peer.top->msgs.clear();
			peer.text.clear();
			return g;
		}
		}
	};
	// One step; the same for all of the victims.
	auto step = [&](std::vector<Victim*> const& vs) {
		if(r.chance(1, 12)) {
			std::string m = r.bytes(r.size(100));
			uint64_t sd = r.next();
			if(darq) return; // only responds
			for(auto* x : vs) {
				Rng q(sd);
				x->out += m.size();
				Victim::Meter mt{*x};
				send(*x->s.top, m, q);
			}
			return;
		}
		if(r.chance(1, 20)) {
			for(auto* x : vs) {
				Victim::Meter mt{*x};
				x->s.top->flush();
			}
			return;
		}
		std::string g = garbage(*vs.front());
		size_t p = 0;
		bool split = stream || r.chance(1, 4);
		do {
			size_t n = split ? (size_t)r.below(g.size() - p + 1) : g.size();
			if(split && g.size() > 1000) n = std::max(n, std::min(g.size() - p, g.size() / 100));
			if(split && r.flip()) n = std::min<size_t>(n, 3);
			if(split && !n && g.size() - p) n = r.flip() ? 1 : 0;
			VERBOSE(" receives %s\n", hex(g.substr(p, n), 40).c_str());
			for(auto* x : vs) x->rx(g.substr(p, n));
			count("received chunks");
			count("received bytes", n);
			p += n;
		} while(p < g.size());
	};

	unsigned rounds = 1 + (unsigned)r.below(4);
	uint64_t maxIn = 0;
	for(unsigned k = 0; k < rounds && !ctx().caseViolated; k++) {
		unsigned n = (unsigned)r.below(ctx().thorough ? 200 : 50);
		for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
			step({&v});
			maxIn = std::max(maxIn, v.in + v.out);
			uint64_t used = v.used > 0 ? (uint64_t)v.used : 0;
			countMax("memory used", used);
			// There is some administration per (segmented) message.
			if(used > 200 * maxIn + 100000)
				violation("memory", fmt("%" PRIu64 " bytes are in use after receiving %" PRIu64 " and sending %" PRIu64 " bytes; %s", used, v.in, v.out, what.c_str()));
		}
		count("bytes delivered or sent", v.events);
		// After a reset, it behaves like a fresh stack.
		VERBOSE("reset\n");
		v.s.top->reset();
		v.clear();
		Victim f;
		f.build(specs, r, seed, replies);
		uint64_t sd = r.next();
		v.r = f.r = Rng(sd);
		f.clear();
		peer.top->reset();
		peer.wire->out.clear();
		n = 1 + (unsigned)r.below(12);
		for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
			VERBOSE("both:\n");
			step({&v, &f});
			count("steps compared with a fresh stack");
			if(v.log != f.log || v.events != f.events)
				violation("not as fresh", fmt("after a reset, the stack %s does %s (%" PRIu64 " events), a fresh one %s (%" PRIu64 " events)", what.c_str(), v.last.c_str(), v.events, f.last.c_str(), f.events));
		}
		f.s.tearDown(r);
		if(ctx().caseViolated || darq) continue;
		// Regular traffic.
		VERBOSE("regular traffic\n");
		v.s.top->reset();
		v.clear();
		v.replies = false;
		peer.top->reset();
		peer.top->msgs.clear();
		peer.wire->out.clear();
		std::vector<std::string> got;
		auto hook = v.s.top->hook;
		v.s.top->hook = [&](std::string const& m) { got.push_back(m); v.s.top->msgs.clear(); };
		auto pump = [&]() {
			for(unsigned lim = 0; lim < 100000 && (!peer.wire->out.empty() || !v.frames.empty()); lim++) {
				bool up = v.frames.empty() || (!peer.wire->out.empty() && r.flip());
				auto& q = up ? peer.wire->out : v.frames;
				std::string x = q.front();
				q.pop_front();
				if(up) v.rx(x);
				else feed(*peer.wire, x);
			}
		};
		if(arq)
			for(unsigned i = 0; i < 4; i++) {
				peer.top->flush();
				pump();
				v.s.top->flush();
				pump();
			}
		bool crc = has(specs, CRC8) || has(specs, CRC16);
		std::vector<std::string> sent;
		for(unsigned i = 0; i < 3; i++) {
			std::string m = fmt("message %u|", i) + r.bytes(r.size(crc ? 40 : 300));
			sent.push_back(m);
			send(*peer.top, m, r);
			pump();
		}
		if(arq)
			for(unsigned i = 0; i < 300 && got.size() < sent.size(); i++) {
				peer.top->flush();
				pump();
			}
		count("messages after a reset", got.size());
		if(got != sent) violation("regular message lost", fmt("after a reset, %zu of %zu messages of a regular peer are delivered; %s", got.size(), sent.size(), what.c_str()));
		v.s.top->hook = hook;
		v.replies = replies;
		v.s.top->reset();
		v.clear();
		peer.top->reset();
	}
	sig(what + std::to_string(r.next()));
	sample(what);
	v.s.tearDown(r);
	peer.tearDown(r);
}
