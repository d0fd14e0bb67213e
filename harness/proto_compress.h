// C08: compressed streams.
#pragma once
#include "protoif.h"
#include <libstored/compress.h>

// An independent decoder of the heatshrink format (window of 8 bits, lookahead of 4 bits).
static std::string refDecompress(std::string const& in)
{
	std::string out(256, '\0');
	size_t bit = 0, bits = in.size() * 8;
	auto get = [&](unsigned n) {
		unsigned v = 0;
		while(n--) {
			v = v << 1 | ((uint8_t)in[bit / 8] >> (7 - bit % 8) & 1u);
			bit++;
		}
		return v;
	};
	while(bit < bits) {
		if(get(1)) {
			if(bits - bit < 8) break;
			out += (char)get(8);
		} else {
			if(bits - bit < 12) break;
			unsigned idx = get(8) + 1, n = get(4) + 1;
			while(n--) out += out[out.size() - idx];
		}
	}
	return out.substr(256);
}

class PlainLayer : public ProtocolLayer {}; // to call encode() of

static std::string compressible(Rng& r, size_t max)
{
	size_t n = r.size(max);
	std::string s;
	switch(r.below(5)) {
	case 0: return r.bytes(n);
	case 1: { // repeated phrases, at distances around the window and the lookahead
		static size_t const dist[] = {1, 2, 15, 16, 17, 31, 32, 33, 127, 128, 254, 255, 256, 257, 258, 300};
		std::string p = r.bytes(dist[r.below(16)]);
		while(s.size() < n) s += p.substr(0, 1 + (size_t)r.below(p.size()));
		break;
	}
	case 2:
		while(s.size() < n) s.append(1 + (size_t)r.below(40), (char)r.next());
		break;
	case 3:
		while(s.size() < n) s += fmt("%u,", (unsigned)r.below(1000));
		break;
	default:
		while(s.size() < n) {
			size_t l = std::min<size_t>(s.size(), 1 + (size_t)r.below(20));
			if(l && r.flip()) s += s.substr(s.size() - l - (size_t)r.below(std::min<size_t>(s.size() - l, 300) + 1), l);
			else s += (char)r.next();
		}
	}
	s.resize(std::min(s.size(), std::max<size_t>(n, 1)));
	return s;
}

static void caseCompress(Rng& r)
{
	static FILE* dump = nullptr;
	if(!dump && !ctx().arg("dump").empty()) dump = fopen(ctx().arg("dump").c_str(), "w");
	Recorder top, rtop;
	stored::CompressLayer c, d;
	Wire wire;
	PlainLayer rx;
	c.wrap(top);
	wire.wrap(c);
	d.wrap(rtop);
	rx.wrap(d);
	bool reply = r.chance(1, 4);
	unsigned depth = 0;
	if(reply) {
		// A layer that responds immediately, while encode() or decode() is running.
		wire.onFrame = [&](std::string const& f) {
			wire.out.push_back(f);
			if(depth < 2 && r.chance(1, 3)) {
				depth++;
				std::string m = "reply " + compressible(r, 50);
				top.encode(m.data(), m.size(), true);
				count("nested messages");
				depth--;
				if(wire.out.empty() || refDecompress(wire.out.back()) != m) violation("nested encode", "a message that is encoded from within encode() is wrong: " + hex(m, 100));
				else wire.out.pop_back();
			}
		};
		rtop.hook = [&](std::string const& m) {
			if(depth || m.empty()) return;
			depth++;
			stored::CompressLayer tmp;
			std::string n = "nested " + compressible(r, 100);
			Wire w;
			w.wrap(tmp);
			tmp.encode(n.data(), n.size(), true);
			feed(rx, w.out.front());
			if(rtop.msgs.back() != n) violation("nested decode", "a message that is received from within decode() is wrong");
			rtop.msgs.pop_back();
			count("nested messages");
			depth--;
		};
	}
	label("compress");
	std::string all;
	unsigned n = 1 + (unsigned)r.below(8);
	for(unsigned i = 0; i < n && !ctx().caseViolated; i++) {
		if(r.chance(1, 10)) {
			// Any bytes.
			std::string g = r.bytes(r.size(500));
			VERBOSE("garbage %s\n", hex(g).c_str());
			size_t before = rtop.msgs.size();
			unsigned dep = depth;
			depth = 2;
			feed(rx, g);
			depth = dep;
			std::string got;
			for(size_t k = before; k < rtop.msgs.size(); k++) got += rtop.msgs[k];
			if(got != refDecompress(g)) violation("garbage", fmt("%s decodes to %s, expected %s", hex(g, 100).c_str(), hex(got, 100).c_str(), hex(refDecompress(g), 100).c_str()));
			rtop.msgs.resize(before);
			count("garbage");
			continue;
		}
		if(r.chance(1, 12)) {
			// A part of a message, that is dropped by a reset.
			std::string m = compressible(r, 600);
			unsigned dep = depth;
			depth = 2;
			c.encode(m.data(), m.size(), false);
			c.reset();
			wire.cur.clear();
			wire.out.clear();
			depth = dep;
			count("resets");
		}
		std::string m = compressible(r, r.chance(1, 20) ? 20000 : 700);
		if(m.empty()) m = "x";
		VERBOSE("message %s\n", hex(m, 100).c_str());
		send(top, m, r);
		count("messages");
		count("bytes", m.size());
		if(wire.out.size() != 1) {
			violation("frames", fmt("%zu frames for one message of %zu bytes", wire.out.size(), m.size()));
			return;
		}
		if(!c.idle()) violation("idle", "the layer is not idle after the last part of a message");
		std::string f = wire.out.front();
		wire.out.clear();
		sig(f);
		count("compressed bytes", f.size());
		std::string ref = refDecompress(f);
		if(ref != m) {
			size_t p = 0;
			while(p < ref.size() && p < m.size() && ref[p] == m[p]) p++;
			violation("encode", fmt("%s is compressed to %s, which decompresses to %zu bytes that differ at %zu", hex(m, 200).c_str(), hex(f, 200).c_str(), ref.size(), p));
			return;
		}
		if(f.size() > m.size() + m.size() / 8 + 2) violation("expansion", fmt("%zu bytes are compressed to %zu", m.size(), f.size()));
		if(dump) {
			for(char x : m) fprintf(dump, "%02x", (uint8_t)x);
			fputc(';', dump);
			for(char x : f) fprintf(dump, "%02x", (uint8_t)x);
			fputc('\n', dump);
			fflush(dump);
		}
		size_t before = rtop.msgs.size();
		feed(rx, f);
		if(rtop.msgs.size() != before + 1 || rtop.msgs.back() != m)
			violation("decode", fmt("message %u, %s (compressed %s), is decoded as %s", i, hex(m, 200).c_str(), hex(f, 200).c_str(), rtop.msgs.size() != before + 1 ? "nothing" : hex(rtop.msgs.back(), 200).c_str()));
	}
	sample(fmt("%u messages", n));
}
