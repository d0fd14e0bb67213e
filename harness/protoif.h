// Building blocks for the protocol harness: recording top, MTU probes, frame wire, random stacks.
#ifndef VERIF_PROTOIF_H
#define VERIF_PROTOIF_H
#include "common.h"
#include <deque>
#include <libstored/compress.h>
#include <libstored/protocol.h>
#include <memory>

namespace vf {

using stored::ProtocolLayer;

// A private, exactly sized copy: whatever a layer touches outside the data it was given is seen by
// the address sanitizer.
struct Exact {
	std::unique_ptr<char[]> p;
	size_t n;
	explicit Exact(std::string const& s) : p(new char[s.size()]), n(s.size()) { if(n) memcpy(p.get(), s.data(), n); }
	char* data() { return p.get(); }
};

inline void feed(ProtocolLayer& l, std::string const& s)
{
	Exact e(s);
	l.decode(e.data(), e.n);
}

// Hand a message to a stack, in any number of parts.
inline void send(ProtocolLayer& l, std::string const& m, Rng& r, std::function<void()> const& between = nullptr)
{
	size_t mode = r.below(4);
	size_t i = 0;
	if(mode == 0) {
		Exact e(m);
		l.encode(e.data(), e.n, true);
		return;
	}
	if(mode == 1) {
		{
			Exact e(m);
			l.encode(e.data(), e.n, false);
		}
		if(between) between();
		l.encode();
		return;
	}
	while(true) {
		size_t left = m.size() - i;
		size_t n = mode == 2 ? (size_t)r.below(left + 1) : (size_t)r.below(std::min<size_t>(left, 6) + 1);
		if(m.size() > 1500 && n < m.size() / 200) n = std::min(left, m.size() / 200);
		bool last = n == left && r.chance(2, 3);
		{
			Exact e(m.substr(i, n));
			l.encode(e.data(), e.n, last);
		}
		i += n;
		if(last) return;
		if(between) between();
		if(i == m.size() && r.chance(1, 3)) {
			l.encode();
			return;
		}
	}
}

class Recorder : public ProtocolLayer {
public:
	std::vector<std::string> msgs;
	std::function<void(std::string const&)> hook;
	size_t connects = 0;
	void decode(void* buffer, size_t len) override
	{
		msgs.emplace_back(static_cast<char*>(buffer), len);
		if(hook) {
			std::string m = msgs.back();
			hook(m);
			if(m.compare(0, m.size(), static_cast<char*>(buffer), len)) violation("message overwritten", "a message changes during its decode(), because of what the upper layer does meanwhile");
		}
	}
	void connected() override { connects++; }
	using ProtocolLayer::encode;
};

// Checks that every frame that passes downwards fits in the MTU announced from below.
class Probe : public ProtocolLayer {
public:
	std::string above;
	size_t acc = 0;
	uint64_t frames = 0, limited = 0;
	explicit Probe(std::string a) : above(std::move(a)) {}
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		acc += len;
		size_t m = ProtocolLayer::mtu();
		if(m) limited++;
		if(m && acc > m)
			violation("mtu " + above, fmt("the layer %s gave a frame of (at least) %zu bytes to the layer below it, of which the MTU is %zu", above.c_str(), acc, m));
		if(last) {
			frames++;
			acc = 0;
		}
		ProtocolLayer::encode(buffer, len, last);
	}
	using ProtocolLayer::encode;
	void reset() override
	{
		acc = 0;
		ProtocolLayer::reset();
	}
};

// Lowest layer: collects complete frames.
class Wire : public ProtocolLayer {
public:
	size_t m;
	std::string cur;
	std::deque<std::string> out;
	std::function<void(std::string const&)> onFrame;
	size_t largest = 0;
	explicit Wire(size_t mtu_ = 0) : m(mtu_) {}
	size_t mtu() const override { return m; }
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		if(len) cur.append(static_cast<char const*>(buffer), len);
		if(last) {
			std::string f;
			f.swap(cur);
			largest = std::max(largest, f.size());
			if(onFrame) onFrame(f);
			else out.push_back(std::move(f));
		}
	}
	using ProtocolLayer::encode;
	void reset() override { cur.clear(); }
};

enum Kind { ESC, ESCALL, TERM, SEG, ARQ, CRC8, CRC16, BUF, PRINT, IDLE, CB, CB3, DARQ, COMP };
struct Spec {
	Kind k;
	size_t v;
	std::string str() const
	{
		static char const* const n[] = {"AsciiEscape", "AsciiEscape(all)", "Terminal", "Segmentation", "Arq", "Crc8", "Crc16", "Buffer", "Print", "IdleCheck", "Callback", "Callback3", "DebugArq", "Compress"};
		return (k == SEG || k == BUF || k == DARQ) ? fmt("%s(%zu)", n[k], v) : std::string(n[k]);
	}
};

inline std::string str(std::vector<Spec> const& s)
{
	std::string r;
	for(auto& x : s) r += (r.empty() ? "" : "/") + x.str();
	return r.empty() ? "(none)" : r;
}

// The smallest MTU for which the layer can do its work, and what remains for the layer above.
inline bool mtuFits(Spec const& s, size_t& m)
{
	switch(s.k) {
	case ESC:
	case ESCALL: if(m && m < 2) return false; m /= 2; return true;
	case TERM: if(m && m < 5) return false; m = m ? m - 4 : 0; return true;
	case SEG: {
		size_t l = !m ? s.v : !s.v ? m : std::min(m, s.v);
		if(l && l < 2) return false;
		m = 0;
		return true;
	}
	case ARQ: if(m && m < 3) return false; m = m ? m - 2 : 0; return true;
	case CRC8: if(m && m < 2) return false; m = m ? std::min<size_t>(m - 1, 256) : 256; return true;
	case CRC16: if(m && m < 3) return false; m = m ? std::min<size_t>(m - 2, 256) : 256; return true;
	default: return true;
	}
}

inline bool mtuFits(std::vector<Spec> const& s, size_t m)
{
	for(size_t i = s.size(); i > 0; i--)
		if(!mtuFits(s[i - 1], m)) return false;
	return true;
}

inline FILE* devNull()
{
	static FILE* f = fopen("/dev/null", "w");
	return f;
}

struct CbCount {
	uint64_t up = 0, down = 0, downLast = 0, conn = 0;
};

inline std::unique_ptr<ProtocolLayer> makeLayer(Spec const& s, std::string* text = nullptr, CbCount* cc = nullptr)
{
	switch(s.k) {
	case ESC: return std::make_unique<stored::AsciiEscapeLayer>(false);
	case ESCALL: return std::make_unique<stored::AsciiEscapeLayer>(true);
	case TERM:
		if(text) return std::make_unique<stored::TerminalLayer>([text](void* b, size_t n) { text->append(static_cast<char*>(b), n); });
		return std::make_unique<stored::TerminalLayer>();
	case SEG: return std::make_unique<stored::SegmentationLayer>(s.v);
	case ARQ: return std::make_unique<stored::ArqLayer>();
	case DARQ: return std::make_unique<stored::DebugArqLayer>(s.v);
	case COMP: return std::make_unique<stored::CompressLayer>();
	case CRC8: return std::make_unique<stored::Crc8Layer>();
	case CRC16: return std::make_unique<stored::Crc16Layer>();
	case BUF: return std::make_unique<stored::BufferLayer>(s.v);
	case PRINT: return std::make_unique<stored::PrintLayer>(s.v ? devNull() : nullptr, s.v > 1 ? "name" : nullptr);
	case IDLE: return std::make_unique<stored::IdleCheckLayer>();
	case CB: {
		auto l = stored::make_callback([cc](void*, size_t) { if(cc) cc->up++; }, [cc](void const*, size_t, bool last) { if(cc) { cc->down++; cc->downLast += last; } });
		return std::make_unique<decltype(l)>(std::move(l));
	}
	case CB3: {
		auto l = stored::make_callback([cc](void*, size_t) { if(cc) cc->up++; }, [cc](void const*, size_t, bool last) { if(cc) { cc->down++; cc->downLast += last; } }, [cc]() { if(cc) cc->conn++; });
		return std::make_unique<decltype(l)>(std::move(l));
	}
	}
	return nullptr;
}

// A stack: layer 0 is the top (the recorder), the last one is the bottom.
struct Stack {
	std::vector<std::unique_ptr<ProtocolLayer>> l;
	Recorder* top = nullptr;
	Wire* wire = nullptr; // may be null
	std::string text;
	CbCount cc;

	ProtocolLayer& bottom() { return *l.back(); }

	bool check(std::string const& how)
	{
		bool ok = true;
		for(size_t i = 0; i + 1 < l.size(); i++)
			ok = ok && l[i]->down() == l[i + 1].get() && l[i + 1]->up() == l[i].get();
		ok = ok && !l.front()->up();
		for(auto& x : l)
			ok = ok && &x->top() == l.front().get() && &const_cast<ProtocolLayer const&>(*x).top() == l.front().get();
		if(!ok) violation("stack composition", "layers composed with " + how + " are not linked in the intended order");
		return ok;
	}
	bool checkBottom(std::string const& how)
	{
		for(auto& x : l)
			if(&x->bottom() != l.back().get() || &const_cast<ProtocolLayer const&>(*x).bottom() != l.back().get()) {
				violation("stack composition", "bottom() is not the lowest layer, composed with " + how);
				return false;
			}
		return true;
	}

	// Link all layers in one of the documented ways.
	std::string link(Rng& r)
	{
		size_t n = l.size();
		std::string how;
		ProtocolLayer* res = nullptr;
		switch(n < 3 ? r.below(3) : r.below(6)) {
		case 0:
			how = "wrap()";
			for(size_t i = 1; i < n; i++) res = &l[i]->wrap(*l[i - 1]);
			if(n > 1 && res != l.back().get()) violation("stack composition", "wrap() did not return the new bottom");
			break;
		case 1:
			how = "stack()";
			for(size_t i = n - 1; i > 0; i--) res = &l[i - 1]->stack(*l[i]);
			if(n > 1 && res != l.front().get()) violation("stack composition", "stack() did not return the new top");
			break;
		case 2:
			how = "setUp()/setDown()";
			for(size_t i = 1; i < n; i++) {
				l[i]->setUp(l[i - 1].get());
				l[i - 1]->setDown(l[i].get());
			}
			break;
		case 3: {
			how = "wrap() of two partial stacks";
			size_t k = 1 + (size_t)r.below(n - 1);
			for(size_t i = 1; i < k; i++) l[i]->wrap(*l[i - 1]);
			for(size_t i = k + 1; i < n; i++) l[i]->wrap(*l[i - 1]);
			if(r.flip()) res = &l[k]->wrap(*l[k - 1]);
			else l[k - 1]->stack(*l[k]);
			break;
		}
		case 4: {
			how = "wrap() that injects";
			size_t k = 1 + (size_t)r.below(n - 2);
			// Optionally inject two layers at once.
			size_t k2 = k + 1 < n - 1 && r.flip() ? k + 2 : k + 1;
			for(size_t i = 1; i < n; i++) {
				if(i >= k && i < k2) continue;
				size_t up = i == k2 ? k - 1 : i - 1;
				l[i]->wrap(*l[up]);
			}
			if(k2 == k + 2) l[k + 1]->wrap(*l[k]);
			res = &l[k]->wrap(*l[k - 1]);
			if(res != l.back().get()) violation("stack composition", "injecting wrap() did not return the bottom");
			break;
		}
		default: {
			how = "stack() that injects";
			size_t k = 1 + (size_t)r.below(n - 2);
			size_t k0 = k > 1 && r.flip() ? k - 1 : k;
			for(size_t i = n - 1; i > 0; i--) {
				if(i >= k0 && i <= k) continue;
				size_t up = i == k + 1 ? k0 - 1 : i - 1;
				l[up]->stack(*l[i]);
			}
			if(k0 != k) l[k0]->stack(*l[k]);
			res = &l[k]->stack(*l[k + 1]);
			if(res != l.front().get()) violation("stack composition", "injecting stack() did not return the top");
			break;
		}
		}
		check(how);
		checkBottom(how);
		return how;
	}

	void build(std::vector<Spec> const& specs, size_t mtu, Rng& r, bool probes, bool withWire)
	{
		auto t = std::make_unique<Recorder>();
		top = t.get();
		l.push_back(std::move(t));
		for(auto& s : specs) {
			if(probes && l.size() > 1) l.push_back(std::make_unique<Probe>(lastName));
			l.push_back(makeLayer(s, &text, &cc));
			lastName = s.str();
		}
		if(probes && !specs.empty()) l.push_back(std::make_unique<Probe>(lastName));
		if(withWire) {
			auto w = std::make_unique<Wire>(mtu);
			wire = w.get();
			l.push_back(std::move(w));
		}
		link(r);
	}
	void tearDown(Rng& r)
	{
		// In any order.
		top = nullptr;
		wire = nullptr;
		while(!l.empty()) {
			size_t i = (size_t)r.below(l.size());
			l.erase(l.begin() + (long)i);
		}
	}
private:
	std::string lastName;
};

inline bool has(std::vector<Spec> const& s, Kind k)
{
	for(auto& x : s)
		if(x.k == k) return true;
	return false;
}

// A random stack, that is valid for a transport that keeps frames (or for a stream, when a terminal
// layer is in it and everything below that does not care).
inline std::vector<Spec> randomStack(Rng& r, bool stream, bool arq, unsigned maxLayers = 7)
{
	std::vector<Spec> s;
	auto transparent = [&]() -> Spec {
		static size_t const bufs[] = {0, 1, 2, 3, 8, 64, 1000};
		switch(r.below(5)) {
		case 0: return {PRINT, (size_t)r.below(3)};
		case 1: return {IDLE, 0};
		case 2: return {r.flip() ? CB : CB3, 0};
		default: return {BUF, bufs[r.below(7)]};
		}
	};
	auto seg = [&]() -> Spec {
		static size_t const m[] = {0, 2, 3, 4, 5, 10, 16, 50, 256, 300};
		return {SEG, m[r.below(10)]};
	};
	unsigned n = (unsigned)r.below(maxLayers + 1);
	bool haveArq = false;
	for(unsigned i = 0; i < n; i++) {
		switch(r.below(8)) {
		case 0:
		case 1: s.push_back(seg()); break;
		case 2: s.push_back({r.flip() ? CRC8 : CRC16, 0}); break;
		case 3: s.push_back({r.flip() ? ESC : ESCALL, 0}); break;
		case 4:
			if(arq && !haveArq) {
				s.push_back({ARQ, 0});
				haveArq = true;
				break;
			}
			// fallthrough
		default: s.push_back(transparent()); break;
		}
	}
	if(stream || r.chance(1, 5)) {
		s.push_back({r.flip() ? ESC : ESCALL, 0});
		while(r.chance(1, 4)) s.push_back(r.flip() ? transparent() : seg());
		s.push_back({TERM, 0});
		while(r.chance(1, 4)) s.push_back(transparent());
	}
	return s;
}

} // namespace vf
#endif
