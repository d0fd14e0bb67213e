// C05..C07: the debugger, against a reference model of its protocol.
#include "storeif.h"
#include <algorithm>
extern "C" {
#include <heatshrink_decoder.h>
}

using namespace vf;
typedef stored::Config Config;

static std::string mode;
#define V(m, key, ...)                                               \
	do {                                                         \
		if(mode == m) violation(key, fmt(__VA_ARGS__));      \
	} while(0)

// The layer below the debugger: collects responses.
struct Recorder : stored::ProtocolLayer {
	std::string cur;
	std::vector<std::string> frames;
	bool open = false;
	void encode(void const* buffer, size_t len, bool last = true) final
	{
		if(len) cur.append((char const*)buffer, len);
		open = true;
		if(last) {
			frames.push_back(cur);
			cur.clear();
			open = false;
		}
	}
	using stored::ProtocolLayer::encode;
};

// A heap copy of exactly this size.
struct Frame {
	char* p;
	size_t n;
	explicit Frame(std::string const& s)
		: p((char*)malloc(s.size() ? s.size() : 1)), n(s.size())
	{
		memcpy(p, s.data(), n);
	}
	~Frame() { free(p); }
	Frame(Frame const&) = delete;
};

struct Obj {
	int s, i;
};
static bool isFixed(int t) { return stored::Type::isFixed((stored::Type::type)t); }
static bool isString(int t) { return (t & ~0x40) == 2; }

static std::string toHex(std::string const& v)
{
	std::string r;
	char b[4];
	for(unsigned char c : v) { snprintf(b, sizeof b, "%02x", c); r += b; }
	return r;
}
static int nibble(char c)
{
	if(c >= '0' && c <= '9') return c - '0';
	if(c >= 'a' && c <= 'f') return c - 'a' + 10;
	if(c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
static bool fromHex(std::string const& h, std::string& v)
{
	v.clear();
	if(h.size() % 2) return false;
	for(size_t i = 0; i < h.size(); i += 2) {
		int a = nibble(h[i]), b = nibble(h[i + 1]);
		if(a < 0 || b < 0) return false;
		v += (char)(a * 16 + b);
	}
	return true;
}

// What is expected of a response: a sequence of these.
struct Tok {
	enum { Lit, Num, List, Caps, Stream } t;
	std::string s;			// Lit; Num: shortest form
	size_t width = 0;		// Num: digits
	std::vector<std::string> lines; // List
	char stream = 0;
};
typedef std::vector<Tok> Expect;
static Tok lit(std::string const& s)
{
	Tok t;
	t.t = Tok::Lit;
	t.s = s;
	return t;
}

struct World {
	std::vector<std::unique_ptr<StoreIf>> stores;
	std::vector<std::string> mapName; // empty: not mapped
	std::vector<std::vector<std::string>> value;
	std::set<std::string> mapNames; // the debugger keeps the pointers
	std::unique_ptr<stored::Debugger> dbg;
	Recorder rec;
	std::map<std::string, Obj> names; // what resolves to what, now
	std::vector<std::pair<std::string, Obj>> listed;
	std::map<char, Obj> alias;
	std::map<char, std::string> macro;
	std::set<char> running;
	std::string ident, versions;
	std::string arena, arenaModel;
	std::vector<int> fnCalls; // per store, expected calls during this request
	Rng& r;

	explicit World(Rng& r_) : r(r_) {}

	size_t macroSize() const
	{
		size_t n = 0;
		for(auto& m : macro) n += m.second.size();
		return n;
	}
	static size_t count_(StoreIf& s) { return s.count(); }
	int mapped() const
	{
		int n = 0;
		for(auto& m : mapName) n += !m.empty();
		return n;
	}
	ObjMeta const& meta(Obj o) { return stores[(size_t)o.s]->objs()[o.i]; }

	void remap()
	{
		// macros may hold names that mean something else now
		for(auto& m : macro) {
			std::string q = std::string("m") + m.first, resp;
			request(q, resp);
		}
		macro.clear();
		names.clear();
		listed.clear();
		bool prefix = mapped() > 1 || Config::DebuggerListPrefixAlways;
		for(size_t s = 0; s < stores.size(); s++) {
			if(mapName[s].empty()) continue;
			for(size_t i = 0; i < stores[s]->count(); i++)
				listed.push_back({(prefix ? mapName[s] : "") + stores[s]->objs()[i].name, Obj{(int)s, (int)i}});
		}
		for(auto& l : listed) names[l.first] = l.second;
	}
	void addStore(size_t reg)
	{
		stores.push_back(storeRegs()[reg].make());
		mapName.push_back("");
		auto& s = *stores.back();
		value.emplace_back(s.count());
		for(size_t i = 0; i < s.count(); i++) {
			auto& o = s.objs()[i];
			std::string v;
			if(o.func) {
				if(isFixed(o.type)) { v = r.bytes(o.size); if((o.type & ~0x40) == 0x20) v[0] = (char)(v[0] & 1); }
				else v = r.bytes((size_t)r.below(o.size + 1));
				s.obs().fnValue[(size_t)o.fnIndex] = v;
			} else v = direct((int)stores.size() - 1, (int)i);
			value.back()[i] = v;
		}
		s.obs().recording = true;
	}
	// current value, not through the debugger
	std::string direct(int s, int i)
	{
		auto& o = stores[(size_t)s]->objs()[i];
		if(o.func) return stores[(size_t)s]->obs().fnValue[(size_t)o.fnIndex];
		std::string d(o.size + 8, 0);
		alignas(16) static char buf[1 << 17];
		size_t len = o.size;
		stores[(size_t)s]->getVia(PathFind, i, buf, len);
		return std::string(buf, len);
	}
	// unambiguous abbreviation of a listed name
	std::string abbreviate(std::string const& n)
	{
		auto unique = [&](std::string const& q) {
			int c = 0;
			for(auto& l : listed) if(l.first.compare(0, q.size(), q) == 0 && ++c > 1) return false;
			return c == 1;
		};
		size_t k = n.size();
		while(k > 2 && unique(n.substr(0, k - 1))) k--;
		if(k >= n.size()) return n;
		// must keep the prefix of the store
		if(mapped() > 1 || Config::DebuggerListPrefixAlways) k = std::max(k, n.find('/', 1) + 2);
		if(k >= n.size()) return n;
		return n.substr(0, (size_t)r.range((int64_t)k, (int64_t)n.size()));
	}
	std::string query(std::string const& n, Obj o)
	{
		std::string q = n;
		size_t slash = n.find('/', 1);
		switch(r.below(6)) {
		case 0: case 1: q = abbreviate(n); break;
		case 2:
			// abbreviate the name of the store
			if(mapped() > 1 && slash != std::string::npos) {
				for(size_t k = 2; k < slash; k++) {
					std::string p = n.substr(0, k);
					int c = 0;
					bool exact = false;
					for(auto& m : mapName) { c += m.compare(0, k, p) == 0; exact |= m == p; }
					if((c == 1 && !exact) || (exact && p == mapName[(size_t)o.s])) { q = p + n.substr(slash); break; }
				}
			}
			break;
		case 3:
			for(auto& a : alias) if(a.second.s == o.s && a.second.i == o.i) return std::string(1, a.first);
			break;
		default:;
		}
		if(q.find('\0') != std::string::npos) q = n;
		names[q] = o;
		return q;
	}

	// ---- model
	bool resolve(std::string const& q, Obj& o)
	{
		if(Config::DebuggerAlias > 0 && q.size() == 1 && q[0] != '/') {
			auto it = alias.find(q[0]);
			if(it == alias.end()) return false;
			o = it->second;
			return true;
		}
		auto it = names.find(q);
		if(it == names.end()) return false;
		o = it->second;
		return true;
	}
	std::string fromStream; // filled in for the stream data
	static Tok nack() { return lit("?"); }
	static Tok ack() { return lit("!"); }
	Tok valueTok(Obj o)
	{
		auto& m = meta(o);
		std::string v = value[(size_t)o.s][(size_t)o.i];
		if(m.func) fnCalls[(size_t)o.s]++;
		if(!isFixed(m.type)) {
			v.resize(std::min(v.size(), m.size));
			return lit(toHex(v));
		}
		v.resize(m.size);
		std::reverse(v.begin(), v.end());
		std::string h = toHex(v);
		int t = m.type & ~0x40;
		if(t == 0x2b || t == 0x2f) return lit(h);
		Tok k;
		k.t = Tok::Num;
		k.width = h.size();
		while(h.size() > 1 && h[0] == '0') h.erase(0, 1);
		k.s = h;
		return k;
	}
	bool write(Obj o, std::string const& hexv)
	{
		auto& m = meta(o);
		if(hexv.empty()) return false;
		for(char c : hexv) if(nibble(c) < 0) return false;
		std::string v;
		if(isFixed(m.type)) {
			if(hexv.size() > m.size * 2) return false;
			fromHex(std::string(m.size * 2 - hexv.size(), '0') + hexv, v);
			std::reverse(v.begin(), v.end());
			if((m.type & ~0x40) == 0x20) v[0] = v[0] ? 1 : 0;
		} else if(!fromHex(hexv, v)) return false;
		std::string& x = value[(size_t)o.s][(size_t)o.i];
		if(m.func) {
			fnCalls[(size_t)o.s]++;
			x = v.substr(0, m.size);
		} else if(isFixed(m.type)) x = v;
		else if(isString(m.type)) { x = v.substr(0, m.size); x = x.c_str(); }
		else { v.resize(std::min(v.size(), m.size)); x.replace(0, v.size(), v); }
		return true;
	}
	bool hexNumber(std::string const& s, size_t bytes, uint64_t& x)
	{
		x = 0;
		if(s.empty() || s.size() > bytes * 2) return false;
		for(char c : s) { if(nibble(c) < 0) return false; x = x * 16 + (uint64_t)nibble(c); }
		return true;
	}
	static std::string commands()
	{
		std::string c = "?";
		if(Config::DebuggerRead) c += 'r';
		if(Config::DebuggerWrite) c += 'w';
		if(Config::DebuggerEcho) c += 'e';
		if(Config::DebuggerList) c += 'l';
		if(Config::DebuggerAlias > 0) c += 'a';
		if(Config::DebuggerMacro > 0) c += 'm';
		if(Config::DebuggerIdentification) c += 'i';
		if(Config::DebuggerVersion > 0) c += 'v';
		if(Config::DebuggerReadMem) c += 'R';
		if(Config::DebuggerWriteMem) c += 'W';
		if(Config::DebuggerStreams > 0) c += 's';
		if(Config::DebuggerTrace) c += 't';
		if(Config::CompressStreams) c += 'f';
		return c;
	}
	static bool builtin(char c) { return c && strchr("?rwelamivRWstf", c); }

	// the response that is prescribed
	void model(std::string const& q, Expect& e)
	{
		if(q.empty()) return;
		if(builtin(q[0]) && commands().find(q[0]) == std::string::npos) { e.push_back(nack()); return; }
		std::string a = q.substr(1);
		Obj o;
		switch(q[0]) {
		case '?': {
			Tok t;
			t.t = Tok::Caps;
			for(char c : commands()) if(c != 'i' || !ident.empty()) t.s += c;
			e.push_back(t);
			return;
		}
		case 'r': e.push_back(resolve(a, o) ? valueTok(o) : nack()); return;
		case 'w': {
			if(a.empty()) { e.push_back(nack()); return; }
			size_t p = a.find('/');
			if(p == std::string::npos) p = a.size() - 1;
			e.push_back(resolve(a.substr(p), o) && write(o, a.substr(0, p)) ? ack() : nack());
			return;
		}
		case 'e': e.push_back(lit(a)); return;
		case 'l': {
			if(listed.empty()) { e.push_back(nack()); return; }
			Tok t;
			t.t = Tok::List;
			for(auto& l : listed) t.lines.push_back(fmt("%02x%zx%s\n", meta(l.second).type, meta(l.second).size, l.first.c_str()));
			e.push_back(t);
			return;
		}
		case 'a': {
			if(a.empty() || a[0] < 0x20 || a[0] > 0x7e || a[0] == '/') { e.push_back(nack()); return; }
			if(a.size() == 1) { alias.erase(a[0]); e.push_back(ack()); return; }
			if(!resolve(a.substr(1), o) || (!alias.count(a[0]) && alias.size() >= (size_t)Config::DebuggerAlias)) { e.push_back(nack()); return; }
			alias[a[0]] = o;
			e.push_back(ack());
			return;
		}
		case 'm': {
			if(a.empty()) { e.push_back(nack()); return; }
			char m = a[0];
			if(running.count(m)) { e.push_back(nack()); return; }
			if(a.size() == 1) { macro.erase(m); e.push_back(ack()); return; }
			std::string d = a.substr(1);
			size_t n = macroSize() - (macro.count(m) ? macro[m].size() : 0) + d.size();
			if(n > (size_t)Config::DebuggerMacro) { e.push_back(nack()); return; }
			macro[m] = d;
			e.push_back(ack());
			return;
		}
		case 'i': e.push_back(ident.empty() ? nack() : lit(ident)); return;
		case 'v': e.push_back(lit(fmt("%x", (unsigned)Config::DebuggerVersion) + (versions.empty() ? "" : " " + versions) + (Config::Debug ? " debug" : ""))); return;
		case 'R': {
			size_t sp = a.find(' ');
			uint64_t p, n = sizeof(void*);
			if(!hexNumber(a.substr(0, sp), sizeof(void*), p)) { e.push_back(nack()); return; }
			if(sp != std::string::npos && sp + 1 < a.size() && !hexNumber(a.substr(sp + 1), 4, n)) { e.push_back(nack()); return; }
			if(!n) { e.push_back(nack()); return; }
			size_t off = (size_t)(p - (uintptr_t)arena.data());
			if(off > arena.size() || off + n > arena.size()) harnessError("read outside arena");
			e.push_back(lit(toHex(arenaModel.substr(off, n))));
			return;
		}
		case 'W': {
			size_t sp = a.find(' ');
			uint64_t p;
			std::string d;
			if(sp == std::string::npos || !hexNumber(a.substr(0, sp), sizeof(void*), p) || sp + 1 >= a.size() || !fromHex(a.substr(sp + 1), d)) { e.push_back(nack()); return; }
			size_t off = (size_t)(p - (uintptr_t)arena.data());
			if(off > arena.size() || off + d.size() > arena.size()) harnessError("write outside arena");
			arenaModel.replace(off, d.size(), d);
			e.push_back(ack());
			return;
		}
		case 's': case 'f': case 't': harnessError("not modelled: " + q);
		default: {
			auto it = macro.find(q[0]);
			if(it == macro.end() || running.count(q[0])) { e.push_back(nack()); return; }
			std::string d = it->second;
			running.insert(q[0]);
			size_t pos = 0;
			while(d.size() > 1) {
				size_t next = d.find(d[0], pos + 1);
				model(d.substr(pos + 1, next == std::string::npos ? next : next - pos - 1), e);
				if(next == std::string::npos) break;
				pos = next;
			}
			running.erase(q[0]);
		}
		}
	}
	static bool match(Expect const& e, size_t k, std::string const& s, size_t p)
	{
		if(k == e.size()) return p == s.size();
		auto& t = e[k];
		switch(t.t) {
		case Tok::Lit:
			return s.compare(p, t.s.size(), t.s) == 0 && match(e, k + 1, s, p + t.s.size());
		case Tok::Num:
			for(size_t z = 0; z + t.s.size() <= t.width; z++) {
				if(z && (p + z > s.size() || s[p + z - 1] != '0')) return false;
				std::string x = s.substr(p + z, std::min(t.s.size(), s.size() - p - z));
				for(auto& c : x) c = (char)tolower(c);
				if(x == t.s && match(e, k + 1, s, p + z + t.s.size())) return true;
			}
			return false;
		case Tok::List: {
			std::multiset<std::string> left(t.lines.begin(), t.lines.end());
			while(!left.empty()) {
				bool hit = false;
				for(auto it = left.begin(); it != left.end(); ++it)
					if(s.compare(p, it->size(), *it) == 0) { p += it->size(); left.erase(it); hit = true; break; }
				if(!hit) return false;
			}
			return match(e, k + 1, s, p);
		}
		case Tok::Caps: {
			if(p + t.s.size() > s.size()) return false;
			std::string a = s.substr(p, t.s.size()), b = t.s;
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			return a == b && match(e, k + 1, s, p + t.s.size());
		}
		default: return false;
		}
	}
	static std::string showExpect(Expect const& e)
	{
		std::string r;
		for(auto& t : e) {
			if(t.t == Tok::Lit) r += show(t.s, 200);
			else if(t.t == Tok::Num) r += "0*" + t.s;
			else if(t.t == Tok::List) for(auto& l : t.lines) r += show(l);
			else r += "{" + t.s + "}";
		}
		return r;
	}

	// Sends a request; false when there is not exactly one response.
	bool request(std::string const& q, std::string& resp)
	{
		rec.frames.clear();
		rec.cur.clear();
		rec.open = false;
		Frame f(q);
		rec.decode(f.p, f.n);
		count("requests");
		countMax("response", rec.frames.empty() ? 0 : rec.frames[0].size());
		if(rec.frames.size() != 1 || rec.open) {
			V("c05", fmt("responses-%zu%s", std::min<size_t>(rec.frames.size(), 2), rec.open ? "-open" : ""), "request %s gives %zu responses%s", show(q).c_str(), rec.frames.size(), rec.open ? ", and an incomplete one" : "");
			V("c06", fmt("responses-%zu%s", std::min<size_t>(rec.frames.size(), 2), rec.open ? "-open" : ""), "request %s gives %zu responses%s", show(q).c_str(), rec.frames.size(), rec.open ? ", and an incomplete one" : "");
			return false;
		}
		resp = rec.frames[0];
		return true;
	}

	std::string hexValue(ObjMeta const& m)
	{
		std::string v;
		if(isFixed(m.type)) {
			v = r.bytes(m.size);
			if((m.type & ~0x40) == 0x20) v[0] = (char)(r.chance(1, 8) ? r.below(256) : r.below(2));
			std::string h = toHex(v);
			if(r.flip()) while(h.size() > 1 && h[0] == '0') h.erase(0, 1);
			else if(r.chance(1, 4)) h.erase(0, (size_t)r.below(h.size()));
			if(r.chance(1, 5)) for(auto& c : h) c = (char)toupper(c);
			if(r.chance(1, 40)) h += "00";
			return h;
		}
		switch(r.below(4)) {
		case 0: v = r.bytes(m.size); break;
		case 1: v = r.bytes(m.size + (size_t)r.below(4)); break;
		default: v = r.bytes((size_t)r.below(m.size + 1)); break;
		}
		return toHex(v);
	}
	void corrupt(std::string& h)
	{
		if(h.empty()) return;
		static char const bad[] = "gG:@`/ \x00\xff?xX-+";
		h[(size_t)r.below(h.size())] = bad[r.below(sizeof(bad) - 1)];
		h.erase(std::remove(h.begin(), h.end(), '/'), h.end());
	}
	char aliasChar()
	{
		return r.chance(1, 30) ? (char)r.below(256) : r.flip() ? (char)('0' + r.below(4)) : (char)r.range(0x20, 0x7e);
	}
	char macroChar()
	{
		char c = r.chance(1, 30) ? (char)r.below(256) : r.flip() ? (char)('A' + r.below(5)) : (char)r.range(0x20, 0x7e);
		return c;
	}

	// A valid or almost valid request, that the model covers.
	std::string command(int depth)
	{
		auto pick = [&]() -> std::pair<std::string, Obj> { return listed[(size_t)r.below(listed.size())]; };
		for(;;) {
			switch(r.below(depth ? 15 : 20)) {
			case 0: return "?";
			case 1: case 2: case 3: {
				if(listed.empty()) return "r";
				auto l = pick();
				return "r" + query(l.first, l.second);
			}
			case 4: case 5: case 6: case 7: {
				if(listed.empty()) return "w";
				auto l = pick();
				std::string h = hexValue(meta(l.second));
				if(r.chance(1, 12)) corrupt(h);
				return "w" + h + query(l.first, l.second);
			}
			case 8: return "e" + (depth ? std::string(1, ";:, "[r.below(4)]) : r.bytes(r.size(300)));
			case 9: return r.chance(1, 3) ? "l" : "e";
			case 10: case 11: {
				if(listed.empty()) return "a";
				auto l = pick();
				std::string q = query(l.first, l.second);
				char c = aliasChar();
				if(c == '/') return "a/";
				return "a" + std::string(1, c) + q;
			}
			case 12: return std::string("a") + aliasChar();
			case 13: return r.flip() ? "i" : "v";
			case 14: { // something short
				static char const* const s[] = {"r", "w", "a", "m", "wa", "w0", "i", "v", "r/", "a/"};
				std::string x = s[r.below(10)];
				if(x == "r/" && mapped() < 2) continue;
				return x;
			}
			case 15: case 16: {
				static char const seps[] = "\n\r\t;|#";
				std::string d, m = std::string("m") + macroChar();
				char sep = seps[r.below(6)];
				int n = (int)r.below(6);
				for(int i = 0; i < n; i++) {
					std::string c;
					do c = command(depth + 1);
					while(c.find(sep) != std::string::npos);
					if(r.chance(1, 6)) c = std::string(1, macroChar()); // nested; at most this many
					if(r.chance(1, 12)) c = "m" + std::string(1, macroChar()) + (r.flip() ? "" : std::string(1, sep == ';' ? '#' : ';') + "e" + "x");
					if(c.size() && strchr("sft", c[0])) c = "?";
					if(c.find(sep) != std::string::npos) c = "i";
					d += sep + c;
				}
				if(r.chance(1, 10)) d += sep;
				return m + d;
			}
			case 17: case 18: {
				if(macro.empty() || r.chance(1, 8)) {
					char c = macroChar();
					if(builtin(c)) continue;
					return std::string(1, c) + (r.flip() ? "" : r.bytes(3));
				}
				auto it = macro.begin();
				std::advance(it, (long)r.below(macro.size()));
				if(builtin(it->first)) continue;
				return std::string(1, it->first);
			}
			case 19: {
				if(!Config::DebuggerReadMem && !Config::DebuggerWriteMem) continue;
				size_t off = (size_t)r.below(arena.size()), n = std::min(r.size(300), arena.size() - off);
				std::string p = fmt(r.flip() ? "%zx" : "%016zX", (size_t)((uintptr_t)arena.data() + off));
				if(r.flip()) {
					if(r.chance(1, 6)) { if(off + sizeof(void*) > arena.size()) continue; return "R" + p + (r.flip() ? "" : " "); }
					return "R" + p + fmt(" %zx", n) + (r.chance(1, 20) ? "q" : "");
				}
				std::string h = toHex(r.bytes(n));
				if(n <= 30 && n && r.chance(1, 8)) corrupt(h);
				if(r.chance(1, 15)) h += "0";
				return "W" + p + (r.chance(1, 20) ? "" : " ") + h;
			}
			}
		}
	}
	// is every object what it should be?
	void compare(std::string const& q)
	{
		for(size_t s = 0; s < stores.size(); s++)
			for(size_t i = 0; i < stores[s]->count(); i++) {
				std::string v = direct((int)s, (int)i);
				if(v != value[s][i]) {
					V("c06", "store-contents", "after %s, %s of %s is %s instead of %s", show(q, 200).c_str(), show(stores[s]->objs()[i].name).c_str(), mapName[s].c_str(), hex(v).c_str(), hex(value[s][i]).c_str());
					value[s][i] = v;
				}
			}
		if(arena != arenaModel) {
			V("c06", "memory-contents", "after %s, the memory has other contents than it should", show(q, 200).c_str());
			arena = arenaModel;
		}
	}
	std::string snapshotVars()
	{
		std::string r_;
		for(size_t s = 0; s < stores.size(); s++)
			for(size_t i = 0; i < stores[s]->count(); i++)
				if(!stores[s]->objs()[i].func) { r_ += direct((int)s, (int)i); r_ += '|'; }
		return r_;
	}
	void mapStore(size_t s, std::string const& name)
	{
		// replaces what was there with that name
		for(size_t x = 0; x < stores.size(); x++) if(mapName[x] == name) { dropAliases((int)x); mapName[x].clear(); }
		mapName[s] = name;
		stores[s]->mapTo(*dbg, mapNames.insert(name).first->c_str());
		remap();
	}
	void dropAliases(int s)
	{
		for(auto it = alias.begin(); it != alias.end();) if(it->second.s == s) it = alias.erase(it); else ++it;
	}
	void setup(int nstores)
	{
		static char const* const pre[] = {"/a", "/aa", "/ab", "/b", "/b2", "/store", "/stores", "/st", "/A b", "/caa", "/cb"};
		dbg.reset(new stored::Debugger());
		rec.wrap(*dbg);
		if(r.flip()) { ident = "id " + std::to_string(r.below(100)); dbg->setIdentification(ident.c_str()); }
		if(r.flip()) { versions = "v1 r" + std::to_string(r.below(100)); dbg->setVersions(versions.c_str()); }
		for(int i = 0; i < nstores; i++) {
			addStore((size_t)r.below(storeRegs().size()));
			std::string n;
			do n = pre[r.below(sizeof pre / sizeof *pre)];
			while(std::find(mapName.begin(), mapName.end(), n) != mapName.end());
			mapStore((size_t)i, n);
		}
		arena = r.bytes(512);
		arenaModel = arena;
		remap();
	}
};

// ---------------------------------------------------------------- C05
static void runC05(Rng& r)
{
	World w(r);
	w.setup((int)r.below(4));
	int n = ctx().thorough ? 400 : 150;
	std::string trace;
	for(int k = 0; k < n; k++) {
		std::string q;
		switch(r.below(10)) {
		case 0: q = r.bytes(1 + r.size(200)); break;
		case 1: q = std::string(1, "?rwelamivRWstf"[r.below(14)]) + r.bytes(r.size(60)); break;
		case 2: { // streams and traces
			static char const* const c = "sftm";
			q = std::string(1, c[r.below(4)]);
			size_t m = (size_t)r.below(6);
			for(size_t i = 0; i < m; i++) q += "AB012?x;\0f"[r.below(10)];
			if(q[0] == 'm' && q.size() > 1) { // a macro that works on streams, traces and macros
				q.resize(2);
				for(size_t i = 0; i < 6; i++) {
					static char const* const x[] = {"sA", "sB", "fA", "f", "s", "tAB", "tBB3", "t", "A", "B", "mA", "mB", "mA#eA", "?", "eyyyyyyyyyyyyyyyyyy", "sA."};
					q += std::string(";") + x[r.below(16)];
				}
			}
			break;
		}
		default:
			q = w.command(0);
			for(int e = (int)r.below(4); e > 0 && !q.empty(); e--) {
				size_t p = (size_t)r.below(q.size());
				switch(r.below(5)) {
				case 0: q[p] = (char)r.below(256); break;
				case 1: q.erase(p, 1); break;
				case 2: q.insert(p, 1, (char)r.below(256)); break;
				case 3: q.resize(p); break;
				case 4: q.insert(p, q.substr((size_t)r.below(q.size()))); break;
				}
			}
		}
		// direct memory access is not for arbitrary addresses
		if(Config::DebuggerReadMem || Config::DebuggerWriteMem)
			while(q.find('R') != std::string::npos || q.find('W') != std::string::npos) q[q.find_first_of("RW")] = 'r';
		if(q.empty()) continue;
		label(fmt("request %d: %s", k, show(q, 300).c_str()));
		if(r.chance(1, 4)) w.dbg->trace();
		if(r.chance(1, 6)) { std::string d = r.bytes(r.size(400)); w.dbg->stream("AB01x"[r.below(5)], d.data(), d.size()); }
		if(r.chance(1, 40)) { // (un)map, destroy
			if(!w.stores.empty() && r.flip()) {
				size_t s = (size_t)r.below(w.stores.size());
				w.dbg->unmap(w.mapName[s].c_str());
				w.stores.erase(w.stores.begin() + (long)s);
				w.mapName.erase(w.mapName.begin() + (long)s);
				w.value.erase(w.value.begin() + (long)s);
				w.alias.clear();
				count("stores destroyed");
			} else {
				w.addStore((size_t)r.below(storeRegs().size()));
				std::string nm = "/n" + std::to_string(k);
				w.mapStore(w.stores.size() - 1, nm);
			}
			w.remap();
		}
		std::string before = w.snapshotVars();
		std::string resp;
		bool builtin = World::builtin(q[0]);
		if(!w.request(q, resp)) break;
		if(builtin && q[0] != 'w' && w.snapshotVars() != before)
			V("c05", fmt("changed-by-%c", q[0]), "request %s changes a variable", show(q).c_str());
		if(q[0] == 'w' && resp == "?" && w.snapshotVars() != before)
			V("c05", "changed-by-refused-write", "request %s is refused, but changes a variable", show(q).c_str());
		count(resp == "?" ? "refused" : resp == "!" ? "acknowledged" : "answered");
		sig(q);
		if(k < 6) trace += show(q, 60) + " -> " + show(resp, 40) + "; ";
	}
	sample(trace);
}

// ---------------------------------------------------------------- C06
static void runC06(Rng& r)
{
	World w(r);
	w.setup(r.chance(1, 12) ? 0 : r.chance(2, 5) ? 1 : (int)r.range(2, 4));
	int n = ctx().thorough ? 300 : 100;
	std::string trace;
	for(int k = 0; k < n; k++) {
		if(r.chance(1, 40) && !w.stores.empty()) {
			size_t s = (size_t)r.below(w.stores.size());
			if(!w.mapName[s].empty() && r.chance(2, 3)) {
				w.dbg->unmap(w.mapName[s].c_str());
				w.dropAliases((int)s);
				w.mapName[s].clear();
				w.remap();
			} else if(w.mapName[s].empty()) w.mapStore(s, "/re" + std::to_string(r.below(4)));
			count("map changes");
		}
		std::string q = w.command(0);
		if(q.size() && World::builtin(q[0]) && strchr("sft", q[0]) && World::commands().find(q[0]) != std::string::npos) continue;
		w.fnCalls.assign(w.stores.size(), 0);
		for(auto& s : w.stores) { s->obs().fnCalls.clear(); s->obs().hooks.clear(); s->obs().changedCalls.clear(); }
		Expect e;
		w.model(q, e);
		label(fmt("request %d: %s", k, show(q, 300).c_str()));
		std::string resp;
		if(!w.request(q, resp)) break;
		count(fmt("request:%c", World::builtin(q[0]) ? q[0] : '*'));
		if(!World::match(e, 0, resp, 0)) {
			V("c06", fmt("response-%c", World::builtin(q[0]) ? q[0] : '*'), "%s gives %s instead of %s", show(q, 300).c_str(), show(resp, 300).c_str(), World::showExpect(e).c_str());
			break;
		}
		w.compare(q);
		for(size_t s = 0; s < w.stores.size(); s++)
			if((int)w.stores[s]->obs().fnCalls.size() != w.fnCalls[s]) {
				V("c06", "function-calls", "%s calls %zu functions instead of %d", show(q, 300).c_str(), w.stores[s]->obs().fnCalls.size(), w.fnCalls[s]);
			}
		sig(hashBytes(q.data(), q.size(), hashBytes(resp.data(), resp.size())));
		if(resp.size() == 1 && resp == "?") count("refused");
		if(trace.size() < 700) trace += show(q, 80) + " -> " + show(resp, 60) + "; ";
		if(ctx().caseViolated) break;
	}
	sample(trace);
}

// ---------------------------------------------------------------- C07
static std::string clientDecode(std::string const& in, bool& bad)
{
	std::string r;
	heatshrink_decoder* d = heatshrink_decoder_alloc(256, 8, 4);
	size_t p = 0;
	uint8_t buf[512];
	auto poll = [&]() {
		for(;;) {
			size_t n = 0;
			auto res = heatshrink_decoder_poll(d, buf, sizeof buf, &n);
			if(res < 0) { bad = true; return; }
			r.append((char*)buf, n);
			if(res == HSDR_POLL_EMPTY) return;
		}
	};
	while(p < in.size()) {
		size_t n = 0;
		heatshrink_decoder_sink(d, (uint8_t*)in.data() + p, in.size() - p, &n);
		p += n;
		poll();
	}
	while(heatshrink_decoder_finish(d) == HSDR_FINISH_MORE) poll();
	heatshrink_decoder_free(d);
	return r;
}

struct StreamModel {
	struct Chunk {
		std::string data;
		bool optional;
	};
	std::vector<Chunk> chunks;
	std::set<std::pair<size_t, size_t>> at{{0, 0}}; // possible positions
	std::string segment;	// compressed data since the last reset
	size_t decoded = 0;	// of this segment
	size_t sinceDrain = 0;	// upper bound of the bytes written since then
	bool flushed = false, must = false, maybe = false;
	int traceChunks = 0;

	void settle()
	{
		// may end a chunk, may skip optional ones
		bool more = true;
		while(more) {
			more = false;
			for(auto p : at) {
				if(p.first >= chunks.size()) continue;
				auto& c = chunks[p.first];
				if((p.second == c.data.size() || (p.second == 0 && c.optional)) && at.insert({p.first + 1, 0}).second) { more = true; break; }
			}
		}
	}
	bool feed(std::string const& s, std::string& why)
	{
		for(size_t k = 0; k < s.size(); k++) {
			settle();
			std::set<std::pair<size_t, size_t>> n;
			for(auto p : at)
				if(p.first < chunks.size() && p.second < chunks[p.first].data.size() && chunks[p.first].data[p.second] == s[k]) n.insert({p.first, p.second + 1});
			if(n.empty()) {
				why = fmt("byte %zu of %s does not continue what was accepted", k, show(s, 300).c_str());
				for(auto p : at) why += fmt("; at %zu of %zu: %s", p.first, chunks.size(), p.first < chunks.size() ? show(chunks[p.first].data.substr(p.second), 100).c_str() : "end");
				return false;
			}
			at = n;
		}
		return true;
	}
	bool done()
	{
		settle();
		bool d = at.count({chunks.size(), 0});
		if(d) { chunks.clear(); at = {{0, 0}}; }
		return d;
	}
};

static void runC07(Rng& r)
{
	if(Config::DebuggerStreams < 1) { count("no streams"); sig("no streams"); return; }
	World w(r);
	w.dbg.reset(new stored::Debugger());
	w.rec.wrap(*w.dbg);
	size_t reg = 0;
	for(size_t i = 0; i < storeRegs().size(); i++) if(!strcmp(storeRegs()[i].name, "HFunc")) reg = i;
	w.addStore(reg);
	w.mapStore(0, "/f");
	std::map<char, StreamModel> st;
	size_t const Max = Config::DebuggerStreamBuffer, Over = Config::DebuggerStreamBufferOverflow;
	bool const Z = Config::CompressStreams;
	static char const names[] = "ABCDsf0/ ";
	int nnames = (int)r.range(1, sizeof names - 1);
	std::string log;
	// the trace macro: echoes and reads; always one function that serves as counter
	auto objs = w.stores[0]->objs();
	std::vector<int> fns, vars;
	for(size_t i = 0; i < w.stores[0]->count(); i++) (objs[(int)i].func ? fns : vars).push_back((int)i);
	std::string resp;
	bool ok = true;
	auto req = [&](std::string const& q) {
		if(!w.request(q, resp)) { violation("responses", "no single response to " + show(q)); ok = false; }
		return ok;
	};
	auto fullName = [&](int i) { return std::string(Config::DebuggerListPrefixAlways ? "/f" : "") + objs[i].name; };
	bool tracing = false;
	char traceStream = 0;
	uint64_t period = 1, sinceSample = 0, eligible = 0;
	bool phase = false;
	int counterFn = -1;
	auto defMacro = [&]() {
		counterFn = (int)(size_t)fns[(size_t)r.below(fns.size())];
		// a short one if not much fits
		std::string d = "mT;";
		if(r.flip()) d += "e" + r.bytes(1 + (size_t)r.below(6)) + ";";
		for(auto& c : d.substr(3)) (void)c;
		std::string head = d.substr(0, 3), body = d.substr(3);
		if(!body.empty()) { for(size_t i = 0; i + 1 < body.size(); i++) if(body[i] == ';') body[i] = ':'; }
		d = head + body + "r" + fullName(counterFn) + ";e ";
		int n = (int)r.below(3);
		for(int i = 0; i < n; i++) {
			std::string add = ";r" + fullName(vars[(size_t)r.below(vars.size())]);
			if(d.size() + add.size() < (size_t)Config::DebuggerMacro) d += add;
		}
		req(d);
		if(resp != "!") { req("mT;r" + fullName(counterFn)); if(resp != "!") harnessError("cannot define macro"); }
		log += show(d, 60) + "; ";
	};
	auto randomiseFn = [&]() {
		auto& o = objs[counterFn];
		std::string v = isFixed(o.type) ? r.bytes(o.size) : r.bytes((size_t)r.below(o.size + 1));
		if((o.type & ~0x40) == 0x20) v[0] = (char)(v[0] & 1);
		w.stores[0]->obs().fnValue[(size_t)o.fnIndex] = v;
	};
	auto worst = [&](size_t n) { return Z ? n + n / 8 + 8 : n; };
	auto liveOthers = [&](char s) { // streams that may hold data
		int n = 0;
		for(auto& x : st) n += x.first != s && x.second.maybe;
		return n;
	};
	auto read = [&](char s, std::string const& data, bool viaFlush) -> bool {
		auto& m = st[s];
		if(viaFlush) m.flushed = true;
		std::string plain;
		bool bad = false;
		if(Z) {
			m.segment += data;
			std::string all = clientDecode(m.segment, bad);
			if(bad) { violation("undecodable", fmt("stream %c cannot be decompressed; %s", s, log.c_str())); return false; }
			// the padding of the last byte may look like data, as long as the stream has not ended
			if(all.size() < m.decoded) { violation("undecodable", fmt("stream %c: decompresses to less than before", s)); return false; }
			plain = all.substr(m.decoded);
			m.decoded = all.size();
		} else plain = data;
		std::string why;
		count("stream bytes read", plain.size());
		if(!m.feed(plain, why)) { violation("stream-data", fmt("stream %s: %s; %s", show(std::string(1, s)).c_str(), why.c_str(), log.c_str())); return false; }
		if(!Z || m.flushed) {
			if(!m.done()) {
				violation("stream-lost", fmt("stream %s: data that was accepted is missing after %s; %s", show(std::string(1, s)).c_str(), Z ? "a flush" : "a read", log.c_str()));
				return false;
			}
			m.must = m.maybe = false;
		}
		// the compressor may still hold data
		m.sinceDrain = Z && !m.flushed ? std::min<size_t>(m.sinceDrain, 400) : 0;
		if(m.flushed) { m.segment.clear(); m.decoded = 0; m.flushed = false; }
		return true;
	};
	// Whether a stream exists is known at any time: when a new one could have been made, others could have been recycled.
	auto probe = [&](char s) -> bool {
		if(!req(std::string("s") + s + "#")) return false;
		if(resp == "?") {
			if(st.count(s) && st[s].must) { violation("stream-gone", fmt("stream %s with data does not exist; %s", show(std::string(1, s)).c_str(), log.c_str())); return false; }
			st.erase(s);
			return true;
		}
		if(resp.empty() || resp.back() != '#') { violation("suffix", "no suffix in " + show(resp)); return false; }
		resp.pop_back();
		return read(s, resp, false);
	};
	auto created = [&](char s) -> bool {
		std::vector<char> e;
		for(auto& x : st) if(x.first != s && !x.second.must) e.push_back(x.first);
		for(char c : e) if(!probe(c)) return false;
		return true;
	};
	auto suffix = [&]() { return r.flip() ? "" : r.flip() ? "|" : r.bytes(1 + (size_t)r.below(4)); };
	auto doRead = [&](char s) -> bool {
		std::string suf = suffix();
		bool atomic = Z && r.flip();
		std::string q = std::string("s") + s + suf;
		bool viaMacro = atomic && suf.find('\n') == std::string::npos && s != '\n';
		if(viaMacro) {
			req(std::string("mX\nf") + s + "\n" + q);
			if(resp != "!") viaMacro = false;
			else q = "X";
		}
		if(!req(q)) return false;
		if(viaMacro) {
			if(resp.empty() || resp[0] != '!') { violation("flush-response", "no ack for flush: " + show(resp)); return false; }
			resp.erase(0, 1);
		}
		std::string rp = resp;
		if(viaMacro) req("mX");
		log += "read " + show(std::string(1, s)) + (viaMacro ? "(flush) " : " ") + fmt("%zu; ", rp.size());
		count("stream reads");
		if(rp == "?" && !(st.count(s) && st[s].must)) {
			// does not exist (anymore)
			st.erase(s);
			return true;
		}
		if(rp.size() < suf.size() || rp.compare(rp.size() - suf.size(), suf.size(), suf)) {
			violation("suffix", fmt("response to %s does not end with the suffix: %s", show(q).c_str(), show(rp).c_str()));
			return false;
		}
		rp.resize(rp.size() - suf.size());
		return read(s, rp, viaMacro);
	};
	auto doFlush = [&](char s) -> bool {
		if(!Z) return true;
		bool all = r.chance(1, 4);
		if(!req(all ? std::string("f") : std::string("f") + s)) return false;
		if(resp != "!") { violation("flush-response", "flush gives " + show(resp)); return false; }
		for(auto& x : st) if(all || x.first == s) x.second.flushed = true;
		log += all ? "flush; " : "flush " + show(std::string(1, s)) + "; ";
		count("flushes");
		return true;
	};

	int n = ctx().thorough ? 600 : 200;
	if(Config::DebuggerTrace && Config::DebuggerRead && Config::DebuggerEcho) defMacro();
	for(int k = 0; k < n && ok && !ctx().caseViolated; k++) {
		char s = names[r.below((uint64_t)nnames)];
		if(log.size() > 1500) log.erase(0, log.size() - 1000);
		label(log);
		switch(r.below(14)) {
		case 0: case 1: case 2: case 3: {
			std::string d = r.bytes(r.size(r.flip() ? Max / 3 : Max * 2));
			if(r.chance(1, 3)) d = std::string(d.size(), 'z');
			Frame f(d);
			size_t live = (size_t)liveOthers(s);
			bool known = st.count(s);
			size_t a = w.dbg->stream(s, f.p, f.n);
			auto& m = st[s];
			log += fmt("stream %s %zu -> %zu; ", show(std::string(1, s)).c_str(), d.size(), a);
			if(a > d.size()) { violation("accepted-more", fmt("stream() of %zu bytes accepts %zu", d.size(), a)); break; }
			bool room = (m.must || live < (size_t)Config::DebuggerStreams) && !m.flushed && worst(m.sinceDrain + d.size()) <= Max;
			if(room && a != d.size()) { violation("refused", fmt("stream %c accepts only %zu of %zu bytes, while there is room; %s", s, a, d.size(), log.c_str())); break; }
			if(a) {
				m.chunks.push_back({d.substr(0, a), false});
				m.sinceDrain += a;
				m.must = m.maybe = true;
				count("stream bytes accepted", a);
				if(!Z && m.sinceDrain > Max + Over && !m.traceChunks) violation("over-limit", fmt("stream %c holds %zu bytes, more than configured", s, m.sinceDrain));
			}
			if(!known) { if(!a && !probe(s)) break; created(s); }
			if(a < d.size()) count("partially or not accepted");
			break;
		}
		case 4: doRead(s); break;
		case 5: doFlush(s); break;
		case 6: if(doFlush(s)) doRead(s); break;
		case 7: {
			if(!req("s")) break;
			std::set<char> l(resp.begin(), resp.end());
			if(resp == "?") l.clear();
			if(resp != "?" && l.size() != resp.size()) violation("listing", "listing has duplicates: " + show(resp));
			for(auto& x : st) {
				if(x.second.must && !l.count(x.first)) violation("listing", fmt("stream %s with data is not listed by %s; %s", show(std::string(1, x.first)).c_str(), show(resp).c_str(), log.c_str()));
				if(!x.second.maybe && l.count(x.first)) violation("listing", fmt("stream %s without data is listed; %s", show(std::string(1, x.first)).c_str(), log.c_str()));
			}
			for(char c : l) if(!st.count(c)) violation("listing", fmt("stream %s was never used; %s", show(std::string(1, c)).c_str(), log.c_str()));
			break;
		}
		case 8: { // trace settings
			if(!Config::DebuggerTrace) break;
			int what = (int)r.below(6);
			if(what == 0) {
				req("t");
				if(resp != "!") violation("trace-command", "t gives " + show(resp));
				tracing = false;
				log += "t; ";
			} else if(what == 1) {
				static char const* const bad[] = {"tT", "tTAx", "tTA1g", "tTA "};
				char const* b = bad[r.below(4)];
				req(b);
				if(resp != "?") violation("trace-command", std::string(b) + " gives " + show(resp));
				tracing = false;
				log += std::string(b) + "; ";
				if(strlen(b) > 2 && !st.count('A')) { if(probe('A')) created('A'); }
			} else {
				uint64_t p = r.flip() ? 1 : (uint64_t)r.range(2, 20);
				bool can = (size_t)liveOthers(s) < (size_t)Config::DebuggerStreams || (st.count(s) && st[s].must);
				req(std::string("tT") + s + (p == 1 && r.flip() ? "" : fmt("%" PRIx64, p)));
				log += fmt("tT%s%" PRIu64 "; ", show(std::string(1, s)).c_str(), p);
				if(resp != "!" && (can || resp != "?")) violation("trace-command", "t gives " + show(resp) + log);
				tracing = resp == "!";
				if(tracing) { traceStream = s; period = p; sinceSample = 0; eligible = 0; phase = false; }
				if(!st.count(s)) { if(probe(s)) created(s); }
			}
			break;
		}
		case 9:
			if(r.chance(1, 4) && counterFn >= 0) defMacro();
			break;
		default: {
			if(counterFn < 0) break;
			int m = 1 + (int)r.below(8);
			for(int i = 0; i < m && ok && !ctx().caseViolated; i++) {
				randomiseFn();
				if(!req("T")) break;
				std::string sampleData = resp;
				w.stores[0]->obs().fnCalls.clear();
				char ts = traceStream;
				bool known = st.count(ts);
				StreamModel none, &sm0 = known ? st[ts] : none;
				// it certainly fits
				bool room = tracing && (sm0.must || liveOthers(ts) < Config::DebuggerStreams) && worst(sm0.sinceDrain) < Max
					&& (sm0.sinceDrain == 0 ? Over <= Max : worst(sm0.sinceDrain) + Over <= Max);
				w.dbg->trace();
				size_t calls = w.stores[0]->obs().fnCalls.size();
				count("trace calls");
				if(calls > 1) { violation("trace-executions", fmt("one call of trace() executes the macro %zu times; %s", calls, log.c_str())); break; }
				if(!tracing) {
					if(calls) violation("trace-disabled", "macro is executed while tracing is disabled; " + log);
					continue;
				}
				sinceSample++;
				if(room) eligible++;
				else eligible = 0;
				if(calls) {
					log += "sample; ";
					if(phase && sinceSample % period != 0) { violation("trace-decimation", fmt("sample after %" PRIu64 " calls with decimation %" PRIu64 "; %s", sinceSample, period, log.c_str())); break; }
					phase = true;
					sinceSample = 0;
					eligible = 0;
					// taken; complete, or dropped as a whole when there is no room
					auto& sm = st[ts];
					bool sure = room && !sm.flushed;
					sm.chunks.push_back({sampleData, !sure});
					sm.sinceDrain += sampleData.size();
					sm.maybe = true;
					if(sure && sampleData.size()) { sm.must = true; count("samples"); }
					else count("samples, possibly dropped");
					sm.traceChunks++;
				} else if(eligible >= period) {
					violation("trace-missing", fmt("no sample for %" PRIu64 " calls with decimation %" PRIu64 " while there is room; %s", eligible, period, log.c_str()));
				}
				if(!known) { if(!(st.count(ts) && st[ts].must) && !probe(ts)) break; created(ts); }
			}
		}
		}
		sig(hashBytes(log.data(), log.size()));
	}
	if(ok && !ctx().caseViolated)
		for(int i = 0; i < nnames && !ctx().caseViolated; i++) {
			if(Z) { req(std::string("f") + names[i]); if(st.count(names[i])) st[names[i]].flushed = true; }
			if(st.count(names[i])) doRead(names[i]);
			if(st.count(names[i]) && !ctx().caseViolated && st[names[i]].must) violation("stream-lost", "data of stream remains after a flush and read; " + log);
		}
	sample(log);
}

int main(int argc, char** argv)
{
	std::sort(storeRegs().begin(), storeRegs().end(), [](StoreReg const& a, StoreReg const& b) { return strcmp(a.name, b.name) < 0; });
	return runMain(argc, argv, [](Rng& r) {
		mode = ctx().arg("mode", "c06");
		if(mode == "c05") runC05(r);
		else if(mode == "c06") runC06(r);
		else if(mode == "c07") runC07(r);
	});
}
