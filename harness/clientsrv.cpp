// C27: a C++ debug target, driven by py_client.py over stdin/stdout.
//
// Commands, one per line, with data in hex:
//   N <n> <store> <prefix> ...   a new debugger with n stores; prefix - for none
//   Q <hex>                      handle a request
//   W <store> <obj> <hex>        the application writes
//   G <store> <obj>              what the object holds
//   T                            trace()
//   Z <stream> <hex>             the application writes to a stream
//   B                            address of memory
//   C                            contents of this memory
// Response: any of O <store> <obj> <type> <size> <func> <name>, R <hex>, r/w <store> <obj> <hex> (object read/written by the request; the value afterwards), V <hex>; ended by a line ".".
#include "storeif.h"
#include <iostream>
#include <libstored/protocol.h>
#include <sstream>

using namespace vf;

static std::string hexs(std::string const& b)
{
	static char const d[] = "0123456789abcdef";
	std::string s;
	for(char ch : b) {
		unsigned char c = (unsigned char)ch;
		s += d[c >> 4];
		s += d[c & 15];
	}
	return s;
}

static std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
	return r;
}

struct Bottom : stored::ProtocolLayer {
	std::string rep;
	unsigned frames = 0;
	void encode(void const* b, size_t n, bool last) override
	{
		rep.append((char const*)b, n);
		if(last) frames++;
	}
	using stored::ProtocolLayer::encode;
};

struct Mapped {
	std::unique_ptr<StoreIf> s;
	std::vector<VarInfo> vars;
	std::map<void*, int> byBuffer;
	std::map<int, int> byFn;
};

__attribute__((no_sanitize("address"))) static std::string raw(Mapped& m, int i)
{
	auto const& o = m.s->objs()[i];
	if(o.func) {
		std::string v = m.s->obs().fnValue[(size_t)o.fnIndex];
		int t = o.type & ~0x40;
		if((t & 0x20) && v.size() < o.size) v.resize(o.size);
		return v;
	}
	std::string r;
	size_t n = o.size;
	for(size_t k = 0; k < n; k++) r += ((char volatile*)m.vars[(size_t)i].buffer)[k];
	return r;
}

static void events(std::vector<Mapped>& ms)
{
	for(size_t s = 0; s < ms.size(); s++) {
		auto& obs = ms[s].s->obs();
		std::map<int, bool> seen;
		for(auto const& h : obs.hooks) {
			if(h.kind != 1 && h.kind != 3) continue;
			auto it = ms[s].byBuffer.find(h.buffer);
			if(it == ms[s].byBuffer.end()) continue;
			seen[it->second] |= h.kind == 1;
		}
		for(auto const& f : obs.fnCalls) seen[ms[s].byFn[f.f]] |= f.set;
		for(auto const& x : seen)
			std::cout << (x.second ? 'w' : 'r') << ' ' << s << ' ' << x.first << ' ' << hexs(raw(ms[s], x.first)) << '\n';
		obs.hooks.clear();
		obs.fnCalls.clear();
	}
}

int main()
{
	std::ios::sync_with_stdio(false);
	std::string line;
	std::vector<Mapped> ms;
	std::unique_ptr<stored::Debugger> d;
	std::unique_ptr<Bottom> bottom;
	static char mem[256];
	while(std::getline(std::cin, line)) {
		std::istringstream in(line);
		char cmd = 0;
		in >> cmd;
		switch(cmd) {
		case 'N': {
			bottom.reset();
			d.reset();
			ms.clear();
			d.reset(new stored::Debugger("target"));
			bottom.reset(new Bottom);
			bottom->wrap(*d);
			size_t n;
			in >> n;
			for(size_t k = 0; k < n; k++) {
				size_t i;
				std::string prefix;
				in >> i >> prefix;
				ms.emplace_back();
				auto& m = ms.back();
				m.s = storeRegs()[i % storeRegs().size()].make();
				std::cout << "P " << k << ' ' << m.s->name() << '\n';
				for(size_t o = 0; o < m.s->count(); o++) {
					auto const& x = m.s->objs()[o];
					m.vars.push_back(m.s->find(x.name, strlen(x.name)));
					if(x.func) m.byFn[x.fnIndex] = (int)o;
					else m.byBuffer[m.vars.back().buffer] = (int)o;
					std::cout << "O " << k << ' ' << o << ' ' << x.type << ' ' << x.size << ' ' << x.func << ' ' << x.name << '\n';
				}
				static char names[8][8];
				snprintf(names[k], sizeof(names[k]), "%s", prefix.c_str());
				m.s->mapTo(*d, prefix == "-" ? nullptr : names[k]);
				m.s->obs().recording = true;
			}
			break;
		}
		case 'Q': {
			std::string h;
			in >> h;
			std::string req = unhex(h);
			bottom->rep.clear();
			bottom->frames = 0;
			bottom->decode(&req[0], req.size());
			std::cout << "R " << bottom->frames << ' ' << hexs(bottom->rep) << '\n';
			events(ms);
			break;
		}
		case 'W': {
			size_t s;
			int o;
			std::string h;
			in >> s >> o >> h;
			std::string v = unhex(h);
			auto const& x = ms[s].s->objs()[o];
			if(x.func) ms[s].s->obs().fnValue[(size_t)x.fnIndex] = v;
			else ms[s].s->setVia(PathFind, o, v.data(), v.size());
			ms[s].s->obs().hooks.clear();
			ms[s].s->obs().fnCalls.clear();
			break;
		}
		case 'G': {
			size_t s;
			int o;
			in >> s >> o;
			std::cout << "V " << hexs(raw(ms[s], o)) << '\n';
			break;
		}
		case 'T':
			d->trace();
			events(ms);
			break;
		case 'Z': {
			std::string n, h;
			in >> n >> h;
			std::string v = unhex(h);
			std::cout << "R " << d->stream(n[0], v.data(), v.size()) << " 00\n";
			break;
		}
		case 'B': std::cout << "V " << std::hex << (uintptr_t)mem << std::dec << '\n'; break;
		case 'C': std::cout << "V " << hexs(std::string(mem, sizeof(mem))) << '\n'; break;
		default: return 4;
		}
		std::cout << ".\n" << std::flush;
	}
	return 0;
}
