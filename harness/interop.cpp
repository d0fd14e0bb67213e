// C28: C++ stacks of protocol layers, driven by py_layers.py over stdin/stdout.
//
// Commands, one per line, with data in hex:
//   S <stack> <mtu> <app>  create a stack, top-down, e.g. "ascii,term,segment=10"; app: 0 = none, 1 = reply to every request, 2 = same, purgeable
//   E <hex>                encode a message at the top
//   N <hex>                encode non-debug data by the terminal layer
//   D <hex>                decode bytes at the bottom
// Response: any of M <hex> (message at the top), T <hex> (non-debug data), F <hex> (frame at the bottom), X <n> (executed requests); ended by a line ".".
#include <libstored/protocol.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <list>
#include <memory>
#include <string>
#include <vector>

static std::string hex(void const* p, size_t n)
{
	static char const d[] = "0123456789abcdef";
	std::string s;
	for(size_t i = 0; i < n; i++) {
		unsigned char c = ((unsigned char const*)p)[i];
		s += d[c >> 4];
		s += d[c & 15];
	}
	return s;
}

static std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
	return r;
}

static void put(char c, std::string const& s) { std::cout << c << ' ' << s << '\n'; }

struct Bottom : stored::ProtocolLayer {
	size_t m = 0;
	std::string frame;
	void encode(void const* b, size_t n, bool last) override
	{
		frame.append((char const*)b, n);
		if(last) {
			put('F', hex(frame.data(), frame.size()));
			frame.clear();
		}
	}
	size_t mtu() const override { return m; }
	using stored::ProtocolLayer::encode;
};

struct Top : stored::ProtocolLayer {
	int app = 0;
	unsigned executed = 0;
	void decode(void* b, size_t n) override
	{
		std::string m((char*)b, n);
		put('M', hex(b, n));
		if(!app) return;
		if(app == 2) setPurgeableResponse();
		executed++;
		// A request tells how long its response is; the response also tells how often requests were executed.
		size_t len = 0;
		for(size_t i = 0; i < m.size() && i < 2; i++) len = len * 256 + (unsigned char)m[i];
		std::string r = std::to_string(executed) + ":" + m + ":";
		while(r.size() < len) r += (char)(r.size() * 7 + executed);
		// In parts
		size_t part = len % 5 ? r.size() : 1 + len % 13;
		for(size_t i = 0; i < r.size(); i += part) {
			size_t k = std::min(part, r.size() - i);
			encode(r.data() + i, k, i + k == r.size());
		}
	}
	using stored::ProtocolLayer::encode;
};

struct Term : stored::TerminalLayer {
	void nonDebugDecode(void* b, size_t n) override { put('T', hex(b, n)); }
};

int main()
{
	std::ios::sync_with_stdio(false);
	std::string line;
	std::unique_ptr<Top> top;
	std::unique_ptr<Bottom> bottom;
	std::list<std::unique_ptr<stored::ProtocolLayer>> layers;
	Term* term = nullptr;
	stored::ProtocolLayer* lowest = nullptr;
	while(std::getline(std::cin, line)) {
		std::string arg = line.size() > 2 ? line.substr(2) : "";
		switch(line.empty() ? 0 : line[0]) {
		case 'S': {
			top.reset();
			while(!layers.empty()) layers.pop_front();
			bottom.reset();
			term = nullptr;
			char desc[256] = "";
			unsigned mtu = 0;
			int app = 0;
			sscanf(arg.c_str(), "%255s %u %d", desc, &mtu, &app);
			top.reset(new Top);
			top->app = app;
			bottom.reset(new Bottom);
			bottom->m = mtu;
			lowest = top.get();
			for(char* p = strtok(desc, ","); p; p = strtok(nullptr, ",")) {
				std::string s(p);
				size_t eq = s.find('=');
				unsigned v = eq == std::string::npos ? 0 : (unsigned)std::stoul(s.substr(eq + 1));
				s = s.substr(0, eq);
				stored::ProtocolLayer* l;
				if(s == "ascii") l = new stored::AsciiEscapeLayer(v != 0);
				else if(s == "term") l = term = new Term;
				else if(s == "segment") l = new stored::SegmentationLayer(v);
				else if(s == "arq") l = new stored::DebugArqLayer(v);
				else if(s == "crc8") l = new stored::Crc8Layer;
				else if(s == "crc16") l = new stored::Crc16Layer;
				else if(s == "raw") l = new stored::ProtocolLayer;
				else return 3;
				l->wrap(*lowest);
				lowest = l;
				layers.emplace_back(l);
			}
			bottom->wrap(*lowest);
			break;
		}
		case 'E': { std::string m = unhex(arg); top->encode(m.data(), m.size(), true); break; }
		case 'N': { std::string m = unhex(arg); term->nonDebugEncode(m.data(), m.size()); break; }
		case 'D': { std::string m = unhex(arg); std::vector<char> b(m.begin(), m.end()); bottom->decode(b.data(), b.size()); break; }
		case 'X': put('X', std::to_string(top->executed)); break;
		default: return 4;
		}
		std::cout << ".\n" << std::flush;
	}
	return 0;
}
