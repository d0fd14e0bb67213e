// C15..C18: networks of synchronizers, with all messages under control of the harness.
#include "syncif.h"
#include <algorithm>
#include <deque>

using namespace vf;
using stored::Synchronizer;

static std::string mode;
#define V(m, key, ...)                                           \
	do {                                                     \
		if(mode == m) violation(key, fmt(__VA_ARGS__)); \
	} while(0)

static bool const little = stored::Config::StoreInLittleEndian;
static unsigned get16(char const* p) { return little ? (uint8_t)p[0] | (uint8_t)p[1] << 8 : (uint8_t)p[1] | (uint8_t)p[0] << 8; }
static std::string put16(unsigned x) { return little ? std::string{(char)x, (char)(x >> 8)} : std::string{(char)(x >> 8), (char)x}; }

struct Net;

struct Copy {
	std::unique_ptr<SyncIf> s;
	std::vector<size_t> offset; // per object
	std::vector<uint64_t> ver;  // per object: how many of the owner's writes are seen here
	bool ready = false;	    // holds what the root has (had), so it may write what it owns
	std::string raw() const
	{
		std::string b(s->bufferSize(), '\0');
		rawBytes(&b[0], s->buffer(), b.size());
		return b;
	}
};

struct Msg {
	std::string data;
	char type = 0; // h w u b, or M: not a message, but a promise of what must have arrived by now
	int store = -1;
	bool ready = false;
	std::string snap; // the sender's copy when it was sent
	std::vector<uint64_t> ver;
};

struct End : stored::ProtocolLayer {
	Net& net;
	int edge, side;
	bool dead = false; // sending has no effect
	std::string acc;
	std::deque<Msg> in;		   // to be delivered here
	std::map<unsigned, int> idStore;   // ids given by this side -> store
	std::set<int> linked;		   // stores of which this side knows that the other one listens
	std::set<int> awaiting;		   // stores for which a Welcome is to come
	uint64_t received = 0;
	End(Net& n, int e, int s) : net(n), edge(e), side(s) {}
	void encode(void const* b, size_t len, bool last = true) override;
	using stored::ProtocolLayer::encode;
	void deliver(std::string const& m)
	{
		char* p = (char*)malloc(m.size() ? m.size() : 1);
		memcpy(p, m.data(), m.size());
		received++;
		decode(p, m.size());
		free(p);
	}
};

struct Edge {
	int node[2];
	int syn[2]; // which synchronizer of that node
	std::unique_ptr<End> end[2];
	std::set<int> stores;
};

struct Node {
	std::vector<std::unique_ptr<Synchronizer>> syn;
	std::map<int, Copy> copy;
};

struct StoreDef {
	SyncReg* reg;
	ObjMeta const* o;
	std::string hash;
	size_t n;
	int root;
	std::set<int> nodes;
	std::map<int, int> parentEdge; // node -> edge toward the root
	std::vector<int> owner;	       // per object
	std::vector<int> vars;	       // objects that are variables
	std::vector<uint64_t> version; // per object
	std::vector<std::string> value; // per object: what the owner wrote last
	bool isString(int i) const { return (o[i].type & ~0x40) == 2; }
	std::string val(Copy const& c, std::string const& raw, int i) const
	{
		std::string v = raw.substr(c.offset[(size_t)i], o[i].size);
		if(isString(i)) v = v.c_str();
		return v;
	}
};

struct Net {
	Rng& r;
	bool sync; // deliver at once
	std::vector<Node> nodes;
	std::vector<Edge> edges;
	std::vector<StoreDef> stores;
	uint64_t sentCount = 0, depth = 0;
	uint64_t trace = 0;
	explicit Net(Rng& r_) : r(r_), sync(r_.chance(1, 4)) {}
	~Net()
	{
		for(auto& e : edges) for(auto& x : e.end) if(x) x->dead = true;
		if(r.flip()) for(auto& n : nodes) n.syn.clear();
		edges.clear();
		for(auto& n : nodes) n.syn.clear();
	}
	void note(uint64_t x) { trace = hashBytes(&x, sizeof x, trace); }

	Node& at(End& e) { return nodes[(size_t)edges[(size_t)e.edge].node[e.side]]; }
	int nodeOf(End& e) { return edges[(size_t)e.edge].node[e.side]; }
	Synchronizer& synOf(End& e) { return *at(e).syn[(size_t)edges[(size_t)e.edge].syn[e.side]]; }
	End* peer(End& e) { return edges[(size_t)e.edge].end[1 - e.side].get(); }

	// whether node x is at the side of node a of this edge
	std::vector<std::vector<bool>> sideCache;
	bool atSideOf(int edge, int side, int x)
	{
		auto& c = sideCache[(size_t)edge * 2 + (size_t)side];
		if(c.empty()) {
			c.resize(nodes.size());
			std::vector<int> todo{edges[(size_t)edge].node[side]};
			while(!todo.empty()) {
				int n = todo.back();
				todo.pop_back();
				if(c[(size_t)n]) continue;
				c[(size_t)n] = true;
				for(size_t e = 0; e < edges.size(); e++) {
					if((int)e == edge) continue;
					for(int s = 0; s < 2; s++) if(edges[e].node[s] == n) todo.push_back(edges[e].node[1 - s]);
				}
			}
		}
		return c[(size_t)x];
	}

	int storeOf(std::string const& hash)
	{
		for(size_t i = 0; i < stores.size(); i++) if(stores[i].hash == hash) return (int)i;
		return -1;
	}

	// Understand what is sent, according to the documented protocol.
	void parse(End& from, Msg& m)
	{
		End* to = peer(from);
		auto const& d = m.data;
		m.type = d.empty() ? '?' : d[0];
		if(little ? !(m.type >= 'a' && m.type <= 'z') : !(m.type >= 'A' && m.type <= 'Z')) m.type = '?';
		m.type = (char)(m.type | 0x20);
		switch(m.type) {
		case 'h': {
			size_t e = d.find('\0', 1);
			if(e == std::string::npos || d.size() != e + 3) break;
			m.store = storeOf(d.substr(1, e - 1));
			unsigned id = get16(d.data() + e + 1);
			if(m.store >= 0) from.idStore[id] = m.store;
			break;
		}
		case 'w':
			if(d.size() < 5) break;
			if(to) {
				auto it = to->idStore.find(get16(d.data() + 1));
				if(it != to->idStore.end()) m.store = it->second;
			}
			if(m.store >= 0) from.idStore[get16(d.data() + 3)] = m.store;
			break;
		case 'u':
			if(d.size() < 3) break;
			if(to) {
				auto it = to->idStore.find(get16(d.data() + 1));
				if(it != to->idStore.end()) m.store = it->second;
			}
			break;
		case 'b': break;
		default: V("c16", "unknown-message", "a message %s is sent", hex(d, 20).c_str());
		}
		count(fmt("sent:%c", m.type));
	}
	void snapshot(End& from, Msg& m, int st)
	{
		auto it = at(from).copy.find(st);
		if(it == at(from).copy.end()) return;
		m.store = st;
		m.snap = it->second.raw();
		m.ver = it->second.ver;
		m.ready = it->second.ready;
	}
	void sent(End& from, std::string const& d)
	{
		sentCount++;
		Msg m;
		m.data = d;
		parse(from, m);
		if(m.type == 'w' || m.type == 'u') snapshot(from, m, m.store);
		if(m.type == 'w' && m.store >= 0) from.linked.insert(m.store);
		if(m.type == 'u' && m.store >= 0 && stores[(size_t)m.store].reg) {
			size_t max = at(from).copy[m.store].s->maxMessage();
			if(d.size() > max) V("c16", "message-size", "update of %zu bytes is larger than the maximum message size %zu", d.size(), max);
		}
		VERBOSE("  %d->%d %c store %d %s\n", nodeOf(from), edges[(size_t)from.edge].node[1 - from.side], m.type, m.store, hex(d, 40).c_str());
		End* to = peer(from);
		if(!to) return;
		if(sync) {
			if(to->in.empty() && depth < 50) receive(*to, m);
			else to->in.push_back(std::move(m));
		} else
			to->in.push_back(std::move(m));
	}
	// What the node has at the start of the call that is to send it all.
	std::map<int, std::pair<std::vector<uint64_t>, std::string>> pre;
	void premark(int node)
	{
		pre.clear();
		for(auto& c : nodes[(size_t)node].copy) pre[c.first] = {c.second.ver, c.second.raw()};
	}
	void mark(End& from, int st)
	{
		if(!from.linked.count(st) || mode == "c18") return;
		VERBOSE("  mark %d->%d store %d\n", nodeOf(from), edges[(size_t)from.edge].node[1 - from.side], st);
		Msg m;
		m.type = 'M';
		m.store = st;
		m.ver = pre[st].first;
		m.snap = pre[st].second;
		End* to = peer(from);
		if(!to || m.ver.empty()) return;
		if(sync && to->in.empty()) receive(*to, m);
		else to->in.push_back(std::move(m));
	}
	void receive(End& to, Msg const& m)
	{
		Node& n = at(to);
		int me = nodeOf(to);
		if(m.type == 'M') {
			auto it = n.copy.find(m.store);
			if(it == n.copy.end()) return;
			auto& d = stores[(size_t)m.store];
			count("completeness checks");
			std::string raw = it->second.raw();
			for(int i : d.vars)
				// the same value again is not observable
				if(d.val(it->second, raw, i) == d.val(it->second, m.snap, i)) it->second.ver[(size_t)i] = std::max(it->second.ver[(size_t)i], m.ver[(size_t)i]);
			for(int i : d.vars)
				if(!atSideOf(to.edge, to.side, d.owner[(size_t)i]) && it->second.ver[(size_t)i] < m.ver[(size_t)i]) {
					V("c16", "missed", "node %d missed a change of %s: it has write %llu of the owner, and not write %llu, which was there when the store was processed",
						me, show(d.o[i].name).c_str(), (unsigned long long)it->second.ver[(size_t)i], (unsigned long long)m.ver[(size_t)i]);
					break;
				}
			return;
		}
		std::map<int, std::string> before;
		for(auto& c : n.copy) before[c.first] = c.second.raw();
		uint64_t nr = 0;
		for(auto& e : edges) for(int s = 0; s < 2; s++) if(e.node[s] == me && e.end[s]) nr += e.end[s]->received;
		VERBOSE("  %d receives %c store %d\n", me, m.type, m.store);
		depth++;
		to.deliver(m.data);
		depth--;
		count("delivered");
		uint64_t nr2 = 0;
		for(auto& e : edges) for(int s = 0; s < 2; s++) if(e.node[s] == me && e.end[s]) nr2 += e.end[s]->received;
		if(nr2 != nr + 1) { // something else came in between
			count("nested deliveries");
			if(m.type != 'u' && m.type != 'w') return;
		}
		bool nested = nr2 != nr + 1;
		for(auto& c : n.copy) {
			if(c.first == m.store && (m.type == 'u' || m.type == 'w')) continue;
			if(!nested && c.second.raw() != before[c.first])
				for(char const* x : {"c15", "c18"}) V(x, "other-store", "a message about store %d changes store %d of node %d", m.store, c.first, me);
		}
		auto it = n.copy.find(m.store);
		if(it == n.copy.end() || (m.type != 'u' && m.type != 'w') || m.snap.empty()) return;
		Copy& c = it->second;
		auto& d = stores[(size_t)m.store];
		std::string after = c.raw();
		std::string const& b = before[m.store];
		bool fromParent = d.parentEdge.count(me) && d.parentEdge[me] == to.edge;
		bool welcome = m.type == 'w';
		if(welcome && !fromParent) return;
		if(welcome) {
			if(!to.awaiting.erase(m.store)) return;
			to.linked.insert(m.store);
		} else if(!to.linked.count(m.store))
			return;
		for(int i : d.vars) {
			std::string a = d.val(c, after, i), sn = d.val(c, m.snap, i), bf = d.val(c, b, i);
			bool theirs = !atSideOf(to.edge, to.side, d.owner[(size_t)i]);
			count("values compared");
			if(nested) {
				if(a != sn && a != bf && a != d.value[(size_t)i]) V("c15", "alien-value", "node %d shows %s for %s", me, hex(a).c_str(), show(d.o[i].name).c_str());
				if(theirs && (welcome || c.ready)) c.ver[(size_t)i] = std::max(c.ver[(size_t)i], m.ver[(size_t)i]);
				continue;
			}
			if(welcome || theirs) {
				if(a != sn) {
					char const* what = a == bf ? "was not updated" : "got a value that was not sent";
					if(a != bf) V("c15", "alien-value", "node %d: %s has a value that neither side had: %s, was %s, sender has %s", me, show(d.o[i].name).c_str(), hex(a).c_str(), hex(bf).c_str(), hex(sn).c_str());
					V("c16", welcome ? "welcome" : a == bf ? "update-incomplete" : "update-wrong", "node %d: %s of store %d %s by a %s message: it is %s (was %s), the sender had %s", me,
						show(d.o[i].name).c_str(), m.store, what, welcome ? "welcome" : "update", hex(a).c_str(), hex(bf).c_str(), hex(sn).c_str());
				}
				c.ver[(size_t)i] = m.ver[(size_t)i];
			} else if(a != bf) {
				if(a != sn) V("c15", "alien-value", "node %d: %s has a value that neither side had: %s, was %s, sender has %s", me, show(d.o[i].name).c_str(), hex(a).c_str(), hex(bf).c_str(), hex(sn).c_str());
				if(c.ready) V("c16", "echo", "node %d: %s, which is not owned by that side, is overwritten by an update: %s, was %s", me, show(d.o[i].name).c_str(), hex(a).c_str(), hex(bf).c_str());
			}
		}
		if(fromParent && m.ready && mode != "c18") c.ready = true;
	}
	bool deliverOne(End& e)
	{
		if(e.in.empty()) return false;
		Msg m = std::move(e.in.front());
		e.in.pop_front();
		receive(e, m);
		return true;
	}
	void deliverAll()
	{
		std::vector<End*> es;
		uint64_t n = 0;
		while(true) {
			es.clear();
			for(auto& e : edges) for(auto& x : e.end) if(x && !x->in.empty()) es.push_back(x.get());
			if(es.empty()) return;
			deliverOne(*r.pick(es));
			if(++n > 200000) { for(char const* x : {"c15", "c18"}) V(x, "endless", "synchronizers keep sending messages to each other"); return; }
		}
	}

	// ------------------------------------------------------------ actions
	void write(int st)
	{
		auto& d = stores[(size_t)st];
		if(d.vars.empty()) return;
		int i = r.pick(d.vars);
		write(st, i);
	}
	std::string randValue(StoreDef& d, int i)
	{
		size_t n = d.o[i].size;
		int t = d.o[i].type;
		if(t == 0x20) return std::string(1, (char)r.below(2));
		std::string v = r.bytes(d.isString(i) ? (size_t)r.below(n + 1) : n);
		if(d.isString(i)) v = v.c_str();
		return v;
	}
	bool write(int st, int i)
	{
		auto& d = stores[(size_t)st];
		auto& c = nodes[(size_t)d.owner[(size_t)i]].copy[st];
		if(!c.ready) return false;
		std::string v = randValue(d, i);
		c.s->write(i, v.data(), v.size(), (int)r.below(2));
		v = d.val(c, c.raw(), i);
		if(v != d.value[(size_t)i]) c.ver[(size_t)i] = ++d.version[(size_t)i]; // otherwise, there is nothing to send
		d.value[(size_t)i] = v;
		count("writes");
		VERBOSE("node %d writes %s of store %d: %s\n", d.owner[(size_t)i], show(d.o[i].name).c_str(), st, hex(v).c_str());
		return true;
	}
	void markAll(int node, int syn, int edge, int st)
	{
		for(size_t e = 0; e < edges.size(); e++)
			for(int s = 0; s < 2; s++)
				if(edges[e].node[s] == node && (syn < 0 || edges[e].syn[s] == syn) && (edge < 0 || (int)e == edge) && edges[e].end[s])
					for(int x : edges[e].stores) if(st < 0 || st == x) mark(*edges[e].end[s], x);
	}
	void process(int node)
	{
		Node& n = nodes[(size_t)node];
		premark(node);
		std::vector<std::pair<int, int>> es;
		for(size_t e = 0; e < edges.size(); e++) for(int s = 0; s < 2; s++) if(edges[e].node[s] == node && edges[e].end[s]) es.push_back({(int)e, s});
		unsigned how = es.empty() ? 0 : (unsigned)r.below(4);
		VERBOSE("process node %d: %u\n", node, how);
		switch(how) {
		case 0:
			for(size_t y = 0; y < n.syn.size(); y++) { n.syn[y]->process(); markAll(node, (int)y, -1, -1); }
			break;
		case 1: {
			auto p = r.pick(es);
			End& e = *edges[(size_t)p.first].end[p.second];
			synOf(e).process(e);
			markAll(node, -1, p.first, -1);
			break;
		}
		case 2: {
			auto p = r.pick(es);
			if(edges[(size_t)p.first].stores.empty()) break;
			int st = *std::next(edges[(size_t)p.first].stores.begin(), (long)r.below(edges[(size_t)p.first].stores.size()));
			processEdge(p.first, p.second, st);
			break;
		}
		default: {
			if(n.copy.empty()) break;
			auto it = std::next(n.copy.begin(), (long)r.below(n.copy.size()));
			int y = (int)r.below(n.syn.size());
			it->second.s->process(*n.syn[(size_t)y]);
			markAll(node, y, -1, it->first);
		}
		}
	}
	void processEdge(int edge, int side, int st)
	{
		End& e = *edges[(size_t)edge].end[side];
		premark(nodeOf(e));
		nodes[(size_t)nodeOf(e)].copy[st].s->process(synOf(e), e);
		mark(e, st);
	}
	void connectEdge(int e)
	{
		auto& E = edges[(size_t)e];
		for(int s = 0; s < 2; s++) E.end[s].reset(new End(*this, e, s));
		int first = (int)r.below(2);
		for(int k = 0; k < 2; k++) synOf(*E.end[k ^ first]).connect(*E.end[k ^ first]);
	}
	void syncEdge(int e, int st)
	{
		auto& E = edges[(size_t)e];
		auto& d = stores[(size_t)st];
		for(int s = 0; s < 2; s++) {
			int n = E.node[s];
			if(!d.parentEdge.count(n) || d.parentEdge[n] != e) continue;
			E.end[s]->awaiting.insert(st);
			nodes[(size_t)n].copy[st].s->syncFrom(synOf(*E.end[s]), *E.end[s]);
		}
	}
	void quiesce()
	{
		for(int round = 0;; round++) {
			uint64_t n = sentCount;
			deliverAll();
			for(size_t i = 0; i < nodes.size(); i++)
				for(size_t y = 0; y < nodes[i].syn.size(); y++) { premark((int)i); nodes[i].syn[y]->process(); markAll((int)i, (int)y, -1, -1); }
			deliverAll();
			if(sentCount == n) return;
			if(round > 40) { for(char const* x : {"c15", "c18"}) V(x, "endless", "synchronizers keep sending updates, while nothing is written"); return; }
		}
	}
	void converged(char const* when)
	{
		for(size_t st = 0; st < stores.size(); st++) {
			auto& d = stores[st];
			for(int n : d.nodes) {
				auto& c = nodes[(size_t)n].copy[(int)st];
				std::string raw = c.raw();
				for(int i : d.vars) {
					count("final values compared");
					if(d.val(c, raw, i) != d.value[(size_t)i]) {
						V("c15", "diverged", "%s: node %d has %s for %s of store %zu (%s), while %s was written last by node %d (root %d)", when, n, hex(d.val(c, raw, i)).c_str(), show(d.o[i].name).c_str(), st, d.reg->name,
							hex(d.value[(size_t)i]).c_str(), d.owner[(size_t)i], d.root);
						return;
					}
				}
			}
		}
	}

	// ------------------------------------------------------------ setup
	void setup(int maxNodes, int maxStores, bool small)
	{
		int n = (int)r.range(2, maxNodes);
		nodes.resize((size_t)n);
		for(auto& x : nodes) {
			int k = r.chance(1, 4) ? 2 : 1;
			for(int i = 0; i < k; i++) x.syn.emplace_back(new Synchronizer());
		}
		int shape = (int)r.below(3); // chain, star, any tree
		for(int i = 1; i < n; i++) {
			Edge e;
			e.node[0] = i;
			e.node[1] = shape == 0 ? i - 1 : shape == 1 ? 0 : (int)r.below((uint64_t)i);
			for(int s = 0; s < 2; s++) e.syn[s] = (int)r.below(nodes[(size_t)e.node[s]].syn.size());
			if(r.flip()) { std::swap(e.node[0], e.node[1]); std::swap(e.syn[0], e.syn[1]); }
			edges.push_back(std::move(e));
		}
		sideCache.resize(edges.size() * 2);
		int ns = (int)r.range(1, maxStores);
		std::vector<SyncReg*> regs;
		for(auto& x : syncRegs()) if(!small || x.make(false)->bufferSize() < 300) regs.push_back(&x);
		for(int k = 0; k < ns && !regs.empty(); k++) {
			size_t p = (size_t)r.below(regs.size());
			StoreDef d;
			d.reg = regs[p];
			regs.erase(regs.begin() + (long)p);
			// nodes that have it: a connected part
			std::vector<bool> in((size_t)n);
			d.root = (int)r.below((uint64_t)n);
			in[(size_t)d.root] = true;
			d.nodes.insert(d.root);
			bool all = r.chance(2, 3);
			bool more = true;
			while(more) {
				more = false;
				for(size_t e = 0; e < edges.size(); e++)
					for(int s = 0; s < 2; s++) {
						int a = edges[e].node[s], b = edges[e].node[1 - s];
						if(in[(size_t)a] && !in[(size_t)b] && !d.parentEdge.count(b)) {
							d.parentEdge[b] = -1;
							if(all || r.chance(3, 4)) {
								in[(size_t)b] = true;
								d.nodes.insert(b);
								d.parentEdge[b] = (int)e;
								edges[e].stores.insert(k);
								more = true;
							}
						}
					}
			}
			for(auto it = d.parentEdge.begin(); it != d.parentEdge.end();) if(it->second < 0) it = d.parentEdge.erase(it); else ++it;
			stores.push_back(d);
		}
		for(size_t k = 0; k < stores.size(); k++) makeCopies((int)k);
	}
	void makeCopy(int st, int n)
	{
		auto& d = stores[(size_t)st];
		Copy& c = nodes[(size_t)n].copy[st];
		c.s = d.reg->make(r.flip());
		d.o = c.s->objs();
		d.n = c.s->count();
		d.hash = c.s->hash();
		auto v = c.s->vars();
		c.offset.assign(d.n, 0);
		for(size_t i = 0; i < d.n; i++) if(!d.o[i].func) c.offset[i] = (size_t)(v[i] - c.s->buffer());
		c.ver.assign(d.n, 0);
		c.ready = n == d.root;
		if(r.chance(1, 4)) c.s->reserve();
	}
	void mapCopy(int st, int n)
	{
		for(size_t y = 0; y < nodes[(size_t)n].syn.size(); y++) {
			bool use = nodes[(size_t)n].syn.size() == 1;
			for(auto& e : edges) for(int s = 0; s < 2; s++) if(e.node[s] == n && e.syn[s] == (int)y && e.stores.count(st)) use = true;
			if(use || r.flip()) nodes[(size_t)n].copy[st].s->map(*nodes[(size_t)n].syn[y]);
		}
	}
	void makeCopies(int st)
	{
		auto& d = stores[(size_t)st];
		for(int n : d.nodes) makeCopy(st, n);
		for(size_t i = 0; i < d.n; i++) if(!d.o[i].func) d.vars.push_back((int)i);
		d.version.assign(d.n, 0);
		d.value.resize(d.n);
		d.owner.resize(d.n);
		int fav = (int)r.below(3);
		for(auto& o : d.owner) o = fav == 0 ? d.root : *std::next(d.nodes.begin(), (long)r.below(d.nodes.size()));
		for(int n : d.nodes) {
			Copy& c = nodes[(size_t)n].copy[st];
			// they may differ before they are synchronized
			if(r.flip() && !d.vars.empty())
				for(int k = 0, e = (int)r.size(20); k < e; k++) {
					int i = r.pick(d.vars);
					std::string v = randValue(d, i);
					c.s->write(i, v.data(), v.size(), 0);
				}
			mapCopy(st, n);
		}
		Copy& c = nodes[(size_t)d.root].copy[st];
		std::string raw = c.raw();
		for(int i : d.vars) d.value[(size_t)i] = d.val(c, raw, i);
	}
};

void End::encode(void const* b, size_t len, bool last)
{
	if(dead) return;
	acc.append(static_cast<char const*>(b), len);
	if(!last) return;
	std::string m;
	m.swap(acc);
	net.sent(*this, m);
}

// ---------------------------------------------------------------- C15, C16
static void runNet(Rng& r)
{
	bool wrap = r.chance(1, 60);
	Net net(r);
	net.setup(wrap ? 4 : r.chance(1, 2) ? 3 : 7, wrap ? 1 : 3, wrap);
	if(net.stores.empty()) return;
	// connect in any order
	std::vector<std::pair<int, int>> todo; // edge, store
	for(size_t e = 0; e < net.edges.size(); e++) { todo.push_back({(int)e, -1}); for(int s : net.edges[e].stores) todo.push_back({(int)e, s}); }
	for(size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[(size_t)r.below(i)]);
	bool topDown = r.chance(1, 3);
	if(topDown) std::stable_sort(todo.begin(), todo.end(), [&](std::pair<int, int> const& a, std::pair<int, int> const& b) {
		auto dist = [&](std::pair<int, int> const& x) {
			if(x.second < 0) return 0;
			auto& d = net.stores[(size_t)x.second];
			int k = 0;
			for(int s = 0; s < 2; s++) {
				int n = net.edges[(size_t)x.first].node[s];
				if(!d.parentEdge.count(n) || d.parentEdge[n] != x.first) continue;
				while(n != d.root) { auto& e = net.edges[(size_t)d.parentEdge[n]]; n = e.node[0] == n ? e.node[1] : e.node[0]; k++; }
			}
			return k;
		};
		return dist(a) < dist(b);
	});
	auto act = [&]() {
		switch(r.below(8)) {
		case 0: case 1: case 2: net.write((int)r.below(net.stores.size())); net.note(1); break;
		case 3: case 4:
			if(r.chance(1, 12)) { // forget old changes, which is not noticable
				auto& n = r.pick(net.nodes);
				for(auto& c : n.copy) c.second.s->journal().clean();
				count("journals cleaned");
				break;
			}
			net.process((int)r.below(net.nodes.size()));
			net.note(2);
			break;
		default: {
			std::vector<End*> es;
			for(auto& e : net.edges) for(auto& x : e.end) if(x && !x->in.empty()) es.push_back(x.get());
			if(es.empty()) break;
			End* e = r.pick(es);
			int k = (int)r.range(1, 4);
			while(k-- && net.deliverOne(*e)) ;
			net.note((uint64_t)(e->edge * 2 + e->side + 10));
		}
		}
	};
	std::set<int> connected;
	std::vector<std::pair<int, int>> late;
	for(auto& t : todo) {
		if(t.second < 0 || !connected.count(t.first)) { if(connected.insert(t.first).second) net.connectEdge(t.first); }
		if(t.second >= 0) net.syncEdge(t.first, t.second);
		net.note((uint64_t)(t.first * 10 + t.second + 100));
		for(int k = (int)r.below(r.flip() ? 3 : 15); k > 0; k--) act();
		if(topDown && r.flip()) net.deliverAll();
	}
	int acts = (int)r.below(ctx().thorough ? 1500 : 300);
	for(int k = 0; k < acts && !ctx().caseViolated; k++) act();
	net.quiesce();
	if(!ctx().caseViolated) net.converged("after the first exchange");
	if(wrap && !ctx().caseViolated) {
		for(int b = 0; b < 2 && !ctx().caseViolated; b++) {
			auto& d = net.stores[0];
			std::vector<int> cand;
			for(int i : d.vars) cand.push_back(i);
			if(cand.empty()) break;
			int i = r.pick(cand);
			int o = d.owner[(size_t)i];
			std::vector<std::pair<int, int>> es;
			for(size_t e = 0; e < net.edges.size(); e++) for(int s = 0; s < 2; s++) if(net.edges[e].node[s] == o && net.edges[e].stores.count(0)) es.push_back({(int)e, s});
			if(es.empty()) break;
			auto p = r.pick(es);
			static int const ks[] = {200, 16300, 16500, 32700, 33000, 49200, 65500, 66000};
			int K = ks[r.below(8)] + (int)r.below(100);
			std::vector<int> mine;
			for(int x : d.vars) if(d.owner[(size_t)x] == o) mine.push_back(x);
			size_t few = std::min<size_t>(mine.size(), (size_t)r.range(1, 3));
			for(int k = 0; k < K && !ctx().caseViolated; k++) {
				net.write(0, r.chance(1, 4000) ? r.pick(mine) : mine[(size_t)r.below(few)]);
				net.processEdge(p.first, p.second, 0);
				while(net.deliverOne(*net.edges[(size_t)p.first].end[1 - p.second])) ;
			}
			count("rounds in long runs", (uint64_t)K);
			net.quiesce();
			if(!ctx().caseViolated) net.converged("after many rounds");
			for(int k = 0; k < 60 && !ctx().caseViolated; k++) act();
			net.quiesce();
			if(!ctx().caseViolated) net.converged("after the last exchange");
		}
	}
	for(int k = 0; k < acts / 3 && !ctx().caseViolated; k++) act();
	net.quiesce();
	if(!ctx().caseViolated) net.converged("after the last exchange");
	sig(net.trace);
	countMax("nodes", net.nodes.size());
	count(fmt("topology:%zu nodes", net.nodes.size()));
	if(ctx().caseNo < 3) sample(fmt("%zu nodes, %zu stores (first: %s, %zu bytes), %s delivery, %llu messages", net.nodes.size(), net.stores.size(), net.stores[0].reg->name,
		net.nodes[(size_t)net.stores[0].root].copy[0].s->bufferSize(), net.sync ? "immediate" : "queued", (unsigned long long)net.sentCount));
}


// ---------------------------------------------------------------- C17
struct Hostile : stored::ProtocolLayer {
	std::string acc;
	std::vector<std::string> got;
	std::function<void(std::string const&)> onMessage;
	bool closed = false;
	void encode(void const* b, size_t len, bool last = true) override
	{
		acc.append(static_cast<char const*>(b), len);
		if(!last) return;
		std::string m;
		m.swap(acc);
		got.push_back(m);
		if(got.size() > 60) got.erase(got.begin());
		if(onMessage && !closed) onMessage(m);
	}
	using stored::ProtocolLayer::encode;
};

// A loss-free channel between two well-behaved synchronizers.
struct Chan : stored::ProtocolLayer {
	Chan* peer = nullptr;
	std::string acc;
	std::deque<std::string> in;
	void encode(void const* b, size_t len, bool last = true) override
	{
		acc.append(static_cast<char const*>(b), len);
		if(!last) return;
		if(peer) peer->in.push_back(acc);
		acc.clear();
	}
	using stored::ProtocolLayer::encode;
	bool pump()
	{
		if(in.empty()) return false;
		std::string m = in.front();
		in.pop_front();
		char* p = (char*)malloc(m.size() ? m.size() : 1);
		memcpy(p, m.data(), m.size());
		decode(p, m.size());
		free(p);
		return true;
	}
};

struct Local {
	std::unique_ptr<SyncIf> s;
	std::vector<char*> var;
	bool mapped = false, open = false; // open: the peer may change it
	size_t keySize = 1;
	std::string raw() const
	{
		std::string b(s->bufferSize(), '\0');
		rawBytes(&b[0], s->buffer(), b.size());
		return b;
	}
	explicit Local(SyncReg& reg, bool hooked) : s(reg.make(hooked)), var(s->vars())
	{
		size_t n = s->bufferSize();
		keySize = 0;
		while(n) { keySize++; n >>= 8; }
	}
	bool isString(size_t i) const { return (s->objs()[i].type & ~0x40) == 2; }
	std::string value(size_t i) const
	{
		std::string v(s->objs()[i].size, '\0');
		rawBytes(&v[0], var[i], v.size());
		return isString(i) ? v.c_str() : v;
	}
	void writeRandom(Rng& r)
	{
		std::vector<int> c;
		for(size_t i = 0; i < var.size(); i++) if(var[i]) c.push_back((int)i);
		if(c.empty()) return;
		int i = r.pick(c);
		auto const& o = s->objs()[i];
		std::string v = o.type == 0x20 ? std::string(1, (char)r.below(2)) : r.bytes(isString((size_t)i) ? (size_t)r.below(o.size + 1) : o.size);
		if(isString((size_t)i)) v = v.c_str();
		s->write(i, v.data(), v.size(), 0);
	}
	// index of a variable that differs, or -1
	int differs(Local const& x) const
	{
		for(size_t i = 0; i < var.size(); i++) if(var[i] && value(i) != x.value(i)) return (int)i;
		return -1;
	}
};

static std::string keyBytes(size_t n, uint64_t k)
{
	std::string r;
	for(size_t i = 0; i < n; i++) r += (char)(k >> 8 * (little ? i : n - 1 - i));
	return r;
}

// ---------------------------------------------------------------- C15, directed
// One variable is written by B, and another one very often by A, while A does not process its
// connection to B for more than SeqLowerMargin rounds.
static void runLongSilence(Rng& r)
{
	SyncReg* reg = nullptr;
	for(auto& x : syncRegs()) if(!strcmp(x.name, "YMed")) reg = &x;
	if(!reg) harnessError("no YMed");
	Local A(*reg, false), B(*reg, false), C(*reg, false);
	Synchronizer ya, yb, yc;
	Chan ab, ba, ac, ca;
	ab.peer = &ba; ba.peer = &ab; ac.peer = &ca; ca.peer = &ac;
	A.s->map(ya); B.s->map(yb); C.s->map(yc);
	ya.connect(ab); yb.connect(ba); ya.connect(ac); yc.connect(ca);
	auto pump = [](Chan& x, Chan& y) { while(x.pump() || y.pump()) ; };
	B.s->syncFrom(yb, ba);
	C.s->syncFrom(yc, ca);
	pump(ab, ba);
	pump(ac, ca);
	int x = -1, y = -1;
	for(size_t i = 0; i < B.var.size(); i++) {
		if(!strcmp(B.s->objs()[i].name, "/m0")) x = (int)i;
		if(!strcmp(B.s->objs()[i].name, "/m4")) y = (int)i;
	}
	if(x < 0 || y < 0) harnessError("no variables");
	int32_t v = (int32_t)r.below(1000) + 1;
	B.s->write(x, &v, sizeof(v), 0);
	yb.process();
	pump(ab, ba);
	for(int32_t k = 1; k <= 70000; k++) {
		A.s->write(y, &k, sizeof(k), 0);
		A.s->process(ya, ac);
		pump(ac, ca);
	}
	v += 1;
	B.s->write(x, &v, sizeof(v), 0);
	ya.process(); // A has not seen the last write yet
	for(int k = 0; k < 4; k++) { pump(ab, ba); pump(ac, ca); ya.process(); yb.process(); yc.process(); }
	pump(ab, ba);
	pump(ac, ca);
	count("long silences");
	sig(1);
	if(B.differs(A) >= 0 || C.differs(A) >= 0)
		V("c15", "echo-after-long-silence", "A has %s for /m0, B, its only writer, has %s, after A did not process its connection to B during 70000 rounds", hex(A.value((size_t)x)).c_str(),
			hex(B.value((size_t)x)).c_str());
}

static void runHostile(Rng& r)
{
	Synchronizer* y = new Synchronizer();
	std::vector<Local> L;
	std::vector<SyncReg*> regs;
	for(auto& x : syncRegs()) regs.push_back(&x);
	int ns = (int)r.range(1, 4);
	for(int i = 0; i < ns && !regs.empty(); i++) {
		size_t p = (size_t)r.below(regs.size());
		L.emplace_back(*regs[p], r.flip());
		regs.erase(regs.begin() + (long)p);
		if(r.chance(3, 4) || i == 0) { L.back().s->map(*y); L.back().mapped = true; }
		for(int k = (int)r.below(6); k > 0; k--) L.back().writeRandom(r);
	}
	// a well-behaved peer that has been there all along
	Synchronizer gy;
	Chan ga, gb;
	ga.peer = &gb;
	gb.peer = &ga;
	std::vector<Local> G;
	bool good = r.flip();
	if(good) {
		y->connect(ga);
		gy.connect(gb);
	}
	auto pumpGood = [&](Chan& a, Chan& b) {
		for(int i = 0; i < 5000; i++) if(!a.pump() && !b.pump()) return;
		V("c17", "endless", "messages are exchanged forever");
	};
	std::vector<int> gi; // store of G
	if(good) {
		for(size_t i = 0; i < L.size(); i++) if(L[i].mapped && r.flip()) {
			for(auto& x : syncRegs()) {
				Local l(x, r.flip());
				if(strcmp(l.s->hash(), L[i].s->hash()) != 0) continue;
				l.s->map(gy);
				G.push_back(std::move(l));
				gi.push_back((int)i);
				G.back().s->syncFrom(gy, gb);
				break;
			}
		}
		pumpGood(ga, gb);
	}
	Hostile h;
	std::vector<std::pair<unsigned, int>> helloIds; // seen from the node: id, store (-1: unknown)
	std::vector<unsigned> ids;			// any id that was seen or used
	std::vector<std::string> sent;
	auto learn = [&](std::string const& m) {
		if(m.size() < 3) return;
		char t = (char)(m[0] | 0x20);
		size_t e;
		if(t == 'h' && (e = m.find('\0', 1)) != std::string::npos && m.size() >= e + 3) {
			int st = -1;
			for(size_t i = 0; i < L.size(); i++) if(m.substr(1, e - 1) == L[i].s->hash()) st = (int)i;
			helloIds.push_back({get16(m.data() + e + 1), st});
			ids.push_back(get16(m.data() + e + 1));
		} else if(t == 'w' && m.size() >= 5) {
			ids.push_back(get16(m.data() + 3));
		}
	};
	char const* T = little ? "hwub" : "HWUB";
	auto anyId = [&]() -> unsigned {
		switch(r.below(6)) {
		case 0: return (unsigned)r.below(5);
		case 1: return (unsigned)r.below(65536);
		default: return ids.empty() ? 1u : r.pick(ids);
		}
	};
	// the store that the id is likely to be about
	auto target = [&]() -> Local& { return L[(size_t)r.below(L.size())]; };
	auto generate = [&]() -> std::string {
		switch(r.below(12)) {
		case 0: return r.bytes(r.size(60));
		case 1: // hello
		case 2: {
			std::string hash = r.chance(4, 5) ? std::string(target().s->hash()) : r.chance(1, 3) ? std::string() : r.bytes(r.size(60));
			unsigned id = r.chance(1, 8) ? 0 : (unsigned)r.range(1, 6);
			if(r.chance(1, 4)) id = anyId();
			ids.push_back(id);
			std::string m = std::string(1, T[0]) + hash;
			if(!r.chance(1, 12)) m += '\0';
			m += put16(id);
			if(r.chance(1, 12)) m.resize((size_t)r.below(m.size() + 1));
			if(r.chance(1, 12)) m += r.bytes(r.size(10));
			return m;
		}
		case 3: { // welcome
			unsigned id = anyId();
			Local* l = &target();
			if(!helloIds.empty() && r.chance(4, 5)) {
				auto p = r.pick(helloIds);
				id = p.first;
				if(p.second >= 0) l = &L[(size_t)p.second];
			}
			size_t n = l->s->bufferSize();
			if(r.chance(1, 5)) n = (size_t)r.below(n);
			if(r.chance(1, 8)) n += r.size(20);
			unsigned w = r.chance(1, 8) ? 0 : (unsigned)r.range(1, 6);
			return std::string(1, T[1]) + put16(id) + put16(w) + r.bytes(n);
		}
		case 4: case 5: case 6: case 7: case 8: { // update
			std::string m = std::string(1, T[2]) + put16(anyId());
			Local& l = target();
			size_t size = l.s->bufferSize(), ks = l.keySize;
			uint64_t maxKey = (ks >= 4 ? 0 : 1ull << 8 * ks) - 1 & 0xffffffffull;
			int n = (int)r.size(20);
			if(r.chance(1, 10)) n = 300;
			// overlapping pieces, each as large as possible
			bool large = r.chance(1, 12);
			if(large) n = 40;
			uint64_t seq = large ? r.below(size) : 0;
			for(int i = 0; i < n && m.size() < 100000; i++) {
				uint64_t k, len;
				switch(large ? 9 : r.below(9)) {
				case 9: k = seq++ % size; len = std::min<uint64_t>(size - k, 3000); break;
				case 0: k = r.below(size + 2); len = r.below(20); break;
				case 1: k = size - r.below(3); len = r.below(5); break;
				case 2: k = maxKey - r.below(3); len = r.below(4); break;
				case 3: k = maxKey - r.below(20); len = maxKey - r.below(20); break;
				case 4: k = r.below(size); len = size - k; break;
				case 5: k = seq++; len = 0; break;
				case 6: k = seq++; len = 1; break;
				default: {
					size_t x = (size_t)r.below(l.var.size());
					if(!l.var[x]) continue;
					k = (uint64_t)(l.var[x] - l.s->buffer());
					len = l.s->objs()[x].size;
					if(l.isString(x)) len = r.below(len + 2);
					if(r.chance(1, 8)) len += r.below(4);
				}
				}
				k &= maxKey;
				len &= maxKey;
				m += keyBytes(ks, k) + keyBytes(ks, len);
				size_t dl = (size_t)std::min<uint64_t>(len, 70000);
				m += r.bytes(dl);
				if(r.chance(1, 60)) { m.resize((size_t)r.below(m.size() + 1)); break; }
			}
			return m;
		}
		case 9: // bye
			switch(r.below(4)) {
			case 0: return std::string(1, T[3]);
			case 1: return std::string(1, T[3]) + put16(anyId());
			case 2: return std::string(1, T[3]) + target().s->hash() + std::string(r.chance(9, 10), '\0');
			default: return std::string(1, T[3]) + r.bytes(r.size(50));
			}
		default: { // something seen before, changed or not
			auto& v = !sent.empty() && (h.got.empty() || r.flip()) ? sent : h.got;
			if(v.empty()) return std::string();
			std::string m = r.pick(v);
			for(int k = (int)r.below(4); k > 0 && !m.empty(); k--) {
				size_t p = (size_t)r.below(m.size());
				switch(r.below(5)) {
				case 0: m[p] = (char)r.below(256); break;
				case 1: m.erase(p, 1 + (size_t)r.below(4)); break;
				case 2: m.insert(p, r.bytes(1 + (size_t)r.below(4))); break;
				case 3: m[p] = (char)(m[p] ^ (1 << r.below(8))); break;
				default: m.resize(p);
				}
			}
			return m;
		}
		}
	};
	int depth = 0;
	bool connected = true;
	std::function<void()> attack;
	auto deliver = [&](std::string const& m) {
		// stores that the peer has to leave alone
		std::vector<std::string> before(L.size());
		for(size_t i = 0; i < L.size(); i++) if(!L[i].open) before[i] = L[i].raw();
		char* p = (char*)malloc(m.size() ? m.size() : 1);
		memcpy(p, m.data(), m.size());
		if(depth == 0) label(fmt("received %s", hex(m, 200).c_str()));
		VERBOSE("%*sreceived %s\n", depth, "", hex(m, 100).c_str());
		depth++;
		h.decode(p, m.size());
		depth--;
		free(p);
		count("hostile messages");
		count(fmt("hostile:%c", m.empty() ? '-' : strchr("hwubHWUB", m[0]) && m[0] ? m[0] | 0x20 : '?'));
		sig(m.substr(0, 100));
		for(size_t i = 0; i < L.size(); i++)
			if(!L[i].open && !before[i].empty() && L[i].raw() != before[i])
				V("c17", "foreign-store", "message %s changes a store that is not synchronized over this connection", hex(m, 100).c_str());
		for(auto& l : L) l.s->process(*y);
	};
	bool reentrant = r.chance(1, 4);
	h.onMessage = [&](std::string const& m) {
		learn(m);
		char t = m.empty() ? 0 : (char)(m[0] | 0x20);
		// after a Hello or in the Welcome, the peer has access
		if(t == 'h' || t == 'w') {
			if(t == 'h') { for(auto& l : L) if(m.compare(1, strlen(l.s->hash()), l.s->hash()) == 0) l.open = true; }
		}
		if(reentrant && depth > 0 && depth < 4 && r.chance(1, 3)) { count("re-entrant messages"); attack(); }
	};
	attack = [&]() {
		std::string m = generate();
		sent.push_back(m);
		if(sent.size() > 30) sent.erase(sent.begin());
		// a hello for a mapped store is answered with access to it
		if(!m.empty() && m[0] == T[0]) for(auto& l : L) if(l.mapped && m.compare(1, strlen(l.s->hash()), l.s->hash()) == 0) l.open = true;
		deliver(m);
	};
	y->connect(h);
	int n = (int)r.range(5, ctx().thorough ? 300 : 80);
	for(int k = 0; k < n && !ctx().caseViolated; k++) {
		switch(r.below(14)) {
		case 0: target().writeRandom(r); break;
		case 1: label("process"); y->process(); break;
		case 2: { auto& l = target(); if(l.mapped && connected) { l.open = true; label("syncFrom");
			l.s->syncFrom(*y, h); } break; }
		case 3: if(good) pumpGood(ga, gb); break;
		case 4: if(r.chance(1, 6)) {
			if(connected) { label("disconnect"); y->disconnect(h); connected = false; }
			else { label("connect"); h.acc.clear(); y->connect(h); connected = true; helloIds.clear(); sent.clear(); }
			break;
		} // fall through
		case 5: if(r.chance(1, 6)) {
			auto& l = target();
			if(l.mapped) { label("unmap"); l.s->unmap(*y); l.mapped = false; }
			else { l.s->map(*y); l.mapped = true; }
			break;
		} // fall through
		default: if(connected) attack();
		}
	}
	reentrant = false;
	// the data can still be accessed
	for(auto& l : L)
		for(size_t i = 0; i < l.var.size(); i++) if(l.var[i]) l.writeRandom(r);
	// a well-behaved peer can still connect
	if(!ctx().caseViolated) {
		label("new peer");
		for(auto& l : L) if(!l.mapped) { l.s->map(*y); l.mapped = true; }
		Synchronizer ny;
		Chan a, b;
		a.peer = &b;
		b.peer = &a;
		y->connect(a);
		ny.connect(b);
		std::vector<Local> N;
		for(size_t i = 0; i < L.size(); i++)
			for(auto& x : syncRegs()) {
				Local l(x, false);
				if(strcmp(l.s->hash(), L[i].s->hash()) != 0) continue;
				l.s->map(ny);
				N.push_back(std::move(l));
				N.back().s->syncFrom(ny, b);
				break;
			}
		auto settle = [&]() {
			for(int k = 0; k < 6; k++) {
				pumpGood(a, b);
				if(good) pumpGood(ga, gb);
				y->process();
				ny.process();
				if(good) gy.process();
			}
			pumpGood(a, b);
			if(good) pumpGood(ga, gb);
		};
		settle();
		for(int k = 0; k < 3 && !ctx().caseViolated; k++) {
			for(size_t i = 0; i < N.size(); i++) {
				int x = N[i].differs(L[i]);
				count("served peers compared");
				if(x >= 0) { V("c17", "not-served", "a well-behaved peer has %s for %s instead of %s", hex(N[i].value((size_t)x)).c_str(), show(L[i].s->objs()[x].name).c_str(), hex(L[i].value((size_t)x)).c_str()); break; }
			}
			for(size_t i = 0; i < N.size(); i++) { L[i].writeRandom(r); if(k) { pumpGood(a, b); y->process(); ny.process(); pumpGood(a, b); N[i].writeRandom(r); } settle(); }
		}
		for(size_t i = 0; i < G.size() && !ctx().caseViolated; i++) {
			int x = G[i].differs(L[(size_t)gi[i]]);
			// unmapping ends the synchronization
			if(x >= 0 && y->isSynchronizing(L[(size_t)gi[i]].s->journal()) && gy.isSynchronizing(G[i].s->journal())) count("other peer differs");
		}
		y->disconnect(a);
		ny.disconnect(b);
	}
	h.closed = true;
	if(r.flip()) { delete y; y = nullptr; }
	if(ctx().caseNo < 3 && !sent.empty()) sample("e.g. " + hex(sent.back(), 60));
	if(y) { if(connected) y->disconnect(h); delete y; }
}

// ---------------------------------------------------------------- C18
struct Sessions {
	Net& net;
	Rng& r;
	std::set<std::pair<int, int>> down; // edge, store
	std::set<int> gone;		    // edges that are not connected
	std::set<std::pair<int, int>> unmapped; // node, store
	explicit Sessions(Net& n) : net(n), r(n.r) {}

	std::vector<std::set<int>> comps(int st)
	{
		auto& d = net.stores[(size_t)st];
		std::set<int> todo = d.nodes;
		std::vector<std::set<int>> res;
		while(!todo.empty()) {
			std::set<int> c;
			// the one with the root goes first
			std::vector<int> q{res.empty() ? d.root : *todo.begin()};
			while(!q.empty()) {
				int n = q.back();
				q.pop_back();
				if(!c.insert(n).second) continue;
				todo.erase(n);
				for(auto& p : d.parentEdge) {
					if(down.count({p.second, st})) continue;
					auto& e = net.edges[(size_t)p.second];
					for(int s = 0; s < 2; s++) if(e.node[s] == n && d.nodes.count(e.node[1 - s])) q.push_back(e.node[1 - s]);
				}
			}
			res.push_back(c);
		}
		return res;
	}
	// Who may write: everybody who is connected with the root.
	void setReady()
	{
		for(size_t st = 0; st < net.stores.size(); st++) {
			auto c = comps((int)st);
			for(int n : net.stores[st].nodes) net.nodes[(size_t)n].copy[(int)st].ready = c[0].count(n) > 0;
		}
	}
	void act()
	{
		switch(r.below(8)) {
		case 0: case 1: case 2: net.write((int)r.below(net.stores.size())); net.note(1); break;
		case 3: case 4: net.process((int)r.below(net.nodes.size())); net.note(2); break;
		default: {
			std::vector<End*> es;
			for(auto& e : net.edges) for(auto& x : e.end) if(x && !x->in.empty()) es.push_back(x.get());
			if(es.empty()) break;
			End* e = r.pick(es);
			net.note((uint64_t)(e->edge * 2 + e->side + 10));
			for(int k = (int)r.range(1, 4); k > 0 && net.deliverOne(*e); k--) ;
		}
		}
	}
	void acts() { for(int k = (int)r.below(r.flip() ? 5 : 40); k > 0 && !ctx().caseViolated; k--) act(); }
	// All copies that are connected must be the same, and have what was written there.
	void check(char const* when)
	{
		for(size_t st = 0; st < net.stores.size() && !ctx().caseViolated; st++) {
			auto& d = net.stores[st];
			auto cs = comps((int)st);
			for(size_t k = 0; k < cs.size(); k++) {
				int a = k == 0 ? d.root : *cs[k].begin();
				Copy& ca = net.nodes[(size_t)a].copy[(int)st];
				std::string ra = ca.raw();
				for(int n : cs[k]) {
					Copy& c = net.nodes[(size_t)n].copy[(int)st];
					std::string raw = c.raw();
					for(int i : d.vars) {
						count("values compared");
						std::string v = d.val(c, raw, i);
						if(v != d.val(ca, ra, i)) {
							V("c18", "diverged", "%s: node %d and node %d, which are connected, have %s and %s for %s of store %zu (%s)", when, a, n, hex(d.val(ca, ra, i)).c_str(), hex(v).c_str(),
								show(d.o[i].name).c_str(), st, d.reg->name);
							return;
						}
						if(k == 0 && cs[0].count(d.owner[(size_t)i]) && !lost.count({(int)st, i}) && v != d.value[(size_t)i]) {
							V("c18", "write-lost", "%s: node %d has %s for %s of store %zu (%s), while its owner, node %d, wrote %s and is connected", when, n, hex(v).c_str(),
								show(d.o[i].name).c_str(), st, d.reg->name, d.owner[(size_t)i], hex(d.value[(size_t)i]).c_str());
							return;
						}
					}
				}
			}
		}
	}
	std::set<std::pair<int, int>> lost; // store, object: overwritten by a new session
	// Nodes that are (going to be) synchronized again: their writes may be overwritten
	void cut(int edge, int st)
	{
		auto& d = net.stores[(size_t)st];
		down.insert({edge, st});
		auto c = comps(st);
		for(int i : d.vars) if(!c[0].count(d.owner[(size_t)i])) lost.insert({st, i});
	}
	void restored(std::set<std::pair<int, int>> const& which)
	{
		for(auto& p : which) down.erase(p);
		for(size_t st = 0; st < net.stores.size(); st++) {
			auto& d = net.stores[st];
			auto c = comps((int)st);
			Copy& root = net.nodes[(size_t)d.root].copy[(int)st];
			std::string raw = root.raw();
			for(int i : d.vars)
				if(c[0].count(d.owner[(size_t)i]) && lost.erase({(int)st, i})) d.value[(size_t)i] = d.val(root, raw, i);
		}
		setReady();
	}
	End* end(int edge, int side) { return net.edges[(size_t)edge].end[side].get(); }
	int childSide(int edge, int st)
	{
		auto& d = net.stores[(size_t)st];
		for(int s = 0; s < 2; s++) {
			auto it = d.parentEdge.find(net.edges[(size_t)edge].node[s]);
			if(it != d.parentEdge.end() && it->second == edge) return s;
		}
		return -1;
	}
	stored::SyncConnection* conn(End& e) { return static_cast<stored::SyncConnection*>(e.up()); }

	// When messages are handled immediately, the other side may ask for the data again during
	// the goodbye. That overwrites what is not sent yet over there.
	void settle()
	{
		if(net.sync) net.quiesce();
	}

	// ---- things that end a session until it is resumed
	void dropEdge(int e)
	{
		auto& E = net.edges[(size_t)e];
		for(int st : E.stores) cut(e, st);
		if(!gone.insert(e).second) return;
		setReady();
		settle();
		int first = (int)r.below(2);
		int how = (int)r.below(4);
		label(fmt("drop connection %d-%d (%d)", E.node[0], E.node[1], how));
		for(int k = 0; k < 2; k++) {
			auto& x = E.end[k ^ first];
			if(how != 3 || k == 0) net.synOf(*x).disconnect(*x);
			if(how == 0) x.reset();
			else if(how == 1) acts();
			else if(how == 2) x->in.clear();
		}
		for(auto& x : E.end) x.reset(); // how == 3: the layer goes first
		count("dropped connections");
	}
	void unmap(int n, int st)
	{
		if(!unmapped.insert({n, st}).second) return;
		auto& N = net.nodes[(size_t)n];
		bool fresh = r.flip();
		label(fmt("unmap store %d at node %d%s", st, n, fresh ? ", and destroy it" : ""));
		for(size_t e = 0; e < net.edges.size(); e++) for(int s = 0; s < 2; s++) if(net.edges[e].node[s] == n && net.edges[e].stores.count(st)) cut((int)e, st);
		if(fresh) for(int i : net.stores[(size_t)st].vars) if(net.stores[(size_t)st].owner[(size_t)i] == n) lost.insert({st, i});
		setReady();
		for(auto& y : N.syn) N.copy[st].s->unmap(*y);
		if(fresh) renew(n, st);
		count("unmapped stores");
	}
	void renew(int n, int st)
	{
		auto& d = net.stores[(size_t)st];
		bool ready = net.nodes[(size_t)n].copy[st].ready;
		net.makeCopy(st, n);
		Copy& c = net.nodes[(size_t)n].copy[st];
		c.ready = ready;
		if(r.flip()) for(int k = (int)r.below(4); k > 0 && !d.vars.empty(); k--) {
			int i = r.pick(d.vars);
			std::string v = net.randValue(d, i);
			c.s->write(i, v.data(), v.size(), 0);
		}
		if(n == d.root) {
			std::string raw = c.raw();
			for(int i : d.vars) { lost.insert({st, i}); d.value[(size_t)i] = d.val(c, raw, i); }
		}
	}
	void destroySynchronizer(int n)
	{
		auto& N = net.nodes[(size_t)n];
		int y = (int)r.below(N.syn.size());
		label(fmt("destroy synchronizer %d of node %d", y, n));
		bool polite = r.flip();
		std::vector<int> es;
		for(size_t e = 0; e < net.edges.size(); e++) for(int s = 0; s < 2; s++) if(net.edges[e].node[s] == n && net.edges[e].syn[s] == y) es.push_back((int)e);
		for(int e : es) for(int st : net.edges[(size_t)e].stores) cut(e, st);
		setReady();
		settle();
		if(polite) for(auto& c : N.copy) if(!unmapped.count({n, c.first})) c.second.s->unmap(*N.syn[(size_t)y]);
		N.syn[(size_t)y].reset(new Synchronizer());
		// the other stores are mapped again, in another order
		std::vector<int> ss;
		for(auto& c : N.copy) if(!unmapped.count({n, c.first})) ss.push_back(c.first);
		for(size_t i = ss.size(); i > 1; i--) std::swap(ss[i - 1], ss[(size_t)r.below(i)]);
		for(int st : ss) N.copy[st].s->map(*N.syn[(size_t)y]);
		if(r.flip()) acts();
		for(int e : es) {
			if(!gone.insert(e).second) continue;
			auto& E = net.edges[(size_t)e];
			for(int s = 0; s < 2; s++) if(E.node[s] != n && r.flip()) net.synOf(*E.end[s]).disconnect(*E.end[s]);
			for(auto& x : E.end) x.reset();
		}
		count("destroyed synchronizers");
	}
	void resume()
	{
		label("resume");
		for(auto& p : unmapped) net.mapCopy(p.second, p.first);
		unmapped.clear();
		std::vector<std::pair<int, int>> todo(down.begin(), down.end());
		for(int e : gone) if(net.edges[(size_t)e].stores.empty() || r.chance(1, 4)) todo.push_back({e, -1});
		for(size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[(size_t)r.below(i)]);
		for(auto& t : todo) {
			if(gone.erase(t.first)) net.connectEdge(t.first);
			if(t.second >= 0) { net.syncEdge(t.first, t.second); count("resumed"); }
			acts();
		}
		net.quiesce();
		auto d = down;
		down.clear();
		check("after the sessions were resumed");
		restored(d);
	}

	// ---- things after which the session is resumed by itself
	void again(int e)
	{
		auto& E = net.edges[(size_t)e];
		if(gone.count(e)) return;
		for(int st : E.stores) if(down.count({e, st})) return;
		std::set<std::pair<int, int>> mine;
		// When the messages are handled immediately, there is nobody to hear that the other side
		// wants to continue, when only one side reconnects.
		int how = (int)r.below(net.sync ? 2 : 4), side = (int)r.below(2), one = -1;
		if(how == 1) {
			if(E.stores.empty()) return;
			one = *std::next(E.stores.begin(), (long)r.below(E.stores.size()));
		}
		for(int st : E.stores) if(one < 0 || st == one) { cut(e, st); mine.insert({e, st}); }
		setReady();
		net.quiesce();
		acts();
		End& x = *E.end[side];
		label(fmt("%s at %d of connection %d-%d store %d", how == 0 ? "reset" : how == 1 ? "drop" : "reconnect", E.node[side], E.node[0], E.node[1], one));
		switch(how) {
		case 0:
			conn(x)->reset();
			if(r.chance(1, 4)) { acts(); conn(*E.end[1 - side])->reset(); }
			count("resets");
			break;
		case 1: {
			int cs = childSide(e, one);
			conn(x)->drop(net.nodes[(size_t)E.node[side]].copy[one].s->journal());
			if(r.flip()) acts();
			if(side == cs) net.syncEdge(e, one);
			count("dropped stores");
			break;
		}
		default:
			net.synOf(x).disconnect(x);
			net.synOf(x).connect(x);
			x.linked.clear();
			{
				std::vector<int> ss(E.stores.begin(), E.stores.end());
				for(size_t i = ss.size(); i > 1; i--) std::swap(ss[i - 1], ss[(size_t)r.below(i)]);
				for(int st : ss) {
					if(childSide(e, st) == side) net.syncEdge(e, st);
					if(r.flip()) acts();
				}
			}
			count("reconnects at one side");
		}
		acts();
		net.quiesce();
		auto d = down;
		for(auto& p : mine) down.erase(p);
		check("after the session resumed by itself");
		restored(mine);
	}
	void bounce(int n, int st)
	{
		auto& N = net.nodes[(size_t)n];
		std::set<std::pair<int, int>> mine;
		for(size_t e = 0; e < net.edges.size(); e++)
			for(int s = 0; s < 2; s++)
				if(net.edges[e].node[s] == n && net.edges[e].stores.count(st)) {
					if(down.count({(int)e, st})) return;
					mine.insert({(int)e, st});
				}
		if(unmapped.count({n, st})) return;
		for(auto& p : mine) cut(p.first, st);
		setReady();
		net.quiesce();
		acts();
		bool fresh = r.flip();
		label(fmt("unmap and map store %d at node %d%s", st, n, fresh ? ", as a new one" : ""));
		// When the messages are handled immediately, the others are told that the store is gone.
		bool told = net.sync;
		for(auto& y : N.syn) N.copy[st].s->unmap(*y);
		if(fresh) renew(n, st);
		net.mapCopy(st, n);
		for(auto& p : mine) if(told || childSide(p.first, st) == (net.edges[(size_t)p.first].node[0] == n ? 0 : 1)) net.syncEdge(p.first, st);
		count("bounced stores");
		acts();
		net.quiesce();
		for(auto& p : mine) down.erase(p);
		check("after the store was mapped again");
		restored(mine);
	}
};

static void runSessions(Rng& r)
{
	Net net(r);
	net.setup(r.chance(1, 3) ? 2 : 5, 4, false);
	if(net.stores.empty() || net.edges.empty()) return;
	std::vector<int> es;
	for(size_t e = 0; e < net.edges.size(); e++) es.push_back((int)e);
	for(size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[(size_t)r.below(i)]);
	for(int e : es) {
		net.connectEdge(e);
		for(int st : net.edges[(size_t)e].stores) net.syncEdge(e, st);
	}
	net.quiesce();
	Sessions s(net);
	s.restored({});
	s.check("at the start");
	int rounds = (int)r.range(1, ctx().thorough ? 30 : 8);
	for(int k = 0; k < rounds && !ctx().caseViolated; k++) {
		s.acts();
		int n = (int)r.below(net.nodes.size());
		int e = (int)r.below(net.edges.size());
		std::vector<int> ss;
		for(auto& c : net.nodes[(size_t)n].copy) ss.push_back(c.first);
		int what = (int)r.below(8);
		sig((uint64_t)what * 1000 + (uint64_t)e * 10 + (uint64_t)n);
		switch(what) {
		case 0: case 1: s.dropEdge(e); break;
		case 2: case 3: if(!ss.empty()) s.unmap(n, r.pick(ss)); break;
		case 4: s.destroySynchronizer(n); break;
		case 5: case 6: s.again(e); break;
		default: if(!ss.empty()) s.bounce(n, r.pick(ss));
		}
		s.acts();
		if(ctx().caseViolated) break;
		if(r.flip()) {
			net.quiesce();
			s.check("while some are not connected");
			if(r.chance(3, 4)) s.resume();
		}
	}
	if(!ctx().caseViolated) {
		net.quiesce();
		s.check("while some are not connected");
		s.resume();
		s.acts();
		net.quiesce();
		s.check("at the end");
	}
	sig(net.trace);
	if(ctx().caseNo < 3) sample(fmt("%zu nodes, %zu stores, %d session events, %llu messages", net.nodes.size(), net.stores.size(), rounds, (unsigned long long)net.sentCount));
}

int main(int argc, char** argv)
{
	return runMain(argc, argv, [](Rng& r) {
		mode = ctx().arg("mode", "c15");
		if(mode == "c17") runHostile(r);
		else if(mode == "c18") runSessions(r);
		else if(mode == "c15" && ctx().arg("directed", "") == "1" && ctx().caseNo == 0) runLongSilence(r);
		else runNet(r);
	});
}
