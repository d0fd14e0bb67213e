// C20: scratch pad, against a model of live allocations and snapshots.
#include "common.h"
#include <libstored/allocator.h>
#include <libstored/spm.h>
#include <algorithm>
#include <memory>
#include <new>

using namespace vf;

struct Six { uint16_t x[3]; };
struct Twelve { uint32_t x[3]; };
struct Big { double x[5]; };

template <size_t MaxSize>
struct Model {
	typedef stored::ScratchPad<MaxSize> Spm;
	struct Live { unsigned char* p; size_t n; uint64_t tag; };
	struct Snap { std::unique_ptr<typename Spm::Snapshot> s; size_t live; size_t size; bool empty; };

	Rng& r;
	std::unique_ptr<Spm> spm;
	std::vector<Live> live;
	std::vector<Snap> snaps;
	static constexpr size_t Lim = MaxSize < 300000 ? MaxSize : 300000; // what is tried
	size_t sum = 0, upper = 0; // bounds of the size that is accounted
	size_t maxSeen = 0;
	uint64_t tags = 0;
	std::string trace = fmt("ScratchPad<%zu>", MaxSize);

	explicit Model(Rng& rng) : r(rng), spm(new Spm(rng.chance(1, 4) ? (size_t)rng.below(std::min<size_t>(MaxSize, 400)) : 0)) {}

	void bad(char const* key, std::string const& m) { violation(key, trace + ": " + m); }

	static unsigned char content(uint64_t tag, size_t i) { return (unsigned char)(tag * 37 + i * 11 + (i >> 8)); }

	void verify(Live const& l)
	{
		size_t step = l.n > 3000 ? l.n / 1500 : 1;
		for(size_t i = 0; i < l.n; i += step)
			if(l.p[i] != content(l.tag, i)) {
				bad("content", fmt("byte %zu of a live allocation of %zu bytes was changed", i, l.n));
				return;
			}
		if(l.n && l.p[l.n - 1] != content(l.tag, l.n - 1)) bad("content", "the last byte of a live allocation was changed");
	}

	void check()
	{
		size_t s = spm->size();
		if(s < sum || s > upper) bad("size", fmt("size() is %zu, while %zu..%zu is live", s, sum, upper));
		if(spm->empty() != (s == 0)) bad("empty", "empty() does not match size()");
		if(spm->capacity() < s) bad("capacity", fmt("capacity() %zu is less than size() %zu", spm->capacity(), s));
		maxSeen = std::max(maxSeen, s);
		if(spm->max() != maxSeen) bad("max", fmt("max() is %zu instead of %zu", spm->max(), maxSeen));
		if(!live.empty() && spm->chunks() == 0) bad("chunks", "no chunks with live allocations");
		countMax("chunks", spm->chunks());
		countMax("live", live.size());
	}

	template <typename T>
	void alloc(size_t n, bool noPadding = false)
	{
		size_t align = noPadding || r.chance(2, 3) ? sizeof(T) : (size_t)1 << r.below(6);
		bool dflt = align == sizeof(T) && r.flip();
		size_t const bytes = n * sizeof(T);
		size_t const before = spm->size();
		size_t const eff = std::min(align, sizeof(void*));
		label(trace + fmt(" alloc %zu x %zu align %zu, size %zu", n, sizeof(T), align, before));
		VERBOSE("alloc %zu x %zu align %zu, size %zu capacity %zu chunks %zu\n", n, sizeof(T), align, before, spm->capacity(), spm->chunks());
		T* p = nullptr;
		bool thrown = false;
		try {
			p = dflt ? spm->template alloc<T>(n) : spm->template alloc<T>(n, align);
		} catch(std::bad_alloc&) {
			thrown = true;
		}
		count("allocs");
		if(thrown) {
			count("refused allocs");
			if(before + bytes + eff <= MaxSize) bad("refused", fmt("allocation of %zu bytes refused with %zu in use", bytes, before));
			if(spm->size() != before) bad("size", fmt("size() changed from %zu to %zu by a refused allocation", before, spm->size()));
			return;
		}
		if(!p) { bad("null", "alloc() gives null"); return; }
		if(!bytes) {
			if(spm->size() != before) bad("size", "size() changed by an allocation of nothing");
			return;
		}
		if(before + bytes > MaxSize) { bad("overcommit", fmt("%zu bytes allocated with %zu of at most %zu in use", bytes, before, MaxSize)); return; }
		if((eff & (eff - 1)) == 0 && (uintptr_t)p % eff) bad("alignment", fmt("allocation for alignment %zu is at %p", eff, (void*)p));
		if((uintptr_t)p % alignof(T) && align >= alignof(T)) bad("alignment", "allocation is not aligned for its type");
		Live l{(unsigned char*)p, bytes, tags++};
		for(auto& o : live)
			if(l.p < o.p + o.n && o.p < l.p + l.n) {
				bad("overlap", fmt("allocation of %zu bytes overlaps a live one of %zu bytes", l.n, o.n));
				return;
			}
		for(size_t i = 0; i < l.n; i++) l.p[i] = content(l.tag, i);
		live.push_back(l);
		if(live.size() > 1) verify(live[live.size() - 2]);
		sum += bytes;
		upper = before + bytes + eff - 1;
		if(spm->size() < before + bytes) bad("size", fmt("size() went from %zu to %zu by allocating %zu", before, spm->size(), bytes));
		sig(fmt("%zu/a%zu/%zu/%zu/%zu", MaxSize, bytes, eff, spm->chunks(), live.size()));
	}

	void allocAny()
	{
		size_t n;
		switch(r.below(12)) {
		case 0: n = (size_t)r.below(3); break;
		case 1: { // around the end of the current chunk
			size_t c = spm->capacity() - spm->size();
			n = c + (size_t)r.below(5) - 2;
			if(n > c + 2) n = c;
			alloc<char>(n);
			return;
		}
		case 2: { size_t c = spm->capacity() - spm->size(); alloc<char>(c); return; } // exactly full
		case 3: n = (size_t)r.below(500); break;
		case 4: n = r.chance(1, 6) ? (size_t)r.below(Lim / 2 + 10) : (size_t)r.below(60); break;
		case 5: // around the maximum size
			if(MaxSize == Lim && r.chance(1, 3)) { n = MaxSize - spm->size() + (size_t)r.below(24) - 12; if(n > MaxSize * 2) n = 1; alloc<char>(n); return; }
			n = 1;
			break;
		case 6: if(r.chance(1, 8)) { alloc<char>(r.flip() ? 65536 - spm->size() % 65536 : Lim + 1 + (size_t)r.below(300)); return; } n = 2; break;
		default: n = (size_t)r.range(1, 40);
		}
		switch(r.below(9)) {
		case 0: alloc<char>(n); break;
		case 1: alloc<uint16_t>(n); break;
		case 2: alloc<uint32_t>(n); break;
		case 3: alloc<double>(n); break;
		case 4: alloc<Six>(n); break;
		case 5: alloc<Twelve>(n); break;
		case 6: alloc<Big>(n); break;
		case 7: alloc<void*>(n); break;
		default: alloc<char>(n); break;
		}
	}

	// Snapshots from i on are not valid anymore.
	void invalidate(size_t i)
	{
		for(size_t j = i; j < snaps.size(); j++) snaps[j].s->reset();
		snaps.resize(i);
	}

	void released(size_t liveLeft)
	{
		for(size_t i = 0; i < liveLeft; i++) verify(live[i]);
		live.resize(liveLeft);
		sum = 0;
		for(auto& l : live) sum += l.n;
	}

	void rolledBack(size_t l, size_t size)
	{
		if(spm->size() != size) bad("rollback-size", fmt("size() is %zu after rollback to a snapshot at %zu", spm->size(), size));
		released(l);
		upper = size;
		count("rollbacks");
		sig(fmt("%zu/r%zu/%zu/%zu", MaxSize, l, size, spm->chunks()));
	}

	void step()
	{
		switch(r.below(20)) {
		case 0: case 1: case 2: { // snapshot
			if(snaps.size() >= 8) break;
			label(trace + " snapshot");
			VERBOSE("snapshot %zu at %zu, chunks %zu, capacity %zu\n", snaps.size(), spm->size(), spm->chunks(), spm->capacity());
			snaps.push_back({std::unique_ptr<typename Spm::Snapshot>(new typename Spm::Snapshot(spm->snapshot())), live.size(), spm->size(), spm->empty()});
			count("snapshots");
			break;
		}
		case 3: case 4: if(!snaps.empty()) { // rollback, which can be repeated
			size_t i = r.flip() ? snaps.size() - 1 : (size_t)r.below(snaps.size());
			label(trace + fmt(" rollback to %zu, size %zu", snaps[i].size, spm->size()));
			VERBOSE("rollback %zu to %zu, from %zu, chunks %zu\n", i, snaps[i].size, spm->size(), spm->chunks());
			snaps[i].s->rollback();
			rolledBack(snaps[i].live, snaps[i].size);
			invalidate(i + 1);
			break;
		}
		case 5: if(!snaps.empty()) { // leave the scope of the last one
			auto l = snaps.back().live, s = snaps.back().size;
			label(trace + fmt(" end of scope of snapshot %zu, size %zu", s, spm->size()));
			VERBOSE("scope end to %zu, from %zu, chunks %zu\n", s, spm->size(), spm->chunks());
			snaps.pop_back();
			rolledBack(l, s);
			break;
		}
		case 6: if(!snaps.empty()) { // detach
			size_t i = (size_t)r.below(snaps.size());
			size_t s = spm->size();
			VERBOSE("detach %zu\n", i);
			snaps[i].s->reset();
			snaps.erase(snaps.begin() + (ptrdiff_t)i);
			if(spm->size() != s) bad("rollback-size", "a detached snapshot is rolled back");
			break;
		}
		case 7: if(!snaps.empty()) { // move
			size_t i = (size_t)r.below(snaps.size());
			size_t s = spm->size();
			VERBOSE("move %zu\n", i);
			std::unique_ptr<typename Spm::Snapshot> n;
			switch(r.below(3)) {
			case 0: n.reset(new typename Spm::Snapshot(std::move(*snaps[i].s))); break;
			case 1: n.reset(new typename Spm::Snapshot(static_cast<typename Spm::Snapshot const&>(*snaps[i].s))); break;
			default:
				n.reset(new typename Spm::Snapshot(spm->snapshot()));
				*n = std::move(*snaps[i].s);
			}
			snaps[i].s = std::move(n); // destroys the old one, which must not roll back
			if(spm->size() != s) bad("rollback-size", "a moved snapshot is rolled back");
			for(auto& l : live) verify(l);
			break;
		}
		case 8: { // reserve
			size_t n = r.chance(1, 6) ? (size_t)r.below(3000) : (size_t)r.below(200);
			size_t s = spm->size();
			label(trace + fmt(" reserve %zu, size %zu", n, s));
			VERBOSE("reserve %zu, size %zu chunks %zu\n", n, s, spm->chunks());
			spm->reserve(n);
			count("reserves");
			if(spm->size() != s) bad("size", "reserve() changed size()");
			if(r.flip() && n && s + n <= MaxSize) {
				size_t c = spm->chunks();
				if(r.chance(1, 4)) snaps.size() < 8 ? snaps.push_back({std::unique_ptr<typename Spm::Snapshot>(new typename Spm::Snapshot(spm->snapshot())), live.size(), spm->size(), spm->empty()}) : (void)0;
				alloc<char>(n, true);
				if(spm->chunks() != c) bad("reserve", fmt("allocating %zu bytes after reserving those takes another chunk", n));
			}
			break;
		}
		case 9: if(r.chance(1, 3)) { // reset
			label(trace + " reset");
			VERBOSE("reset, size %zu chunks %zu\n", spm->size(), spm->chunks());
			released(live.size());
			invalidate(0);
			spm->reset();
			released(0);
			upper = 0;
			if(spm->size() != 0 || spm->chunks() > 1) bad("reset", fmt("reset() leaves %zu bytes in %zu chunks", spm->size(), spm->chunks()));
			count("resets");
			break;
		}
		case 10: if(r.chance(1, 3)) {
			label(trace + " shrink");
			VERBOSE("shrink, size %zu chunks %zu\n", spm->size(), spm->chunks());
			bool e = spm->empty();
			size_t s = spm->size();
			spm->shrink_to_fit();
			maxSeen = s;
			if(spm->size() != s) bad("size", "shrink_to_fit() changed size()");
			if(e && (spm->chunks() || spm->capacity())) bad("shrink", fmt("%zu chunks remain after shrinking an empty scratch pad", spm->chunks()));
			count("shrinks");
			break;
		}
		case 11: if(!live.empty()) { // write to a live allocation
			auto& l = r.pick(live);
			verify(l);
			l.tag = tags++;
			for(size_t i = 0; i < l.n; i++) l.p[i] = content(l.tag, i);
			break;
		}
		default: allocAny(); break;
		}
		count("operations");
		check();
	}

	void run()
	{
		check();
		for(int i = 0, n = (int)r.range(5, 120); i < n && !ctx().caseViolated; i++) step();
		if(!ctx().caseViolated) {
			for(auto& l : live) verify(l);
			while(!snaps.empty() && !ctx().caseViolated) {
				auto l = snaps.back().live, s = snaps.back().size;
				snaps.pop_back();
				rolledBack(l, s);
				check();
			}
		} else for(auto& s : snaps) s.s->reset();
		spm.reset();
	}
};

template <size_t M> static void go(Rng& r) { Model<M>(r).run(); }

int main(int argc, char** argv)
{
	static void (*const f[])(Rng&) = {go<0xffff>, go<0xffff>, go<255>, go<1000>, go<0x1ffff>, go<0xfffffffful>, go<100>, go<4000>};
	return runMain(argc, argv, [](Rng& r) {
		f[ctx().caseNo % (sizeof(f) / sizeof(*f))](r);
		if(ctx().caseNo < 3) sample(ctx().status->label);
	});
}
