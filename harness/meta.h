// What the generated <store>_meta.h needs.
#ifndef VERIF_META_H
#define VERIF_META_H
#include "common.h"
#include <libstored/types.h>
namespace vf {
struct ObjMeta {
	char const* name; // with leading /
	int type;	  // stored::Type::type
	size_t size;
	int func;
	int fnIndex;
	char const* init; // little endian bytes
	int member;	  // has a C++ member of which the name is known
	int array;	  // has an array accessor
};

struct HookEvent {
	int kind; // 0 entryX 1 exitX 2 entryRO 3 exitRO 4 changed
	int type;
	void* buffer;
	size_t len;
	bool changed;
};
struct FnEvent {
	int f;
	bool set;
	std::string value;
};
// Records what a store does.
struct Observed {
	explicit Observed(size_t fns) : fnValue(fns) {}
	bool recording = false;
	std::vector<HookEvent> hooks;
	std::vector<FnEvent> fnCalls;
	std::vector<int> changedCalls;
	std::vector<std::string> fnValue; // what the functions hold
	void vfHook(int k, stored::Type::type t, void* b, size_t l, bool c) noexcept
	{
		if(recording) hooks.push_back({k, (int)t, b, l, c});
	}
	void vfChanged(int i) noexcept
	{
		if(recording) changedCalls.push_back(i);
	}
	void vfFn(int f, bool set, void* v, size_t len)
	{
		std::string& x = fnValue[(size_t)f];
		if(x.size() < len) x.resize(len);
		if(set) x.assign((char const*)v, len);
		else memcpy(v, x.data(), len);
		if(recording) fnCalls.push_back({f, set, x});
	}
	size_t vfFnBlob(int f, bool set, void* v, size_t len)
	{
		std::string& x = fnValue[(size_t)f];
		if(set) { x.assign((char const*)v, len); if(recording) fnCalls.push_back({f, set, x}); return len; }
		size_t n = std::min(len, x.size());
		memcpy(v, x.data(), n);
		if(recording) fnCalls.push_back({f, set, x});
		return n;
	}
};
} // namespace vf
#endif
