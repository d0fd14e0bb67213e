// Type-erased access to generated stores, through every access path there is.
#ifndef VERIF_STOREIF_H
#define VERIF_STOREIF_H
#include "meta.h"
#include <functional>
#include <memory>
#include <libstored/debugger.h>
#include <libstored/directory.h>

namespace vf {

struct VarInfo {
	bool valid = false;
	int type = 0;
	size_t size = 0;
	bool func = false;
	void* buffer = nullptr;
	unsigned fnId = 0;
};

enum Path { PathFind, PathTyped, PathFree, PathVariable, PathMember, PathArray, PathMap, PathDebug, PathVariantT, PathCopy, PathCount };
inline char const* pathName(int p)
{
	static char const* n[] = {"find", "typed", "free", "variable", "member", "array", "map", "debug", "variant<T>", "copy"};
	return n[p];
}

struct StoreIf {
	virtual ~StoreIf() {}
	virtual ObjMeta const* objs() = 0;
	virtual size_t count() = 0;
	virtual char const* name() = 0;
	virtual char* buffer() = 0;
	virtual size_t bufferSize() = 0;
	virtual Observed& obs() = 0;
	virtual VarInfo find(char const* name, size_t len) = 0;
	virtual VarInfo findz(char const* name) = 0;
	typedef std::function<void(char const*, int, void*, size_t)> ListF;
	virtual void list(ListF const& f) = 0;
	virtual void listPrefix(ListF const& f, char const* prefix) = 0;
	virtual void listBuffer(ListF const& f, char const* prefix) = 0;
	virtual void listNoNames(ListF const& f) = 0;
	virtual std::map<std::string, VarInfo> map(char const* prefix) = 0;
	virtual bool setVia(int path, int i, void const* src, size_t len) = 0;
	// len: in: size of dst; out: what get() returned (for the paths that return a length)
	virtual bool getVia(int path, int i, void* dst, size_t& len) = 0;
	virtual VarInfo info(int path, int i) = 0; // invalid when the path does not apply
	virtual bool arrayBad(int i) = 0;
	virtual int bufferToType(void* b) = 0;
	virtual intptr_t bufferToKey(void* b) = 0;
	virtual intptr_t keyVia(int path, int i) = 0; // -1: n/a
	virtual bool asInt(int path, int i, int to, void* res) = 0;
	virtual void mapTo(stored::Debugger& d, char const* name) = 0;
	virtual uint8_t const* longDirectory() = 0;
	virtual uint8_t const* shortDirectory() = 0;
};

struct StoreReg {
	char const* name;
	std::unique_ptr<StoreIf> (*make)();
};
inline std::vector<StoreReg>& storeRegs()
{
	static std::vector<StoreReg> r;
	return r;
}

// Calls f(T()) for the C++ type.
template <typename F>
bool visitType(int type, F&& f)
{
	switch(type & ~stored::Type::FlagFunction) {
	case 0x20: f(bool()); return true;
	case 0x38: f(int8_t()); return true;
	case 0x30: f(uint8_t()); return true;
	case 0x39: f(int16_t()); return true;
	case 0x31: f(uint16_t()); return true;
	case 0x3b: f(int32_t()); return true;
	case 0x33: f(uint32_t()); return true;
	case 0x3f: f(int64_t()); return true;
	case 0x37: f(uint64_t()); return true;
	case 0x2b: f(float()); return true;
	case 0x2f: f(double()); return true;
	default: return false;
	}
}

template <typename Impl, typename Mem>
struct StoreAdapter : StoreIf {
	typedef stored::Variant<Impl> V;
	std::unique_ptr<Impl> s{new Impl()};
	std::unique_ptr<Impl> other; // source of copies
	std::unique_ptr<stored::Debugger> dbg;
	typename Impl::ObjectMap omap;

	ObjMeta const* objs() final { return Impl::meta::objs(); }
	size_t count() final { return Impl::meta::count; }
	char const* name() final { return s->name(); }
	char* buffer() final { return s->buffer(); }
	size_t bufferSize() final { return Impl::BufferSize; }
	Observed& obs() final { return *s; }
	static VarInfo toInfo(V const& v)
	{
		VarInfo i;
		i.valid = v.valid();
		if(!i.valid) return i;
		i.type = v.type();
		i.size = v.size();
		i.func = v.isFunction();
		if(!i.func) i.buffer = v.buffer();
		return i;
	}
	VarInfo find(char const* n, size_t len) final { return toInfo(s->find(n, len)); }
	VarInfo findz(char const* n) final { return toInfo(s->find(n)); }
	void list(ListF const& f) final
	{
		s->list([&](Impl* c, char const* n, stored::Type::type t, void* b, size_t l) {
			if(c != s.get()) violation("list-container", "list() passes another container");
			f(n, t, b, l);
		});
	}
	static void listCb(void*, char const* n, stored::Type::type t, void* b, size_t l, void* arg) { (*(ListF const*)arg)(n, t, b, l); }
	void listPrefix(ListF const& f, char const* prefix) final { s->list(&listCb, (void*)&f, prefix); }
	void listBuffer(ListF const& f, char const* prefix) final
	{
		stored::String::type buf;
		s->list(&listCb, (void*)&f, prefix, &buf);
		if(buf != (prefix ? prefix : "")) violation("list-buffer", "name buffer is not restored: " + show(std::string(buf.c_str())));
	}
	void listNoNames(ListF const& f) final { s->list(&listCb, (void*)&f, nullptr, nullptr); }
	std::map<std::string, VarInfo> map(char const* prefix) final
	{
		std::map<std::string, VarInfo> m;
		auto om = s->map(prefix);
		for(auto& x : om) m[std::string(x.first.c_str())] = toInfo(x.second);
		return m;
	}
	V variant(int path, int i)
	{
		char const* n = objs()[i].name;
		switch(path) {
		case PathFind: case PathTyped: case PathFree: case PathVariable: case PathVariantT: case PathCopy: return s->find(n);
		case PathMember: return objs()[i].member ? Mem::variant(*s, i) : V();
		case PathArray: return objs()[i].array ? Mem::array(*s, i) : V();
		case PathMap: {
			if(omap.empty()) omap = s->map();
			auto it = omap.find(n);
			return it == omap.end() ? V() : it->second;
		}
		}
		return V();
	}
	stored::DebugVariant debug(int i)
	{
		if(!dbg) { dbg.reset(new stored::Debugger()); dbg->map(*s); }
		return dbg->find(objs()[i].name);
	}
	VarInfo info(int path, int i) final
	{
		if(path == PathDebug) {
			auto v = debug(i);
			VarInfo r;
			r.valid = v.valid();
			if(r.valid) { r.type = v.type(); r.size = v.size(); r.func = v.isFunction(); }
			return r;
		}
		if((path == PathMember && !objs()[i].member) || (path == PathArray && !objs()[i].array)) return VarInfo();
		return toInfo(variant(path, i));
	}
	bool setVia(int path, int i, void const* src, size_t len) final
	{
		auto const& o = objs()[i];
		bool fixed = stored::Type::isFixed((stored::Type::type)o.type);
		bool done = false;
		switch(path) {
		case PathTyped:
		case PathFree:
		case PathVariable:
		case PathVariantT:
			visitType(o.type, [&](auto t) {
				typedef decltype(t) T;
				T v;
				memcpy(&v, src, sizeof(v));
				if(o.func) {
					if(path == PathTyped) s->template function<T>(o.name).set(v);
					else if(path == PathFree) { auto f = Impl::template freeFunction<T>(o.name); f.apply(*s)(v); }
					else if(path == PathVariable) s->find(o.name).template function<T>() = v;
					else { auto f = s->find(o.name).template function<T>(); f.set(&v, sizeof(v)); }
				} else {
					if(path == PathTyped) s->template variable<T>(o.name).set(v);
					else if(path == PathFree) { auto f = Impl::template freeVariable<T>(o.name); f.apply(*s) = v; }
					else if(path == PathVariable) s->find(o.name).template variable<T>() = v;
					else s->find(o.name).template set<T>(v);
				}
				done = true;
			});
			return done;
		case PathMember: return o.member && Mem::set(*s, i, src, len);
		case PathDebug: debug(i).set(src, len); return true;
		case PathCopy: {
			if(o.func) return false;
			if(!other) other.reset(new Impl());
			V v = other->find(o.name);
			if(!v.valid()) return false;
			if(!fixed && (o.type != stored::Type::String) && len != o.size) return false;
			v.set(src, len);
			s->find(o.name).copy(v);
			return true;
		}
		default: {
			V v = variant(path, i);
			if(!v.valid()) return false;
			v.set(src, len);
			return true;
		}
		}
	}
	bool getVia(int path, int i, void* dst, size_t& len) final
	{
		auto const& o = objs()[i];
		bool done = false;
		switch(path) {
		case PathTyped:
		case PathFree:
		case PathVariable:
		case PathVariantT:
			visitType(o.type, [&](auto t) {
				typedef decltype(t) T;
				T v;
				if(o.func) {
					if(path == PathTyped) v = s->template function<T>(o.name).get();
					else if(path == PathFree) v = Impl::template freeFunction<T>(o.name).apply(*s)();
					else if(path == PathVariable) v = (T)s->find(o.name).template function<T>();
					else { v = T(); s->find(o.name).template function<T>().get(&v, sizeof(v)); }
				} else {
					if(path == PathTyped) v = s->template variable<T>(o.name).get();
					else if(path == PathFree) v = (T)Impl::template freeVariable<T>(o.name).apply(*s);
					else if(path == PathVariable) v = s->find(o.name).template variable<T>().get();
					else v = s->find(o.name).template get<T>();
				}
				memcpy(dst, &v, sizeof(v));
				len = sizeof(v);
				done = true;
			});
			return done;
		case PathMember: return o.member && Mem::get(*s, i, dst, len);
		case PathDebug: len = debug(i).get(dst, len); return true;
		case PathCopy: {
			if(o.func) return false;
			if(!other) other.reset(new Impl());
			V v = other->find(o.name);
			v.copy(s->find(o.name));
			len = v.get(dst, len);
			return true;
		}
		default: {
			V v = variant(path, i);
			if(!v.valid()) return false;
			len = v.get(dst, len);
			return true;
		}
		}
	}
	bool arrayBad(int i) final { return Mem::arrayBad(*s, i); }
	int bufferToType(void* b) final { return s->bufferToType(b); }
	intptr_t bufferToKey(void* b) final { return (intptr_t)s->bufferToKey(b); }
	intptr_t keyVia(int path, int i) final
	{
		auto const& o = objs()[i];
		if(o.func) return -1;
		switch(path) {
		case PathFind: return (intptr_t)s->find(o.name).key();
		case PathMember: return o.member ? Mem::key(*s, i) : -1;
		case PathVariable: {
			intptr_t k = -1;
			visitType(o.type, [&](auto t) { k = (intptr_t)s->find(o.name).template variable<decltype(t)>().key(); });
			return k;
		}
		}
		return -1;
	}
	template <typename X>
	static void as(X const& x, int to, void* res)
	{
		visitType(to, [&](auto t) {
			typedef decltype(t) T;
			T v = x.template as<T>();
			memcpy(res, &v, sizeof(v));
		});
	}
	bool asInt(int path, int i, int to, void* res) final
	{
		auto const& o = objs()[i];
		if(path == PathMember) {
			if(!o.member) return false;
			if(to == 0x3f) return Mem::asInt(*s, i, *(int64_t*)res);
			if(to == 0x38) return Mem::asI8(*s, i, *(int8_t*)res);
			return false;
		}
		if(path != PathVariable) return false;
		return visitType(o.type, [&](auto t) {
			typedef decltype(t) T;
			if(o.func) as(s->find(o.name).template function<T>(), to, res);
			else as(s->find(o.name).template variable<T>(), to, res);
		});
	}
	void mapTo(stored::Debugger& d, char const* name) final { d.map(*s, name); }
	uint8_t const* longDirectory() final { return s->longDirectory(); }
	uint8_t const* shortDirectory() final { return s->shortDirectory(); }
};

#define VF_STORE(N)                                                                                            \
	static std::unique_ptr<vf::StoreIf> vf_make_##N() { return std::unique_ptr<vf::StoreIf>(new vf::StoreAdapter<N##_impl, N##_members>()); } \
	static int vf_reg_##N = (vf::storeRegs().push_back({#N, &vf_make_##N}), 0);

} // namespace vf
#endif
