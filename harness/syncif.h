// Type-erased synchronizable stores.
#ifndef VERIF_SYNCIF_H
#define VERIF_SYNCIF_H
#include "meta.h"
#include <functional>
#include <memory>
#include <libstored/synchronizer.h>

namespace vf {

__attribute__((no_sanitize("address", "undefined", "thread"), noinline)) inline void rawBytes(char* dst, char const* src, size_t n)
{
	for(size_t i = 0; i < n; i++) ((char volatile*)dst)[i] = ((char const volatile*)src)[i];
}

struct SyncIf {
	virtual ~SyncIf() {}
	virtual ObjMeta const* objs() = 0;
	virtual size_t count() = 0;
	virtual char const* hash() = 0;
	virtual char* buffer() = 0;
	virtual size_t bufferSize() = 0;
	virtual size_t maxMessage() = 0;
	virtual std::vector<char*> vars() = 0; // per object, nullptr for functions
	virtual void write(int i, void const* src, size_t len, int path) = 0;
	virtual void map(stored::Synchronizer&) = 0;
	virtual void unmap(stored::Synchronizer&) = 0;
	virtual void syncFrom(stored::Synchronizer&, stored::ProtocolLayer&) = 0;
	virtual void process(stored::Synchronizer&) = 0;
	virtual stored::StoreJournal::Seq process(stored::Synchronizer&, stored::ProtocolLayer&) = 0;
	virtual stored::StoreJournal& journal() = 0;
	virtual void reserve() = 0;
	virtual uint64_t hooks() = 0;
};

struct SyncReg {
	char const* name;
	std::unique_ptr<SyncIf> (*make)(bool hooked);
};
inline std::vector<SyncReg>& syncRegs()
{
	static std::vector<SyncReg> r;
	return r;
}

template <typename Impl, typename Meta>
struct SyncAdapter : SyncIf {
	std::unique_ptr<Impl> s{new Impl()};
	ObjMeta const* objs() final { return Meta::objs(); }
	size_t count() final { return Meta::count; }
	char const* hash() final { return s->hash(); }
	char* buffer() final { return s->buffer(); }
	size_t bufferSize() final { return Impl::BufferSize; }
	size_t maxMessage() final { return Impl::MaxMessageSize; }
	std::vector<char*> vars() final
	{
		std::vector<char*> r(Meta::count);
		std::map<std::string, int> at;
		for(int i = 0; i < Meta::count; i++) at[objs()[i].name] = i;
		s->list([&](Impl*, char const* n, stored::Type::type t, void* b, size_t) {
			auto it = at.find(n);
			if(it != at.end() && !stored::Type::isFunction(t)) r[(size_t)it->second] = (char*)b;
		});
		return r;
	}
	void write(int i, void const* src, size_t len, int path) final
	{
		auto v = s->find(objs()[i].name);
		if(!v.valid()) harnessError("find");
		if(path == 1) {
			bool done = false;
			int t = objs()[i].type;
			auto f = [&](auto x) {
				typedef decltype(x) T;
				memcpy(&x, src, sizeof(x));
				v.template variable<T>() = x;
				done = true;
			};
			switch(t) {
			case 0x20: f(bool()); break;
			case 0x38: f(int8_t()); break;
			case 0x31: f(uint16_t()); break;
			case 0x3b: f(int32_t()); break;
			case 0x37: f(uint64_t()); break;
			case 0x2b: f(float()); break;
			case 0x2f: f(double()); break;
			}
			if(done) return;
		}
		v.set(src, len);
	}
	void map(stored::Synchronizer& y) final { y.map(*s); }
	void unmap(stored::Synchronizer& y) final { y.unmap(*s); }
	void syncFrom(stored::Synchronizer& y, stored::ProtocolLayer& p) final { y.syncFrom(*s, p); }
	void process(stored::Synchronizer& y) final { y.process(*s); }
	stored::StoreJournal::Seq process(stored::Synchronizer& y, stored::ProtocolLayer& p) final { return y.process(p, *s); }
	stored::StoreJournal& journal() final { return s->journal(); }
	void reserve() final { s->reserveHeap(); }
	uint64_t hooks() final { return s->vfHooks; }
};

#define VF_SYNC(N)                                                                                                       \
	class N##_sp : public STORE_T(N##_sp, stored::N##DefaultFunctions, stored::Synchronizable, stored::N##Base) {    \
		STORE_CLASS(N##_sp, stored::N##DefaultFunctions, stored::Synchronizable, stored::N##Base)                \
	public:                                                                                                          \
		N##_sp() = default;                                                                                      \
		using base::buffer;                                                                                      \
		uint64_t vfHooks = 0;                                                                                    \
	};                                                                                                               \
	class N##_sh : public STORE_T(N##_sh, stored::N##DefaultFunctions, stored::Synchronizable, stored::N##Base) {    \
		STORE_CLASS(N##_sh, stored::N##DefaultFunctions, stored::Synchronizable, stored::N##Base)                \
	public:                                                                                                          \
		N##_sh() = default;                                                                                      \
		using base::buffer;                                                                                      \
		uint64_t vfHooks = 0;                                                                                    \
		void __hookEntryRO(stored::Type::type t, void* b, size_t l) noexcept { vfHooks++; base::__hookEntryRO(t, b, l); } \
		void __hookExitRO(stored::Type::type t, void* b, size_t l) noexcept { base::__hookExitRO(t, b, l); }     \
		void __hookChanged(stored::Type::type t, void* b, size_t l) noexcept { vfHooks++; base::__hookChanged(t, b, l); } \
	};                                                                                                               \
	static std::unique_ptr<vf::SyncIf> vf_make_##N(bool h)                                                           \
	{                                                                                                                \
		if(h) return std::unique_ptr<vf::SyncIf>(new vf::SyncAdapter<N##_sh, N##_meta>());                       \
		return std::unique_ptr<vf::SyncIf>(new vf::SyncAdapter<N##_sp, N##_meta>());                             \
	}                                                                                                                \
	static int vf_reg_##N = (vf::syncRegs().push_back({#N, &vf_make_##N}), 0);

} // namespace vf
#endif
