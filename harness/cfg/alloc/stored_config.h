// All dynamic memory through an allocator that keeps a ledger (see alloccheck.cpp).
#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
#include <cstddef>
#include <type_traits>
void* vfAllocate(size_t bytes, size_t elem, size_t align);
void vfDeallocate(void* p, size_t bytes, size_t elem, size_t align) noexcept;

template <typename T>
struct VfAllocator {
	using value_type = T;
	using is_always_equal = std::true_type;
	VfAllocator() noexcept {}
	template <typename U>
	VfAllocator(VfAllocator<U> const&) noexcept
	{}
	T* allocate(size_t n) { return static_cast<T*>(vfAllocate(n * sizeof(T), sizeof(T), alignof(T))); }
	void deallocate(T* p, size_t n) noexcept { vfDeallocate(p, n * sizeof(T), sizeof(T), alignof(T)); }
	template <typename U>
	bool operator==(VfAllocator<U> const&) const noexcept
	{
		return true;
	}
	template <typename U>
	bool operator!=(VfAllocator<U> const&) const noexcept
	{
		return false;
	}
};

namespace stored {
struct Config : public DefaultConfig {
	template <typename T>
	struct Allocator {
		typedef VfAllocator<T> type;
	};
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static int const DebuggerStreams = 3;
};
}
#endif
#endif
