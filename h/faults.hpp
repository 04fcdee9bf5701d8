// Fault-injecting operator new, and accounting of allocations and object lifetimes. FAULTS_IMPL: define the operators here.
#pragma once
#include <cstdlib>
#include <new>
#include <unordered_set>
#include <cstdint>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
inline bool leak_check() { return __lsan_do_recoverable_leak_check() != 0; }
#else
inline bool leak_check() { return false; }
#endif
template<typename T> struct MallocAllocator {   // outside the faults and the accounting
    using value_type = T;
    MallocAllocator() = default;
    template<typename U> MallocAllocator(const MallocAllocator<U>&) {}
    T* allocate(std::size_t n) { void* p = std::malloc(n * sizeof(T)); if (!p) std::abort(); return static_cast<T*>(p); }
    void deallocate(T* p, std::size_t) { std::free(p); }
    template<typename U> bool operator==(const MallocAllocator<U>&) const { return true; }
};
using AddressSet = std::unordered_set<const void*, std::hash<const void*>, std::equal_to<const void*>, MallocAllocator<const void*>>;
struct Faults {
    static inline bool armed = false, sticky = false;
    static inline std::uint64_t seen = 0, at = ~0ull;
    static AddressSet& blocks() { static AddressSet* s = new (std::malloc(sizeof(AddressSet))) AddressSet; return *s; }
    static void plan(std::uint64_t k, bool all_later) { at = k; sticky = all_later; seen = 0; }
    static void arm() { armed = true; }
    static void off() { armed = false; }
    static std::uint64_t count() { return seen; }
    static std::int64_t outstanding() { return std::int64_t(blocks().size()); }
    static void* allocate(std::size_t n, std::size_t align) {
        bool counted = armed;
        if (counted) {
            auto k = seen++;
            if (k == at || (sticky && k > at)) return nullptr;
        }
        void* p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
        if (!p) std::abort();
        if (counted) { armed = false; blocks().insert(p); armed = true; }
        return p;
    }
    static void release(void* p) {
        if (!p) return;
        bool was = armed;
        armed = false;
        blocks().erase(p);
        armed = was;
        std::free(p);
    }
};
#ifdef FAULTS_IMPL
void* operator new(std::size_t n) { void* p = Faults::allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = Faults::allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return Faults::allocate(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return Faults::allocate(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { void* p = Faults::allocate(n, std::size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t a) { void* p = Faults::allocate(n, std::size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { Faults::release(p); }
void operator delete[](void* p) noexcept { Faults::release(p); }
void operator delete(void* p, std::size_t) noexcept { Faults::release(p); }
void operator delete[](void* p, std::size_t) noexcept { Faults::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { Faults::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Faults::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { Faults::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { Faults::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Faults::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Faults::release(p); }
#endif

struct Live {   // which tracked objects exist
    static AddressSet& all() { static AddressSet* s = new (std::malloc(sizeof(AddressSet))) AddressSet; return *s; }
    static inline const char* err = nullptr;
    static inline std::uint64_t births = 0;
    static void born(const void* p) { ++births; if (!all().insert(p).second) err = "an object was constructed where one exists"; }
    static void dead(const void* p) { if (!all().erase(p)) err = "an object was destroyed that does not exist"; }
    static void used(const void* p) { if (!all().count(p)) err = "an object was used that does not exist"; }
    static std::int64_t count() { return std::int64_t(all().size()); }
    static const char* error() { return err; }
    static void clear_error() { err = nullptr; }
};
