// Counts what the code under test allocates; a single request above the cap fails with bad_alloc, as
// it would on a machine with that much memory.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
namespace alloc {
inline uint64_t total = 0, calls = 0, cap = 1ull << 40;
inline int fill = -1;  // >= 0: new memory is filled with this byte
inline void reset() { total = calls = 0; }
inline void* get(std::size_t n) {
    total += n; calls++;
    if (n > cap) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (fill >= 0) __builtin_memset(p, fill, n);
    return p;
}
struct Cap { uint64_t old; explicit Cap(uint64_t c) : old(cap) { cap = c; } ~Cap() { cap = old; } };
}  // namespace alloc
#if defined(ALLOC_COUNT)
void* operator new(std::size_t n) { return alloc::get(n); }
void* operator new[](std::size_t n) { return alloc::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return alloc::get(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return alloc::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
