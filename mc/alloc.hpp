// Replaces the global allocation functions in the translation unit which
// defines ALLOC_IMPLEMENTATION: sizes are recorded, any one can be made to fail.
#ifndef ALLOC_HPP
#define ALLOC_HPP

#include <cstddef>
#include <cstdint>

namespace alloc
{
struct record
{
    bool on{};
    std::size_t max{};        // largest request
    std::size_t total{};      // all requests
    std::size_t count{};      // number of requests
    std::size_t fail_at{};    // 1-based, 0: never
    std::size_t ceiling = ~std::size_t{}; // larger requests fail
    std::size_t live{};       // blocks allocated while on and not freed yet
    std::size_t live_bytes{};
    std::size_t peak_bytes{};
};
extern record now;
void begin();

// Records while in scope.
struct scope
{
    explicit scope(std::size_t fail_at = 0, std::size_t ceiling = ~std::size_t{})
    {
        begin();
        now.fail_at = fail_at;
        now.ceiling = ceiling;
        now.on = true;
    }
    ~scope() { now.on = false; }
};
// Does not record while in scope.
struct pause
{
    pause() : was(now.on) { now.on = false; }
    ~pause() { now.on = was; }
    pause(const pause &) = delete;
    bool was;
};
} // namespace alloc

#ifdef ALLOC_IMPLEMENTATION
#include <cstdlib>
#include <malloc.h>
#include <new>
namespace alloc
{
record now;
// Blocks allocated while recording.
constexpr std::size_t slots = 1 << 16;
static void * block[slots];
static std::size_t block_size[slots];
static std::uint32_t block_epoch[slots];
static std::uint32_t epoch;
static std::size_t used;
static std::size_t slot(void * p)
{
    auto h = (reinterpret_cast<std::uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 48;
    return std::size_t(h) % slots;
}
static void * get(std::size_t n, std::size_t align)
{
    if (now.on) {
        if (n > now.max) {
            now.max = n;
        }
        now.total += n;
        ++now.count;
        if (now.count == now.fail_at || n > now.ceiling) {
            return nullptr;
        }
    }
    void * p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p && now.on) {
        auto i = slot(p);
        std::size_t tries = 0;
        while (block[i] && block[i] != reinterpret_cast<void *>(1) && tries++ < slots) {
            i = (i + 1) % slots;
        }
        used += !block[i];
        block[i] = p;
        block_size[i] = n;
        block_epoch[i] = epoch;
        ++now.live;
        now.live_bytes += n;
        if (now.live_bytes > now.peak_bytes) {
            now.peak_bytes = now.live_bytes;
        }
    }
    return p;
}
static void put(void * p)
{
    if (!p) {
        return;
    }
    auto i = slot(p);
    for (std::size_t tries = 0; block[i] && tries < slots; ++tries, i = (i + 1) % slots) {
        if (block[i] == p) {
            block[i] = reinterpret_cast<void *>(1); // was used
            if (block_epoch[i] == epoch && now.live) {
                --now.live;
                now.live_bytes -= block_size[i];
            }
            break;
        }
    }
    std::free(p);
}
void begin()
{
    now = {};
    ++epoch;
    if (used > slots / 4) { // what is left from earlier records is nobody's business
        for (auto & b : block) {
            b = nullptr;
        }
        used = 0;
    }
}
} // namespace alloc
void * operator new(std::size_t n)
{
    if (void * p = alloc::get(n, 0)) {
        return p;
    }
    throw std::bad_alloc();
}
void * operator new[](std::size_t n) { return operator new(n); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return alloc::get(n, 0); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return alloc::get(n, 0); }
void * operator new(std::size_t n, std::align_val_t a)
{
    if (void * p = alloc::get(n, std::size_t(a))) {
        return p;
    }
    throw std::bad_alloc();
}
void * operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void * p) noexcept { alloc::put(p); }
void operator delete[](void * p) noexcept { alloc::put(p); }
void operator delete(void * p, std::size_t) noexcept { alloc::put(p); }
void operator delete[](void * p, std::size_t) noexcept { alloc::put(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { alloc::put(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { alloc::put(p); }
void operator delete(void * p, std::align_val_t) noexcept { alloc::put(p); }
void operator delete[](void * p, std::align_val_t) noexcept { alloc::put(p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { alloc::put(p); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { alloc::put(p); }
#endif
#endif
