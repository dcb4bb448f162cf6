// Replaces the global allocation functions: an armed countdown makes the k-th allocation made by the library fail, and
// blocks allocated by the library are followed until they are freed (deterministic leak check per case).
#include "vf.hpp"
#include <malloc.h>
#include <new>
#ifdef VF_ASAN
#include <sanitizer/asan_interface.h>
#endif
namespace
{
    // In every second case blocks are reused at once, the last one freed first, as ordinary allocators do: ASan's own allocator
    // keeps freed blocks for so long that nothing ever comes back to the address of something that died.
    struct freed_blocks
    {
        enum { MAX = 512, DEEP = 6 };
        void* p[MAX + 1][DEEP]; unsigned char n[MAX + 1];
    } freed_; // zero
    bool reusing() { return !vf::st().harness && ((uint64_t(vf::st().current_case) * 0x9E3779B97F4A7C15ull) >> 40 & 1) != 0; }
    void* reuse(std::size_t n)
    {
        if (n > freed_blocks::MAX || !freed_.n[n] || !reusing()) return nullptr;
        void* p = freed_.p[n][--freed_.n[n]];
#ifdef VF_ASAN
        __asan_unpoison_memory_region(p, n);
#endif
        ++vf::addresses_reused();
        return p;
    }
    bool keep(void* p)
    {
#ifdef VF_ASAN
        if (__asan_address_is_poisoned(p)) return false; // freed before: let ASan report it, or see below
        if (!reusing()) return false;
        std::size_t n = malloc_usable_size(p);
        if (n == 0 || n > freed_blocks::MAX || freed_.n[n] == freed_blocks::DEEP) return false;
        __asan_poison_memory_region(p, n);
        freed_.p[n][freed_.n[n]++] = p;
        return true;
#else
        return false;
#endif
    }
    bool kept(void* p) { for (auto& c : freed_.n) for (int i = 0; i < c; ++i) if (freed_.p[&c - freed_.n][i] == p) return true; return false; }

    // open addressing set of block addresses; memory from malloc so that it does not observe itself
    struct block_set
    {
        void** t = nullptr; size_t cap = 0, used = 0, live = 0;
        static void* tomb() { return reinterpret_cast<void*>(1); }
        size_t h(void* p) const { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 20; }
        void grow()
        {
            void** o = t; size_t oc = cap;
            cap = live * 4 < 1024 ? 1024 : live * 4; size_t c = 1; while (c < cap) c <<= 1; cap = c;
            t = static_cast<void**>(std::calloc(cap, sizeof(void*))); used = live = 0;
            for (size_t i = 0; i < oc; ++i) if (o[i] && o[i] != tomb()) add(o[i]);
            std::free(o);
        }
        void add(void* p)
        {
            if ((used + 1) * 2 > cap) grow();
            size_t i = h(p) & (cap - 1);
            while (t[i]) i = (i + 1) & (cap - 1);
            t[i] = p; ++used; ++live;
        }
        void remove(void* p)
        {
            if (!live) return;
            size_t i = h(p) & (cap - 1);
            while (t[i]) { if (t[i] == p) { t[i] = tomb(); --live; return; } i = (i + 1) & (cap - 1); }
        }
        void clear() { std::free(t); t = nullptr; cap = used = live = 0; }
    } blocks;
    bool tracking = false;
    size_t base = 0;

    void* alloc(std::size_t n, std::size_t align)
    {
        auto& f = vf::faults();
        bool lib = !vf::st().harness;
        if (lib && f.countdown >= 0)
        {
            if (f.countdown-- == 0) { f.fired = true; ++f.injected; throw std::bad_alloc(); }
        }
        void* p = align ? nullptr : reuse(n ? n : 1);
        if (!p) p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        if (lib && tracking) blocks.add(p);
        return p;
    }
    void release(void* p) noexcept
    {
        if (!p) return;
        if (blocks.live) blocks.remove(p);
#ifdef VF_ASAN
        if (__asan_address_is_poisoned(p) && kept(p)) vf::fail("double free of %p", p);
#endif
        if (!keep(p)) std::free(p);
    }
}
namespace vf
{
    // Blocks kept from an earlier case may be exchanged for others: what counts is how many more there are.
    void track_blocks(bool on)
    {
        if (!blocks.live) blocks.clear();
        else if (on && blocks.cap > 65536) blocks.grow();
        base = blocks.live; tracking = on;
    }
    size_t live_blocks() { return blocks.live > base ? blocks.live - base : 0; }
}
void* operator new(std::size_t n) { return alloc(n, 0); }
void* operator new[](std::size_t n) { return alloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return alloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { release(p); }
