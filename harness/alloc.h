// Replacement of the global allocation functions: counting, live balance, peak, fault injection. One TU only.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <new>
#include <atomic>
#include <malloc.h>

namespace va {
struct Failure : std::bad_alloc { int id; explicit Failure(int i) : id(i) {} const char* what() const noexcept override { return "injected allocation failure"; } };
extern thread_local bool track;              // this thread's allocations count
extern std::atomic<long> live, live_bytes;   // balance of tracked allocations (released anywhere)
extern thread_local long count;              // allocations made while tracking
extern thread_local long long fail_at;       // -1: never; k: the k-th tracked allocation from now fails
extern thread_local bool fail_persistent;    // every later one fails too
extern thread_local long failed;             // failures injected
extern thread_local int fail_id;
extern std::atomic<long> peak_bytes;
struct Scope { bool old; Scope() : old(track) { track = true; } ~Scope() { track = old; } };
}
#ifdef VF_ALLOC_IMPL
namespace va {
thread_local bool track = false; std::atomic<long> live(0), live_bytes(0), peak_bytes(0); thread_local long count = 0;
thread_local long long fail_at = -1; thread_local bool fail_persistent = false; thread_local long failed = 0; thread_local int fail_id = 0;
// Tracked blocks carry a header so that a release is attributed to the block, not to the moment.
struct Head { size_t size; unsigned long magic; };
static const unsigned long TRACKED = 0x5452414b434b4544ul, PLAIN = 0x504c41494e504c41ul, DEAD = 0xdeaddeaddeaddeadul;
static void* get(size_t n) {
    if (track) {
        if (fail_at >= 0) {
            if (fail_at == 0) { ++failed; if (!fail_persistent) fail_at = -1; throw Failure(fail_id); }
            --fail_at;
        }
        ++count;
    }
    Head* h = (Head*)malloc(sizeof(Head) + n);
    if (!h) throw std::bad_alloc();
    h->size = n; h->magic = track ? TRACKED : PLAIN;
    if (track) { ++live; long b = (live_bytes += (long)n); if (b > peak_bytes) peak_bytes = b; }
    return h + 1;
}
static void put(void* p) {
    if (!p) return;
    Head* h = (Head*)p - 1;
    if (h->magic == TRACKED) { --live; live_bytes -= (long)h->size; }
    else if (h->magic != PLAIN) abort();       // foreign pointer or double release
    h->magic = DEAD;
    free(h);
}
}
void* operator new(size_t n) { return va::get(n); }
void* operator new[](size_t n) { return va::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return va::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return va::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { va::put(p); }
void operator delete[](void* p) noexcept { va::put(p); }
void operator delete(void* p, size_t) noexcept { va::put(p); }
void operator delete[](void* p, size_t) noexcept { va::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { va::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { va::put(p); }
#endif
