// Work meter: control-flow edges executed (clang -fsanitize-coverage=trace-pc) plus bytes moved in bulk (linker wraps), in the current thread.
// Include in exactly one translation unit, built by clang with -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=bcmp
#pragma once
#include "alloc.h"
#include <cstddef>
namespace vc {
struct Meter { volatile bool on; unsigned long long edges, bytes, calls, limit; };
static Meter m;
struct OverBudget {};
#define VC_RAW __attribute__((no_sanitize("coverage"))) __attribute__((noinline))
struct Cost { unsigned long long edges, bytes; long allocs, peak, kept; };
// work in digit-access units: a step of control flow, or four bytes moved in bulk
inline unsigned long long work(const Cost& c) { return c.edges + c.bytes / 4; }
}
extern "C" {
VC_RAW void __sanitizer_cov_trace_pc() { if (vc::m.on) ++vc::m.edges; }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); int __real_bcmp(const void*, const void*, size_t);
VC_RAW void* __wrap_memcpy(void* d, const void* s, size_t n) { if (vc::m.on) vc::m.bytes += n; return __real_memcpy(d, s, n); }
VC_RAW void* __wrap_memmove(void* d, const void* s, size_t n) { if (vc::m.on) vc::m.bytes += n; return __real_memmove(d, s, n); }
VC_RAW void* __wrap_memset(void* d, int c, size_t n) { if (vc::m.on) vc::m.bytes += n; return __real_memset(d, c, n); }
VC_RAW int __wrap_memcmp(const void* a, const void* b, size_t n) { if (vc::m.on) vc::m.bytes += n; return __real_memcmp(a, b, n); }
VC_RAW int __wrap_bcmp(const void* a, const void* b, size_t n) { if (vc::m.on) vc::m.bytes += n; return __real_bcmp(a, b, n); }
}
namespace vc {
inline void escape(const void* p) { asm volatile("" : : "g"(p) : "memory"); }
// Runs f and meters it. "kept" is the change in live bytes.
template <class F> Cost meter(F f) {
    Cost c; const long b0 = va::live_bytes; const long n0 = va::count; va::peak_bytes = b0;
    m.edges = m.bytes = 0;
    { va::Scope sc; m.on = true; asm volatile("" ::: "memory"); f(); asm volatile("" ::: "memory"); m.on = false; }
    c.edges = m.edges; c.bytes = m.bytes; c.allocs = va::count - n0; c.peak = va::peak_bytes - b0; c.kept = va::live_bytes - b0;
    return c;
}
}
