// C10: the same programs without the driver, for MemorySanitizer, valgrind and gcc's sanitizers.
//   p_mem SEED FROM COUNT MAXLEN
#define VF_DEFINE_BASES
#define main vf_driver_main_unused
#include "prog.h"
#undef main
void vf::setup() {}
static volatile u64 current;
static void dying(int sig) {
    char b[64]; int n = snprintf(b, sizeof b, "\nCASE %llu\n", (unsigned long long)current);
    if (write(2, b, (size_t)n)) {}
    signal(sig, SIG_DFL); raise(sig);
}
int main(int argc, char** argv) {
    const u64 seed = strtoull(argv[1], 0, 10), from = strtoull(argv[2], 0, 10), count = strtoull(argv[3], 0, 10); const size_t maxlen = strtoull(argv[4], 0, 10);
    if (argc > 5) { signal(SIGABRT, dying); signal(SIGSEGV, dying); signal(SIGFPE, dying); signal(SIGILL, dying); }
#ifndef VF_NO_STREAM
    struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    NullBuf* nb = new NullBuf; std::cerr.rdbuf(nb); std::cout.rdbuf(nb);
#endif
    MemStats st; u64 all = 0;
    for (u64 i = from; i < from + count; ++i) {
        current = i; Src s(vf::mix64(seed * 1000003 + i)); int t = (int)(s.range(0, VF_NTYPES - 1)); u64 r = 0;
        VF_DISPATCH(t, { Mem<BN> m(s, st, maxlen); r = m.run(); });
        all = vf::mix64(all ^ r);
    }
    printf("CASES %llu DIGEST %llu\n", (unsigned long long)count, (unsigned long long)all);
    for (int i = 0; i < 21; ++i) if (st.ops[i]) printf("OP\t%s\t%llu\n", MEM_OPS[i], (unsigned long long)st.ops[i]);
    return 0;
}
