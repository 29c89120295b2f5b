"""What each property's check builds and runs."""

SAN = ['-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
VARIANTS = {
    # the configuration the project itself builds (RelWithDebInfo)
    'fast': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O2', '-g1', '-DNDEBUG'], 'as_gb': 4},
    'gsan': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O1', '-g1', '-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR'], 'stack_mb': 64},
    'msan': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O1', '-g1', '-DVF_FEWER', '-DVF_NO_STREAM', '-fsanitize=memory', '-fno-sanitize-recover=all'], 'stack_mb': 64},
    'vg': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O1', '-g', '-DVF_FEWER']},
    'tsan': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O1', '-g1', '-DVF_FEWER', '-fsanitize=thread'], 'stack_mb': 64},
    # every executed edge and every bulk byte move is counted
    'cov': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O1', '-g1', '-DNDEBUG', '-fsanitize-coverage=bb,trace-pc'], 'as_gb': 4,
            'link': ['-static-libstdc++', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=bcmp']},
    # C21: the builds that must agree
    'gcc-O0': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O0', '-DVF_FEWER']},
    'gcc-O0-debug': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O0', '-g0', '-DVF_FEWER', '-DBN_DEBUG']},
    'gcc-O2': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O2', '-DVF_FEWER', '-DNDEBUG']},
    'gcc-O2-debug': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O2', '-DVF_FEWER', '-DBN_DEBUG']},
    'gcc-O3': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O3', '-DVF_FEWER', '-DNDEBUG']},
    'clang-O0-debug': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O0', '-DVF_FEWER', '-DBN_DEBUG']},
    'clang-O2': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O2', '-DVF_FEWER', '-DNDEBUG']},
    'clang-O3-debug': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O3', '-DVF_FEWER', '-DBN_DEBUG']},
    'gcc-Os-c++20': {'cxx': 'g++', 'flags': ['-std=c++20', '-Os', '-DVF_FEWER', '-DNDEBUG']},
    'clang-O1-c++17-debug': {'cxx': 'clang++', 'flags': ['-std=c++17', '-O1', '-DVF_FEWER', '-DBN_DEBUG', '-DNDEBUG']},
    # a program compiled with one compiler on a library compiled with the other
    'clang-O0-on-gcc-O2': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O0', '-DVF_FEWER', '-DNDEBUG'], 'lib': 'gcc-O2'},
    'gcc-O3-fma': {'cxx': 'g++', 'flags': ['-std=gnu++11', '-O3', '-mavx2', '-mfma', '-DVF_FEWER', '-DNDEBUG'], 'cpu': 'fma'},
    # one binary: sanitized driver, and (with --fuzz) coverage-guided fuzzer
    'san': {'cxx': 'clang++', 'flags': ['-std=gnu++11', '-O1', '-g1', '-DVF_FUZZ', '-DVF_FEWER', '-DVF_NO_HUGE', '-fsanitize=fuzzer-no-link'] + SAN, 'stack_mb': 64, 'link': ['@fuzzer']},
}


def std_jobs(src, defs=(), fast=1.0, tfast=1.0, asan=0.08, tasan=0.3, runs=30000, truns=600000, salt=0, extra=(), plain=None):
    d = list(defs)
    return [
        {'name': 'fast', 'kind': 'driver', 'variant': 'fast', 'src': src, 'defs': d, 'scale': fast, 'tscale': tfast, 'plain_defs': plain},
        {'name': 'san', 'kind': 'driver', 'variant': 'san', 'src': src, 'defs': d, 'scale': asan, 'tscale': tasan, 'seed_salt': 11, 'same_cases': True, 'hang': 40, 'plain_defs': plain},
        {'name': 'fuzz', 'kind': 'fuzz', 'variant': 'san', 'src': src, 'defs': d, 'runs': runs, 'truns': truns, 'procs': 2, 'exe_of': 'san'},
    ] + list(extra)


ARITH_RULE = ('cases: pairs of numbers from structured generators (related operands: equal, off by one, one digit apart, complements, multiples, '
              'very unequal lengths; digit patterns: random, all base-1, sparse, runs, special values; lengths around powers of two and source literals; '
              'stored leading zeros), a systematic grid of small operands in all sign combinations, and very long operands; '
              'non-trivial: both operands non-zero and more than two digits in total, distinct by hash of the operands')
CHECKS = {}
for i, op in enumerate(('C01', 'C02', 'C03', 'C04'), 1):
    CHECKS[op] = {'level': 'exploration', 'rule': ARITH_RULE,
                  'technique': 'runtime monitoring against an exact reference, ASan/UBSan, coverage-guided fuzzing',
                  'note': 'Every executed operation is judged by an independent exact reference (schoolbook in the same base; residues modulo two seed-chosen 61-bit primes plus length for very long products; q*b <= a < (q+1)*b for quotients) and a sample again offline by Python integers. Assumes the reference and the compilers are right; covers the generated operands only.',
                  'jobs': std_jobs('c_arith.cpp', ['-DVF_OP=%d' % i], fast=(8, 8, 4, 4)[i - 1])}
CHECKS['C05'] = {'level': 'exploration', 'technique': 'runtime monitoring against an extended-integer model, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: every ordered pair of 22 operand shapes (NaN, both infinities reached from different states, zeros of both signs, finite numbers short and long) times four operations, in place, binary and on one object, for 11 digit types; random chains over pools holding such values; non-trivial: a non-finite operand or result, distinct by shapes, operation and type (pairs) or by program (chains)',
    'note': 'Every result is judged by an independent extended-integer model; exhaustive over the listed operand shapes and operations, sampled over finite digit contents and chains. 0/0 may be any non-finite value.',
    'exhaustive': 'shape x shape x operation x form x type',
    'jobs': std_jobs('c_special.cpp', fast=2, asan=0.1)}
CHECKS['C06'] = {'level': 'exploration', 'technique': 'runtime monitoring against the mathematical order, offline event replay, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: related operand pairs (equal, off by one, one digit apart, prefixes, leading zeros, both zero signs), a chosen position of first difference whose lower digits say the opposite, all pairs of 20 special values, sorted sets; six comparisons each way and on one object; non-trivial: more than two digits, distinct by hash',
    'note': 'All six operators judged together against an independent comparison, a sample again by Python integers. Equality of two NaNs is left unspecified.',
    'jobs': std_jobs('c_cmp.cpp', fast=2, asan=0.05)}
CHECKS['C07'] = {'level': 'exploration', 'technique': 'runtime monitoring of a structural invariant and metamorphic laws, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: related normal-form operand pairs (and zeros of both signs), four operations in every form, ring laws computed by different routes and compared digit for digit, chains of operations; non-trivial: more than two digits, distinct by hash',
    'note': 'The invariant is checked on every result; laws compare object states, not values. Covers generated operands.',
    'jobs': std_jobs('c_norm.cpp', fast=1, asan=0.05)}
CHECKS['C08'] = {'level': 'exploration', 'technique': 'runtime monitoring against an executable model, offline replay of recorded histories, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: random programs (construct, copy, move, swap, self-assign, compound, binary, nested expressions, comparisons, digit edits, descriptor changes, relocation) over pools of 2 to 5 numbers, up to 600 steps, and seven classic algorithms (Fibonacci, factorial, powers, gcd, square root, signed sums, counters); non-trivial: every program, distinct by the hash of its choices',
    'note': 'After every step the changed number is judged against an exact model and all other numbers must be untouched; a sample of whole histories is replayed by an independent Python model. Samples programs; depth and pool size bounded.',
    'jobs': std_jobs('c_hist.cpp', fast=5, tfast=8, asan=0.15)}
CHECKS['C09'] = {'level': 'exploration', 'technique': 'runtime monitoring with state snapshots and an allocation counter, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: random operand pairs (also equal, non-finite, with leading zeros) put through every operator in every form and aliasing pattern, observers, copies mutated in sixteen ways, moves under an allocation counter, swaps, container growth; non-trivial: more than two digits, distinct by operand hash',
    'note': 'Snapshots of every operand and bystander are compared around each call; moves are judged by an allocation counter in operator new. Covers generated operands.',
    'jobs': std_jobs('c_value.cpp', fast=2.5, tfast=6, asan=0.1)}
CHECKS['C10'] = {'level': 'exploration', 'technique': 'sanitizers (clang and gcc ASan/UBSan, MSan, valgrind memcheck), coverage-guided fuzzing, allocation balance',
    'rule': 'cases: random programs of 2 to 40 calls over all public functions, primitives, Fourier functions and the digit wrapper, operands from empty to thousands of digits; non-trivial: every program, distinct by digest of all states it reached',
    'note': 'A report of any sanitizer, of valgrind, a crash, or a non-zero allocation balance is a violation. MSan runs without streams (libstdc++ is not instrumented). Tools see executed paths only.',
    'jobs': std_jobs('c_mem.cpp', fast=5, tfast=20, asan=0.15, tasan=2, runs=40000) + [
        {'name': 'gcc-asan-ubsan', 'kind': 'program', 'runner': 'plain', 'variant': 'gsan', 'src': 'p_mem.cpp', 'count': 24000, 'tcount': 800000, 'procs': 4, 'maxlen': [6, 40, 40, 400], 'post': ['1'], 'seed_salt': 1},
        {'name': 'msan', 'kind': 'program', 'runner': 'plain', 'variant': 'msan', 'src': 'p_mem.cpp', 'count': 24000, 'tcount': 800000, 'procs': 4, 'maxlen': [6, 40, 40, 400], 'post': ['1'], 'seed_salt': 2},
        {'name': 'valgrind', 'kind': 'program', 'runner': 'plain', 'variant': 'vg', 'src': 'p_mem.cpp', 'count': 1600, 'tcount': 40000, 'procs': 4, 'maxlen': [6, 30, 30, 100],
         'pre': ['valgrind', '-q', '--error-exitcode=9', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--exit-on-first-error=yes'], 'seed_salt': 3, 'evidence_of_error': '=='},
    ]}
CHECKS['C11'] = {'level': 'fault_enumeration', 'technique': 'allocation-fault injection with state snapshots and a leak counter, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: an operation (arithmetic in place and binary, copy, move, assignment, digit edits, printing, primitives) on generated operands, run once to count its allocations, then again with every single allocation (or, for long ones, a sample) failing, once or persistently; non-trivial: an injected failure that was reached, distinct by operation, operands and failing allocation',
    'note': 'Every allocation of each executed operation is failed in turn (sampled beyond a cap); the exception identity, allocation balance, operand states and later usability are observed. Operations and operands are sampled.',
    'exhaustive': 'allocation index of each executed operation, up to the per-workload cap (counter: operations with every point enumerated)',
    'jobs': std_jobs('c_alloc.cpp', fast=3, tfast=4, asan=0.15)}
CHECKS['C12'] = {'level': 'exploration', 'technique': 'ThreadSanitizer and comparison with a sequential run under schedule perturbation',
    'rule': 'cases: rounds in which 2 to 8 threads run seeded programs that read shared numbers (12 kinds of operation) and modify private ones, starting together, with random yields and sleeps inside every allocation; non-trivial: every round, distinct by seed',
    'note': 'TSan reports a race whenever conflicting unsynchronised accesses execute, in any order; results of each thread must equal those of the same work alone. Schedules are sampled; overlap of operation pairs on one shared number is measured.',
    'jobs': [
        {'name': 'tsan', 'kind': 'program', 'runner': 'plain', 'variant': 'tsan', 'src': 'p_thread.cpp', 'count': 1600, 'tcount': 40000, 'procs': 4, 'maxlen': [8, 4, 8, 2], 'seed_salt': 4, 'key': 'thread|race', 'timeout': 400},
        {'name': 'native', 'kind': 'program', 'runner': 'plain', 'variant': 'fast', 'src': 'p_thread.cpp', 'count': 8000, 'tcount': 400000, 'procs': 4, 'maxlen': [8, 4, 8, 3], 'seed_salt': 5, 'key': 'thread|result', 'timeout': 400},
    ]}
CHECKS['C13'] = {'level': 'exploration', 'technique': 'runtime monitoring against a list model, offline replay of recorded edits, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: digit lists of 27 lengths from 0 to 257 in five construction forms, with and without leading zeros; random editing programs of up to 150 steps at valid positions (front, back, middle, both ends); non-trivial: lists of more than one digit and every program, distinct by content',
    'note': 'After every step the digits, the sign and all queries are compared with a list model; a sample of edit logs is replayed in Python. Index 0 is the least significant digit (front), as the code and its other comments have it. Constructing an infinity or NaN together with digits is left unspecified.',
    'jobs': std_jobs('c_edit.cpp', fast=8, tfast=10, asan=0.4)}
CHECKS['C14'] = {'level': 'exploration', 'technique': 'runtime monitoring with output capture, ASan/UBSan with container assertions, coverage-guided fuzzing',
    'rule': 'cases: valid and hostile positions (size, beyond size, within capacity, powers of two, wrap-around) for reading through const and non-const numbers and for writing; assertions of three levels holding and failing with hostile messages, directly and through the macros; non-trivial: every case, distinct by positions or message',
    'note': 'What was thrown, what was written to the two output descriptors, the state afterwards and further use are observed for each call.',
    'jobs': std_jobs('c_assert.cpp', fast=5, tfast=10, asan=0.3)}
CHECKS['C15'] = {'level': 'exploration', 'technique': 'runtime monitoring of stream output against expected text, offline re-check, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: numbers of all digit types, signs and lengths (empty, zeros, single digits of every value, thousands of digits), non-finite values, results of arithmetic; plain, successive, unbuffered and with foreign formatting flags; non-trivial: more than one digit or non-finite, distinct by number and form',
    'note': 'Text is compared exactly under default formatting; under hex, octal, showpos or a field width only the untouched formatting state is judged. The sign of a negative zero is left unspecified.',
    'jobs': std_jobs('c_text.cpp', fast=12, tfast=15, asan=0.6)}
CHECKS['C16'] = {'level': 'exploration', 'technique': 'runtime monitoring against 128-bit modular arithmetic, UBSan/ASan, coverage-guided fuzzing',
    'rule': 'cases: every pair of 8-bit values for two wrappers, every 16-bit value for the unary operators, structured pairs (extremes, powers of two, equal, shift amounts) for ten wrappers of 8 to 64 bits; each pair goes through 10 arithmetic and 6 comparison operators in wrapper/integer mixed, compound, chained and aliased forms; non-trivial: distinct operand pairs',
    'note': 'Value, operand preservation and returned reference judged on each use; UBSan watches the promoted arithmetic. Mixed forms use the wrapped integer type itself, the only one the overloads accept without ambiguity. Division by zero and shifts by the width or more are outside the statement.',
    'exhaustive': '8-bit operand pairs, all operators and forms; 16-bit operands, unary operators',
    'jobs': std_jobs('c_wrap.cpp', fast=5, tfast=6, asan=0.2)}
CHECKS['C17'] = {'level': 'exploration', 'technique': 'differential runtime monitoring across digit types with an exact reference, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: programs over 2 to 4 numbers run step by step in 4 or in all 17 digit types (7 supplied, 10 user-defined bases from 3 to 2^32), radix conversions by repeated division and Horner rebuilding in the same and another type, byte strings encoded and compared digit for digit or extracted bit by bit; non-trivial: every case, distinct by content',
    'note': 'All values are translated to bytes by independent code and compared across types and with the exact value. Division-heavy cases are limited to small quotients because of its cost.',
    'jobs': std_jobs('c_base.cpp', fast=8, tfast=10, asan=0.5)}
CHECKS['C18'] = {'level': 'exploration', 'technique': 'runtime monitoring against a long-double discrete transform, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: ten kinds of signal (random, impulses, constants, alternating, single frequencies, sparse, mixed magnitudes, digits) in float and double for every power-of-two length up to 4096 and sampled up to 131072; digit tables of all containers; non-trivial: length above one, distinct by signal',
    'note': 'Up to length 256 every output is compared with a direct long-double transform or convolution, beyond that sampled positions plus energy and round-trip over all positions; tolerance 16 eps (log2 n + 1) times (signal norm + output magnitude), about seven times the largest error seen on the unchanged code.',
    'exhaustive': 'power-of-two lengths 0 to 4096, ten signals each (sampled contents)',
    'jobs': std_jobs('c_fft.cpp', fast=6, tfast=8, asan=0.2)}
CHECKS['C19'] = {'level': 'exploration', 'technique': 'runtime monitoring against an exact reference on bare digit sequences of several containers, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: pairs of digit sequences (related operands, patterns, leading zeros, empty) in std::vector, a derived vector type and a vector with its own allocator; comparisons, addition, subtraction of a not-larger value, both multiplications, division by a non-zero divisor; non-trivial: more than two digits in total, distinct by digits and container',
    'note': 'Each result is compared with an independent exact reference and the read-only inputs with snapshots; the same operands go through every container. Division is called with distinct objects.',
    'jobs': std_jobs('c_prim.cpp', fast=8, tfast=10, asan=0.3, plain=['-DVF_STD_ONLY'])}
CHECKS['C20'] = {'level': 'exploration', 'technique': 'runtime monitoring with a work meter (counted control-flow edges and bulk moves), an allocation meter and a CPU-time watchdog',
    'rule': 'cases: growth curves (lengths 1 to 4096 by doubling, 6 length shapes, 7 digit patterns) and random related pairs up to 1500 digits, with leading zeros, non-finite and zero operands; every operator in place, binary and on one object, comparisons, copies, moves, printing, editing and the magnitude primitives; non-trivial: more than four digits, distinct by operand hash',
    'note': 'Work is the number of basic blocks executed inside the operation plus bulk-moved bytes over four; each operation is judged against an explicit polynomial of the stored lengths whose constants are 6 to 25 times what the unchanged code needs, so that only a change of order, or a loss of termination, is reported. Lengths are bounded by a few thousand digits; divisions by about three million digit steps.',
    'exhaustive': 'curve points: 13 lengths x 6 shapes x 7 patterns x digit types',
    'jobs': [{'name': 'meter', 'kind': 'driver', 'variant': 'cov', 'src': 'c_work.cpp', 'defs': [], 'scale': 6, 'tscale': 6, 'hang': 15, 'timeout': 700}]}
CHECKS['C21'] = {'level': 'exploration', 'technique': 'differential runtime monitoring of event digests across twelve builds, with exception and state monitors in the debug builds',
    'rule': 'cases: programs over all public functions, calculations whose every state and printed text is digested, long products, and misuse of the subtraction primitive, each run under twelve builds (gcc and clang, -O0 to -O3 and -Os, with and without BN_DEBUG and NDEBUG, C++11, 17 and 20, fused multiply-add, a clang program on a gcc library); non-trivial: distinct program digests',
    'note': 'The digests of every program are compared across all builds; exceptions out of valid programs are violations in any build. Digest collisions (64 bit) are neglected. Other compilers are not covered; floating outputs of the Fourier functions enter only as being finite.',
    'exhaustive': 'compiler x optimisation x debug checks: the twelve builds listed',
    'jobs': [{'name': 'builds', 'kind': 'builds', 'src': 'p_build.cpp', 'count': 30000, 'tcount': 1500000, 'seed_salt': 6, 'variant': 'gcc-O2',
              'variants': ['gcc-O2', 'gcc-O0', 'gcc-O0-debug', 'gcc-O2-debug', 'gcc-O3', 'clang-O0-debug', 'clang-O2', 'clang-O3-debug', 'gcc-Os-c++20', 'clang-O1-c++17-debug', 'clang-O0-on-gcc-O2', 'gcc-O3-fma']}]}
CHECKS['C22'] = {'level': 'exploration', 'technique': 'differential runtime monitoring across instrumented digit containers, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: programs of 2 to 40 steps over 2 to 4 numbers (arithmetic in all forms, copies, moves, swaps, editing, indexing, comparisons, printing, primitives, tables), run on std::vector and then step by step on a vector with a guarding allocator, a vector that checks every access, and an unrelated container with inline storage; non-trivial: every program, distinct by digest',
    'note': 'After every step the state of all numbers and everything observed must equal the run on std::vector; the containers themselves report accesses outside the digits, writes around blocks, wrong sizes on return and leaks. std::vector itself is judged by the other properties. std::deque cannot be instantiated (no reserve).',
    'jobs': std_jobs('c_cont.cpp', fast=3, tfast=6, asan=0.1, runs=20000, plain=['-DVF_STD_ONLY'])}
CHECKS['C23'] = {'level': 'exploration', 'technique': 'differential runtime monitoring across process surroundings with state monitors around every step, ASan/UBSan, coverage-guided fuzzing',
    'rule': 'cases: programs of 1 to 16 steps (18 kinds, all public operations) run in the usual surroundings and again in two or three combinations of fifteen others (rounding modes, flushed denormals, locales, errno, dirty heap and stack, stream flags and exception masks, exception handler, unwinding, thread, after other work, random seed, handlers), 132 programs in a static constructor and destructor, and products up to 66000 digits in every rounding mode; non-trivial: every program, distinct by the digest of its results',
    'note': 'Each step is compared with the same step in the usual surroundings, and everything observable of the surroundings before and after it. Output to the standard descriptors is captured in the optimised build only. The list of surroundings is explicit; environment variables, other locales than those installed, and floating-point traps are not covered.',
    'jobs': std_jobs('c_env.cpp', fast=2.5, tfast=5, asan=0.2, tasan=1, runs=20000)}
