"""What each check runs: harness, builds and number of cases (quick, thorough)."""

_REL = "-O3 -DNDEBUG -fPIC"
_SSE = " -DQUADIRON_USE_SIMD -msse4.1"
_AVX = " -DQUADIRON_USE_SIMD -mavx2"
_ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address"
_TSAN = "-O1 -g -fsanitize=thread"
_PIC = ("-O3 -DNDEBUG -fPIC -fvisibility=hidden -fvisibility-inlines-hidden "
        "-fno-gnu-unique")

VARIANTS = {
    "off": dict(cxx="g++-9", flags=_REL),
    "sse": dict(cxx="g++-9", flags=_REL + _SSE, needs="sse4_1"),
    "avx": dict(cxx="g++-9", flags=_REL + _AVX, needs="avx2"),
    # with assertions and AddressSanitizer
    "asan-off": dict(cxx="g++-9", flags=_ASAN),
    "asan-sse": dict(cxx="g++-9", flags=_ASAN + _SSE, needs="sse4_1"),
    "asan-avx": dict(cxx="g++-9", flags=_ASAN + _AVX, needs="avx2"),
    "tsan": dict(cxx="g++-9", flags=_TSAN + _AVX, needs="avx2"),
    "pic-off": dict(cxx="g++-9", flags=_PIC),
    "pic-sse": dict(cxx="g++-9", flags=_PIC + _SSE, needs="sse4_1"),
    "pic-avx": dict(cxx="g++-9", flags=_PIC + _AVX, needs="avx2"),
    "builds": dict(cxx="g++-9", flags="-O2", shim=["off", "sse", "avx"], needs="avx2"),
    "fuzz": dict(cxx="clang++-18", flags="-O1 -g -include utility -DPBT_FUZZ "
                 "-fsanitize=fuzzer,address" + _SSE, needs="sse4_1"),
}

CHECKS = {}


def check(id, src, cases, rule, **kw):
    CHECKS[id] = dict(src=src, cases=cases, rule=rule, **kw)


check("C01", "c01.cpp",
      {"off": [6000, 60000], "sse": [6000, 60000], "avx": [6000, 60000], "asan-avx": [600, 6000]},
      "random code shape, block length (biased to packet boundaries), content and "
      "loss pattern; non-trivial: non-empty block, at least one fragment lost, and "
      "either a data fragment is lost or the code is non-systematic")
check("C02", "c02.cpp",
      {"off": [2500, 40000], "sse": [2500, 40000], "avx": [2500, 40000], "asan-sse": [300, 4000]},
      "random code and block, then 1-5 steps that each lose some fragments (at "
      "least n_data stay) and rebuild some of the lost ones in random order; "
      "non-trivial: non-empty block and at least one fragment rebuilt and compared")
check("C03", "c03.cpp",
      {"asan-off": [1500, 30000], "asan-avx": [1500, 30000], "off": [3000, 60000]},
      "one of: fewer than n_data fragments, damaged header of a fragment that is "
      "needed, block size that is not a multiple of the word, unsupported "
      "parameters, destination that does not exist, more or fewer marks than a "
      "header holds; non-trivial: the call that must be refused was made")
check("C04", "c04.cpp",
      {"off": [3000, 40000], "sse": [3000, 40000], "avx": [3000, 40000], "asan-off": [400, 6000]},
      "random code, block, wanted set, lost set and rebuilt fragment, absent or "
      "guarded buffers; non-trivial: non-empty block with a fragment not wanted")
FECX = ["fecx_a.cpp", "fecx_b.cpp", "fecx_c.cpp", "fecx_d.cpp"]
_KOFN = ("random codec, symbol type, shape, packet size, length (around packet "
         "multiples), content and survivors; non-trivial: non-empty fragments were "
         "decoded and compared with the original data")
check("C05", "c05.cpp",
      {"off": [3000, 60000], "sse": [3000, 60000], "avx": [3000, 60000], "asan-avx": [400, 6000]},
      _KOFN, extra=["fecx_a.cpp"])
check("C06", "c06.cpp",
      {"off": [2500, 60000], "sse": [1800, 40000], "avx": [1800, 40000], "asan-off": [300, 6000]},
      _KOFN, extra=["fecx_a.cpp", "fecx_b.cpp", "fecx_d.cpp"], case_cpu=200)
check("C07", "c07.cpp",
      {"off": [4500, 80000], "avx": [1500, 20000], "asan-off": [400, 6000]},
      _KOFN, extra=["fecx_c.cpp"])
check("C08", "c08.cpp", {"builds": [7500, 150000]},
      "random codec and case (as C05/C06), or C interface case, run on the scalar, SSE "
      "and AVX builds loaded side by side; non-trivial: a non-empty fragment of each "
      "build was compared",
      shim_src=["shim.cpp", "fecx_a.cpp", "fecx_b.cpp"])
check("C10", "c10.cpp",
      {"off": [4000, 60000], "sse": [2500, 30000], "avx": [2500, 40000]},
      "random codec, shape, length, content and interface, fragments and marks compared "
      "with the reference generator matrix; non-trivial: non-empty fragments of "
      "non-zero data were compared", extra=FECX)
check("C09", "c09.cpp",
      {"off": [2300, 50000], "sse": [2000, 50000], "avx": [2300, 50000]},
      "random codec and content encoded through two interfaces, packet sizes or symbol "
      "types, in one piece and in two, and decoded across; non-trivial: non-empty "
      "fragments were compared", extra=FECX)
check("C21", "c21.cpp",
      {"off": [3000, 50000], "sse": [3000, 50000], "avx": [3000, 50000]},
      "contents solved for so that chosen fragments have out-of-range symbols at chosen "
      "positions (boundaries, runs, everywhere, chosen lanes); non-trivial: at least one "
      "such symbol, on a fragment that is used by a decode that is compared",
      extra=["fecx_a.cpp", "fecx_b.cpp"])
check("C11", "c11.cpp",
      {"off": [100000, 2000000], "asan-off": [30000, 400000]},
      "random sequences of add/clear/sort/query/serialize/print against a plain list, "
      "generated text and header bytes, and decodes with marks in any order; non-trivial: a "
      "non-empty set of marks was converted and compared, or a generated text/header was "
      "judged, or a fragment with several marks was decoded", extra=["fecx_a.cpp"])
check("C20", "c20.cpp",
      {"off": [1700, 40000], "sse": [1000, 20000], "avx": [1300, 30000]},
      "random sequence of 2-8 encode/decode/rebuild/failing calls of varying sizes run "
      "twice on one instance, each compared with a fresh instance, and the heap in use "
      "compared before and after; non-trivial: at least two calls with a decode",
      extra=FECX)
check("C25", "c25.cpp",
      {"off": [4000, 80000], "avx": [3000, 60000], "asan-off": [800, 10000]},
      "random codec, survivors (half of the cases too few), wanted outputs and "
      "interface; non-trivial: a decode was judged", extra=FECX)
check("C24", "c24.cpp",
      {"tsan": [500, 10000], "off": [1500, 40000], "avx": [1500, 40000]},
      "2-5 threads started together, each creating, using and destroying its own codec "
      "(some the same code) with random pauses, compared with the same work done alone; "
      "also under ThreadSanitizer; non-trivial: every case",
      extra=FECX)
check("C14", "c14.cpp", {"off": [1000000, 20000000], "asan-off": [150000, 2000000]},
      "one helper on generated integers (small, around powers of two, squares and type "
      "limits, products of small primes) against trial division and schoolbook loops; "
      "non-trivial: every judged case")
check("C23", "c23.cpp", {"off": [200000, 3000000], "asan-off": [60000, 600000]},
      "128-bit values (around powers of two and ten) against digit-by-digit conversion, "
      "buffers, vectors, polynomials, matrices and lists of buffers (also empty) against their "
      "dump written out, from C++ and C; non-trivial: an integer or a non-empty buffer was printed")
check("C12", "c12.cpp", {"off": [300000, 4000000], "asan-off": [50000, 500000]},
      "random field (small, Fermat, word-boundary and random primes; GF(2^1..128)) and "
      "elements (0, 1, -1, largest, powers of two, random; all pairs of small fields) "
      "against exact arithmetic; non-trivial: every judged case")
check("C26", "c26.cpp", {"off": [60000, 2000000], "sse": [60000, 2000000],
                         "avx": [60000, 2000000], "asan-avx": [15000, 300000]},
      "random lanes (0, 1, 65535, 65536 and random in every combination), arrays of any "
      "length, against arithmetic modulo 65537 on each lane; non-trivial: every case")
check("C13", "c13.cpp", {"off": [100000, 1500000], "asan-off": [10000, 100000]},
      "random field and element (half of them of small order), length (small, next to a "
      "divisor) or exponent, against orders from the known factorisation of q-1; "
      "non-trivial: every judged case")
check("C22", "c22.cpp", {"off": [60000, 1000000], "avx": [60000, 1000000], "asan-off": [15000, 200000]},
      "random word and symbol sizes, buffers, lengths and content packed and unpacked, "
      "guards around every buffer; non-trivial: at least one word")
check("C17", "c17.cpp", {"off": [60000, 1500000], "sse": [60000, 1500000],
                         "avx": [60000, 1500000], "asan-avx": [10000, 150000], "asan-sse": [10000, 150000]},
      "random field, operation, length (also not a multiple of the vector width), "
      "coefficients and contents (0, 1, -1, q/2 and random mixed), in place or not, on single "
      "buffers and lists; non-trivial: non-empty buffers")
check("C15", "c15.cpp", {"off": [30000, 600000], "sse": [20000, 400000],
                         "avx": [20000, 400000], "asan-avx": [3000, 40000]},
      "random transform, field, length, input length, packet size and content (edge values, "
      "sparse, single element, constant) against the defining sums; non-trivial: every case")
check("C16", "c16.cpp", {"off": [20000, 400000], "asan-off": [4000, 60000]},
      "random binary field, basis (default or any), m, input and sequence of transforms and "
      "Taylor expansions on one object; non-trivial: every case")
check("C18", "c18.cpp", {"off": [80000, 2000000], "sse": [80000, 2000000],
                         "avx": [80000, 2000000], "asan-avx": [20000, 300000]},
      "random history of constructions and operations on vectors, slices, views and "
      "zero-extended vectors over a random field, or on lists of buffers (owned, wrapped, "
      "sliced, concatenated, shuffled); non-trivial: more than one cell exists")
check("C19", "c19.cpp", {"off": [60000, 1200000], "asan-off": [15000, 200000]},
      "random field; matrices (any, triangular, permuted, low rank, dependent rows or columns) "
      "inverted, multiplied or generated, or a history of operations on several polynomials; "
      "non-trivial: every case")

# thorough tier: coverage-guided search (libFuzzer) over the same cases, in seconds
for _id, _spec in CHECKS.items():
    if _id not in ("C08", "C24"):
        _spec.setdefault("fuzz_s", 600)
