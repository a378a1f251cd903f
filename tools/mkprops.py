#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the text readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "C API: any n_data surviving fragments give the data back",
  "Data encoded through the C API is returned bit for bit by decode whenever at least n_data of the n_data+n_parities fragments survive, whichever ones they are. This holds for systematic and non-systematic codes, both word sizes, every supported number of fragments and every block size that is a multiple of the word size, except that encode may refuse (return -1) a block whose out-of-range symbols do not fit the fragment header.",
  ["inputs", "configurations"],
  "every (word size, n_data, n_parities, systematic), block size, block content and set of lost fragments that leaves at least n_data",
  "quadiron_c_utest only uses 3 data + 3 parity fragments, 2-byte words and 10000-byte blocks of random data; wide or unequal codes, short/odd blocks, 1-byte words, and contents that produce out-of-range symbols are never decoded.",
  ["src/quadiron_c.cpp", "src/fec_base.h", "src/fec_rs_fnt.h", "src/fec_context.h", "src/property.h"],
  [("encode/decode entry points and header placement", "src/quadiron_c.cpp"), ("block encoder/decoder", "src/fec_base.h encode_blocks_vertical/decode_blocks_vertical"), ("interpolation", "src/fec_context.h, src/fec_base.h decode_apply")],
  ["quadiron_fnt32_encode", "quadiron_fnt32_decode"])

p("C02", "C API: a rebuilt fragment equals the lost one",
  "Rebuilding any one lost fragment, data or parity, from any n_data survivors through the C API yields exactly the fragment that encoding had produced: same payload and same header. The rebuilt fragment can therefore take part in later decodes and rebuilds, over any sequence of losses and rebuilds.",
  ["inputs", "configurations", "histories"],
  "every code, block content, lost set, rebuilt index and sequence of lose/rebuild steps that always leaves n_data fragments",
  "The existing test rebuilds within one 3+3 code on one block size, compares headers only partly, and never chains rebuilds or rebuilds from a rebuilt fragment.",
  ["src/quadiron_c.cpp", "src/property.h", "src/fec_base.h"],
  [("reconstruct = decode then re-encode of one fragment", "src/quadiron_c.cpp quadiron_fnt32_reconstruct"), ("header serialisation", "src/property.h fnt_serialize")],
  ["quadiron_fnt32_reconstruct"])

p("C03", "C API: undecodable or damaged input is refused, never misused",
  "When fewer than n_data fragments are present, when a fragment header in use is damaged (wrong magic, impossible number of marks), when the block size is not a multiple of the word size, or when the code parameters are not supported, the C API reports failure instead of success. Whatever the header bytes, sizes or parameters, no call reads or writes outside the buffers its documentation requires.",
  ["inputs", "fault_sequences", "configurations"],
  "every code, block size, lost set and corruption of fragment headers",
  "No existing test passes too few fragments, a damaged header or an odd block size, and none runs under a memory checker.",
  ["src/quadiron_c.cpp", "src/property.h"],
  [("header parsing", "src/property.h fnt_deserialize"), ("return codes", "src/quadiron_c.cpp")],
  ["return values", "memory outside the documented buffers"])

p("C04", "C API: only the requested output is written",
  "Encode writes only data headers (and, for non-systematic codes, the wanted fragments in place) and the wanted parities; decode writes only data fragments and leaves surviving systematic payloads as they were; reconstruct writes only the destination fragment. Fragments that are not wanted or are lost may be absent (NULL) where the documentation allows it, and no byte outside header+block of any buffer changes.",
  ["inputs", "configurations"],
  "every code, wanted set, lost set, destination and block size",
  "The existing test wants every fragment, allocates every fragment and looks only at the payloads it expects to change.",
  ["src/quadiron_c.cpp", "src/fec_base.h"],
  [("wanted/missing flags", "src/quadiron_c.cpp"), ("copy-out under wanted flags", "src/fec_base.h")],
  ["all caller buffers, including guard bytes"])

p("C05", "FNT stream and block codec: any k of n fragments rebuild the data",
  "With the Fermat-number codecs, in systematic and non-systematic form, decoding any n_data of the n_data+n_parities fragments gives back exactly the encoded data, for every stream length that is a whole number of words, every packet size and every fragment count the field supports. Every encoded fragment is exactly as long as the input fragments, and a systematic decode with all data present succeeds at once.",
  ["inputs", "configurations"],
  "every word size, symbol type, n_data, n_parities, packet size, stream length (also not a multiple of the packet), content and erasure pattern",
  "fec_utest uses one 3+3 code and ec_test four shapes with fixed erasure patterns and 51200-byte files; packet sizes, short tails and unequal shapes are hardly varied.",
  ["src/fec_base.h", "src/fec_rs_fnt.h", "src/fec_context.h", "src/fft_2n.h", "src/fec_vectorisation.cpp"],
  [("packet loop with trailing packet", "src/fec_base.h encode_streams_vertical/decode_streams_vertical"), ("systematic transform", "src/fec_rs_fnt.h")],
  ["encode_streams_vertical/decode_streams_vertical", "encode_blocks_vertical/decode_blocks_vertical"])

p("C06", "FFT-based codecs: any k of n fragments rebuild the data",
  "With every other FFT-based codec (binary extension fields with multiplicative or additive FFT, prime fields, packed NF4 fields), decoding any n_data of the n_data+n_parities fragments gives back exactly the encoded data, for every word size the codec supports and every stream length that is a whole number of words. The Fermat codec's word-by-word interface gives the same guarantee.",
  ["inputs", "configurations"],
  "every codec, word size, n_data, n_parities, length, content and erasure pattern",
  "fec_utest fixes 3+3 with random words and all its codecs on one shape; ec_test four shapes with fixed erasures.",
  ["src/fec_base.h", "src/fec_rs_gf2n_fft.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_gfp_fft.h", "src/fec_rs_nf4.h", "src/fec_context.h"],
  [("word-wise encode/decode", "src/fec_base.h encode_streams_horizontal/decode_streams_horizontal"), ("special symbols", "src/fec_rs_gfp_fft.h, src/fec_rs_nf4.h")],
  ["encode_streams_horizontal/decode_streams_horizontal", "vertical NF4"])

p("C07", "Matrix Reed-Solomon codecs tolerate the loss of any n_parities fragments",
  "With the systematic Vandermonde and Cauchy codecs over binary fields, any n_data of the n_data+n_parities fragments give back exactly the encoded data, for every supported word size and every shape the field can hold.",
  ["inputs", "configurations"],
  "every word size, matrix type, n_data, n_parities, content and erasure pattern",
  "Only 3+3 (and a few script shapes) are tested; nothing checks that arbitrary k-subsets of generator rows are invertible, and the Cauchy codec is only tried on few erasures.",
  ["src/fec_rs_gf2n.h", "src/vec_matrix.h", "src/gf_bin_ext.h"],
  [("generator matrices", "src/vec_matrix.h vandermonde_suitable_for_ec, cauchy"), ("decode matrix inversion", "src/fec_rs_gf2n.h decode_build, src/vec_matrix.h inv")],
  ["encode_streams_horizontal/decode_streams_horizontal"])

p("C08", "All builds (scalar, SSE, AVX) produce and accept the same fragments",
  "For the same parameters and data, the scalar, SSE4.1 and AVX2 builds produce byte-identical fragments and the same out-of-range marks, and fragments encoded by one build are decoded and rebuilt correctly by any other.",
  ["inputs", "configurations"],
  "every code, word size, packet size, length, content and erasure pattern, for each pair of builds",
  "Each build's tests run alone; no test compares builds, and the vector kernels are compared with scalar code only on their own.",
  ["src/fec_vectorisation.cpp", "src/fft_2n.cpp", "src/gf_ring.cpp", "src/gf_nf4.cpp", "src/simd_128.h", "src/simd_256.h", "src/simd_fnt.h", "src/simd_nf4.h", "src/simd_radix2_fft.h", "src/simd_ring.h"],
  [("vector kernels and scalar tails", "src/simd_*.h"), ("specialisations", "src/*.cpp")],
  ["C API and C++ fragments of three builds"])

p("C09", "Interfaces and packet sizes agree on the fragments",
  "The content of a fragment does not depend on how the encoder was driven: word-by-word, packet-wise streams of any packet size, memory blocks and the C API produce the same bytes and the same marked positions for the same data. Encoding is position-wise, so encoding a prefix, or a concatenation, of the data gives the corresponding prefix, or concatenation, of the fragments, and a fragment encoded one way can be decoded another way.",
  ["inputs", "configurations"],
  "every code, content, length, packet size pair, split position, and pair of interfaces",
  "Each interface is only tested against itself, with fixed packet sizes.",
  ["src/fec_base.h", "src/quadiron_c.cpp", "src/fec_rs_fnt.h", "src/fec_rs_nf4.h"],
  [("offset accounting of marks", "src/fec_base.h"), ("trailing packet zero-fill", "src/fec_base.h")],
  ["fragments and marks of every interface"])

p("C10", "Fragments follow the documented code (stable format)",
  "Each fragment symbol is the value at a fixed point of the data polynomial over the documented field (for systematic codes, of the polynomial that takes the data symbols as its first values), or the documented generator-matrix product; out-of-range symbols are stored as zero and marked. Fragments written earlier therefore stay decodable by any conforming implementation, and encoding is linear.",
  ["inputs", "configurations"],
  "every codec, shape, word size and content",
  "Tests only check that decode inverts encode, so a consistent change of evaluation points, byte order or mark rule would pass all of them.",
  ["src/fec_rs_fnt.h", "src/fec_rs_gfp_fft.h", "src/fec_rs_gf2n_fft.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_gf2n.h", "src/fec_rs_nf4.h", "src/fft_2n.h", "src/gf_ring.h", "src/quadiron_c.cpp", "src/property.h"],
  [("root selection", "src/gf_ring.h get_nth_root"), ("transform", "src/fft_*.h"), ("header layout", "src/property.h")],
  ["fragments compared with an independent implementation"])

p("C11", "Fragment marks survive being stored, and bad marks are rejected",
  "A fragment's set of marked positions is preserved by its binary header form and by its text form, is looked up in increasing position order however it was built, and clearing it leaves nothing behind. A header that does not fit is refused without touching memory beyond it, and a malformed header or text is reported instead of being read as something else.",
  ["inputs", "histories"],
  "every set of positions in any insertion order, every header capacity, and every byte string or text given to the readers",
  "Marks are only exercised indirectly by a few random encodes; (de)serialisers have no test of their own.",
  ["src/property.h", "src/property.cpp"],
  [("binary header", "src/property.h fnt_serialize/fnt_deserialize"), ("text form", "src/property.cpp"), ("ordered lookup", "src/property.h sort/in_range/is_marked")],
  ["Properties contents, header bytes, text"])

p("C12", "Field arithmetic is exact",
  "In every supported field, add, sub, neg, mul, div, inv and exp return the canonical representative of the mathematically exact result for every pair of elements (divisors being non-zero), and the field laws follow.",
  ["inputs", "configurations"],
  "every field (primes, binary extensions of every supported degree, prime extensions used by codecs) and every tuple of elements, in particular 0, 1, -1, the largest element and word-boundary values",
  "gf_utest samples random elements and checks consistency between operations, which a wrong but self-consistent result (or a wrong boundary element) can pass.",
  ["src/gf_ring.h", "src/gf_prime.h", "src/gf_bin_ext.h", "src/gf_base.h", "src/arith.h"],
  [("modular ring", "src/gf_ring.h"), ("carry-less multiplication and inversion", "src/gf_bin_ext.h"), ("exponentiation", "src/arith.h, src/gf_ring.h")],
  ["return values of field operations"])

p("C13", "Roots of unity, orders and code lengths are right",
  "The primitive root of a field generates its whole multiplicative group; the n-th root of unity has order exactly gcd(n, q-1); orders, logarithms and code lengths reported by a field are correct: a code length divides q-1, is at least the requested one and follows the documented minimality; and the powers of a root are the same whether they are computed or taken from the file that keeps them.",
  ["inputs", "configurations"],
  "every small prime and supported field, every requested length and every element",
  "Tests take a few lengths and random elements; a root of too small an order only shows as two coinciding fragments for particular shapes.",
  ["src/gf_ring.h", "src/arith.h", "src/gf_bin_ext.h", "src/gf_prime.h"],
  [("primitive root search", "src/gf_ring.h"), ("divisor tables", "src/arith.h")],
  ["get_primitive_root, get_nth_root, get_order, log, get_code_len"])

p("C14", "Integer arithmetic helpers are exact",
  "Square roots, powers, modular exponentiation, gcd with Bezout coefficients, Chinese remaindering, Jacobi symbols, primality, factorisation, divisors, and code-length searches on integers return the mathematically exact answer on their documented domain.",
  ["inputs"],
  "all integers in range for each supported width, with boundary values",
  "arith_utest checks a handful of constants.",
  ["src/arith.h"],
  [("closed forms and loops", "src/arith.h")],
  ["return values"])

p("C15", "Multiplicative FFTs compute the transform and its inverse",
  "Every multiplicative transform (radix-2, Cooley-Tukey, Good-Thomas, large, naive and the base cases) computes exactly the discrete Fourier transform of its (zero-extended) input over its field, its inverse undoes it, for every supported length (a length that does not divide q-1 is refused), on vectors and on buffers of any packet size, and all algorithms agree.",
  ["inputs", "configurations"],
  "every field, every supported transform length, input length, packet size and content",
  "fft_utest covers few lengths (mostly 2..64 with full-length random inputs) and checks inverse(forward) more than forward itself; short inputs and packet sizes are barely varied.",
  ["src/fft_2n.h", "src/fft_2n.cpp", "src/fft_ct.h", "src/fft_gt.h", "src/fft_large.h", "src/fft_naive.h", "src/fft_2.h", "src/fft_single.h", "src/fft_base.h"],
  [("butterflies, bit reversal, zero-input shortcuts", "src/fft_2n.h"), ("decompositions", "src/fft_ct.h, src/fft_gt.h")],
  ["fft, fft_inv, ifft outputs"])

p("C16", "Additive FFT evaluates on the subspace and inverts",
  "The additive transform of a polynomial of degree below 2^m is its value at every point of the m-dimensional subspace in the documented order, its inverse recovers the polynomial, and Taylor expansion and its inverse represent the same polynomial, for every supported m and binary field.",
  ["inputs", "configurations"],
  "every binary field and m that fits, every input polynomial, and every Taylor degree/size pair",
  "fft_utest compares on few sizes with random inputs, mostly as round trips.",
  ["src/fft_add.h"],
  [("recursion, betas/gammas/deltas", "src/fft_add.h"), ("Taylor expansion", "src/fft_add.h taylor_expand")],
  ["fft/ifft outputs, taylor_expand/inv_taylor_expand"])

p("C17", "Bulk buffer operations equal the element-wise definition",
  "Multiplying, adding, subtracting, negating and scaling whole buffers gives, at every position, the result of the single-element field operation, for every buffer length, coefficient and content, in place or not, in the scalar, SSE and AVX builds, without touching anything beyond the given length.",
  ["inputs", "configurations"],
  "every field and symbol type, length (also non-multiples of the vector width), coefficient (0, 1, -1 included), content and aliasing allowed by the interface",
  "Kernels are compared at fixed sizes on random values; boundary values (q-1) at tail positions are rare at random and lengths are fixed.",
  ["src/gf_ring.h", "src/gf_ring.cpp", "src/gf_nf4.h", "src/gf_nf4.cpp", "src/simd_ring.h", "src/simd_nf4.h", "src/simd_fnt.h", "src/simd_128.h", "src/simd_256.h"],
  [("bulk operations and their vector versions", "src/gf_ring.*, src/simd_*.h")],
  ["buffer contents after the call, guard bytes"])

p("C18", "Vectors, views and buffer lists behave like the sequences they denote",
  "Vectors, slices, strided views, zero-extended vectors and buffer lists (owned, sliced, concatenated, shuffled, zero-extended) read and write exactly the elements they denote: writes through one are seen through every other that shares the element and nowhere else, operations (whole-vector ones on contiguous vectors and slices, element access, scaling and filling on strided views, reading and copying on zero-extended ones) match the plain element-wise sequence model, and no element outside is touched.",
  ["histories", "inputs", "configurations"],
  "every sequence of constructions, writes, copies, swaps, sorts and arithmetic operations on every shape",
  "buffers_utest and vector_utest check one or two shapes per constructor and no sequence of operations.",
  ["src/vec_vector.h", "src/vec_slice.h", "src/vec_view.h", "src/vec_zero_ext.h", "src/vec_buffers.h"],
  [("index mapping", "src/vec_view.h, src/vec_slice.h, src/vec_buffers.h")],
  ["get/set/copy and memory contents"])

p("C19", "Matrix and polynomial operations are algebraically correct",
  "Matrix products, inverses and generator matrices are exact over every field: an invertible matrix times its inverse is the identity and a singular one is refused; generator matrices have the documented form (powers, systematic Vandermonde, normalised Cauchy). Polynomial evaluation, derivative, product with (X + c) and truncated products equal their definitions for every polynomial, the zero one included, and the reported degree is the degree.",
  ["inputs", "configurations"],
  "every field, size up to a bound, and matrix or polynomial content including singular and structured ones",
  "mat_utest inverts two fixed 3x3 matrices; singular and pivot-zero cases, and products of other shapes, are not tested.",
  ["src/vec_matrix.h", "src/vec_poly.h", "src/vec_vector.h"],
  [("Gauss-Jordan elimination", "src/vec_matrix.h inv"), ("polynomial loops", "src/vec_poly.h")],
  ["matrix and polynomial entries"])

p("C20", "A codec instance carries no state from one call to the next",
  "The result of any encode, decode or rebuild depends only on its arguments: an instance that has already served any sequence of other calls (other sizes, contents, erasure patterns, failed calls) gives exactly what a fresh instance gives, and leaves nothing allocated behind when it is destroyed.",
  ["histories"],
  "every sequence of encode/decode/rebuild calls with varying sizes, losses and failures on one instance of every codec",
  "Existing tests reuse an instance in one fixed order with one size, and never after a failed call.",
  ["src/fec_base.h", "src/fec_rs_fnt.h", "src/fec_rs_gf2n.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_nf4.h", "src/quadiron_c.cpp"],
  [("per-instance work buffers", "src/fec_rs_fnt.h, src/fec_rs_nf4.h, src/fec_rs_gf2n.h"), ("decoding context", "src/fec_context.h")],
  ["outputs of a reused instance against a fresh one"])

p("C21", "Symbols that do not fit a word are never lost",
  "Whenever a code symbol falls outside the range of a word (the largest field element of the Fermat and NF4 codes, every value above the word range for other primes), its position is marked in the properties of its fragment, and only then; decoding with any fragments that carry such marks, at any positions and in any number, still returns the exact data.",
  ["inputs", "configurations"],
  "every code, contents constructed to put out-of-range symbols at chosen fragments and positions (first, last, packet and vector-width boundaries, many per packet, in several fragments), every packet size and erasure pattern",
  "With random data and 2-byte words such a symbol appears once per 65537 symbols, so existing tests meet a handful, at arbitrary places; clusters and boundary positions never.",
  ["src/fec_rs_fnt.h", "src/fec_vectorisation.cpp", "src/fec_rs_nf4.h", "src/fec_rs_gfp_fft.h", "src/fec_base.h", "src/property.h", "src/simd_fnt.h", "src/simd_nf4.h"],
  [("detection after encoding", "encode_post_process in src/fec_rs_*.h and src/fec_vectorisation.cpp"), ("restoration before decoding", "decode_prepare in src/fec_base.h, src/fec_rs_nf4.h, src/fec_rs_gfp_fft.h")],
  ["Properties of the fragments; decoded data"])

p("C22", "Packing and unpacking words is lossless",
  "Packing a byte buffer into wider symbols and unpacking it again reproduces the bytes exactly for every supported word and symbol size, number of buffers and length; each symbol holds the value of its word, and nothing outside the given length is touched.",
  ["inputs", "configurations"],
  "every (word size, symbol type) pair, buffer count, length and content",
  "buffers_utest packs one shape.",
  ["src/vec_cast.h"],
  [("element-wise widening and narrowing", "src/vec_cast.h")],
  ["packed symbols and unpacked bytes"])

p("C23", "Dumps and 128-bit integers are printed faithfully",
  "A 128-bit integer is printed in its exact decimal form, so reading the text back gives the same integer; the hex dump of a buffer (from C++ or through the C interface) shows every byte of the buffer, in order, and nothing else, leaving the formatting of the stream as it was; and the dumps of vectors, polynomials, matrices and lists of buffers show every element, in order, including those that are empty.",
  ["inputs"],
  "every 128-bit value and every buffer content and length",
  "No existing test prints a 128-bit value or a dump.",
  ["src/misc.h", "src/misc.cpp", "src/big_int.h", "src/quadiron_c.cpp", "src/vec_vector.h", "src/vec_poly.h", "src/vec_matrix.h", "src/vec_buffers.h"],
  [("stream operators", "src/misc.cpp"), ("hex dump", "src/misc.cpp, src/quadiron_c.cpp"), ("dumps of containers", "src/vec_vector.h, src/vec_poly.h, src/vec_matrix.h, src/vec_buffers.h")],
  ["text produced"])

p("C24", "Codec instances can be used from several threads at once",
  "Threads that each use their own codec instance, for the same or for different codes, get the same results as if they had run one after the other, without data races.",
  ["schedules", "configurations"],
  "every set of concurrent create/encode/decode/rebuild/destroy sequences on distinct instances",
  "All existing tests are single-threaded.",
  ["src/quadiron_c.cpp", "src/fec_base.h", "src/misc.cpp", "src/misc.h"],
  [("no shared mutable state between instances", "src/"), ("per-thread random generator", "src/misc.cpp")],
  ["results of concurrent runs; race detector reports"])

p("C25", "C++ codecs refuse what cannot be decoded",
  "With fewer than n_data fragments available, every codec's decode reports failure and writes nothing to any output, whatever fragments are present. With n_data or more it reports success, never reads a lost fragment, and writes only the outputs that are wanted.",
  ["inputs", "configurations"],
  "every codec, shape, erasure pattern (also beyond the tolerance), and wanted set",
  "Existing tests always provide exactly enough fragments and want all outputs.",
  ["src/fec_base.h", "src/fec_rs_gf2n.h"],
  [("fragment selection", "src/fec_base.h decode_streams_horizontal/decode_streams_vertical/decode_blocks_vertical")],
  ["return value and outputs of decode"])

p("C26", "Packed NF4 arithmetic equals lane-wise arithmetic modulo 65537",
  "Every operation on packed NF4 elements acts on each 32-bit lane exactly as arithmetic modulo 65537, and packing words together with their overflow flags and unpacking them is lossless for every combination of flagged lanes.",
  ["inputs", "configurations"],
  "every symbol type and lane count, every lane value including 65536 in any subset of lanes",
  "gf_utest draws random packed elements, where a lane holding 65536 has probability 1/65537.",
  ["src/gf_nf4.h", "src/gf_nf4.cpp", "src/simd_nf4.h"],
  [("lane loops and vector versions", "src/gf_nf4.h, src/simd_nf4.h")],
  ["values of the operations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
