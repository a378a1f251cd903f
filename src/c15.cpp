/* C15: multiplicative FFTs against the defining sums. */
#include "gfx.h"
#include <fft_2.h>
#include <vec_matrix.h>
#include <fft_gt.h>
#include <fft_large.h>
#include <fft_naive.h>
#include <fft_single.h>
using gx::Alg;
using gx::u128;
namespace gf = quadiron::gf;
namespace vec = quadiron::vec;
namespace fft = quadiron::fft;

namespace {
typedef std::vector<u128> V;

/// powers of w in the field (one lane for NF4)
struct Dft {
    const Alg& A;
    unsigned n;
    V w, iw; // w^i and w^-i
    u128 inv_n;
    Dft(const Alg& A, unsigned n, u128 root) : A(A), n(n), w(n), iw(n)
    {
        u128 x = 1;
        for (unsigned i = 0; i < n; i++) {
            w[i] = x;
            x = A.r.mul(x, root);
        }
        for (unsigned i = 0; i < n; i++)
            iw[i] = w[(n - i) % n];
        inv_n = A.r.n ? 1 : ref::invmod(n % A.r.p, A.r.p);
    }
    /// sum of x[i] w^(i k)
    u128 at(const V& x, unsigned k, bool inverse) const
    {
        u128 s = 0;
        for (size_t i = 0; i < x.size(); i++)
            if (x[i])
                s = A.add(s, A.mul(x[i], A.replicate((inverse ? iw : w)[(uint64_t)i * k % n])));
        return s;
    }
};

struct Content {
    pbt::Prng g;
    int kind, edge;
    const Alg& A;
    Content(pbt::Ctx& c, const Alg& A)
        : g(c.seed64()), kind(c.weighted({6, 2, 1, 1})), edge(1 + (int)c.draw(6)), A(A)
    {
    }
    V get(size_t n)
    {
        V v(n);
        const size_t one = n ? g.below(n) : 0;
        for (size_t i = 0; i < n; i++)
            switch (kind) {
            case 0:
                v[i] = g.below(edge) ? A.edge(g) : A.random(g);
                break;
            case 1: // sparse
                v[i] = g.below(4) ? 0 : A.random(g);
                break;
            case 2: // one element
                v[i] = i == one ? (g.below(2) ? A.replicate(1) : A.random(g)) : 0;
                break;
            default: // constant
                v[i] = i ? v[0] : A.random(g);
            }
        return v;
    }
};

/// what a transform under test can be asked
struct Can {
    bool shorter = false;     // fft of a short vector or list of buffers
    bool buffers = false;
    bool shorter_inv = false; // inverse of a short list of buffers
    bool single = false;      // only the first input element may be non-zero
};

template <typename T>
void fill(vec::Vector<T>& v, const V& x)
{
    for (size_t i = 0; i < x.size(); i++)
        v.set(i, (T)x[i]);
}

template <typename T>
void run(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A, fft::FourierTransform<T>& t, unsigned n,
    u128 root, Can can, size_t pkt)
{
    if ((unsigned)t.get_n() != n)
        c.fail("get_n() is %d instead of %u", t.get_n(), n);
    const Dft D(A, n, root);
    Content cont(c, A);
    pbt::Prng g(c.seed64());
    // indices whose sums are computed
    std::vector<unsigned> ks;
    if ((uint64_t)n * n <= 20000) {
        for (unsigned k = 0; k < n; k++)
            ks.push_back(k);
    } else {
        ks = {0, 1, n / 2, n - 1};
        for (int i = 0; i < 12; i++)
            ks.push_back((unsigned)g.below(n));
    }
    auto zero_ext = [n](V x) {
        x.resize(n, 0);
        return x;
    };
    auto garbage = [&]() { return (T)A.random(g); };
    unsigned len = n;
    if (can.single)
        len = 1;
    else if (can.shorter && c.draw(3))
        len = (unsigned)c.sized(1, n);
    const bool bufs = can.buffers && c.draw(3);
    c.nontrivial();
    if (!bufs) {
        // ---- vectors
        const V x = cont.get(len);
        // some are given as long as the transform, or virtually so
        const int form = can.shorter ? (int)c.draw(3) : 1 + (int)c.draw(2);
        c.tag(form == 0 ? "vector" : form == 1 ? "padded vector" : "zero-extended vector");
        c.desc(" vector of %u (form %d, content %d, edge 1/%d)", len, form, cont.kind, cont.edge);
        vec::Vector<T> in(f, form == 1 ? n : len), out(f, n), back(f, n), keep(f, n);
        fill(in, form == 1 ? zero_ext(x) : x);
        const vec::Vector<T> in0(in);
        vec::ZeroExtended<T> ext(in, n);
        for (unsigned i = 0; i < n; i++) {
            out.set(i, garbage());
            back.set(i, garbage());
        }
        t.fft(out, form == 2 ? (vec::Vector<T>&)ext : in);
        if (!(in0 == in))
            c.fail("fft changed its input");
        for (unsigned k : ks) {
            const u128 e = D.at(x, k, false);
            if (out.get(k) != (T)e)
                c.fail("fft: output %u is %s instead of %s", k, GS(out.get(k)), GS(e));
        }
        for (unsigned i = 0; i < n; i++)
            keep.set(i, out.get(i));
        t.ifft(back, out);
        for (unsigned i = 0; i < n; i++) {
            const u128 e = i < len ? x[i] : 0;
            if (back.get(i) != (T)e)
                c.fail("ifft(fft(x)): element %u is %s instead of %s", i, GS(back.get(i)), GS(e));
        }
        if (!(keep == out))
            c.fail("ifft changed its input");
        if (can.single) { // the inverse without its factor is the same sum
            for (unsigned i = 0; i < n; i++)
                back.set(i, garbage());
            t.fft_inv(back, form == 2 ? (vec::Vector<T>&)ext : in);
            for (unsigned k : ks)
                if (back.get(k) != (T)D.at(x, k, true))
                    c.fail("fft_inv: output %u is %s instead of %s", k, GS(back.get(k)),
                        GS(D.at(x, k, true)));
            c.check(in0 == in, "fft_inv changed its input");
            return;
        }
        // any content through the inverse
        const V y = cont.get(n);
        fill(out, y);
        const bool scaled = c.coin();
        if (scaled)
            t.ifft(back, out);
        else
            t.fft_inv(back, out);
        for (unsigned k : ks) {
            u128 e = D.at(y, k, true);
            if (scaled)
                e = A.mul(e, A.replicate(D.inv_n));
            if (back.get(k) != (T)e)
                c.fail("%s: output %u is %s instead of %s", scaled ? "ifft" : "fft_inv", k,
                    GS(back.get(k)), GS(e));
        }
        return;
    }
    // ---- buffers
    c.tag("buffers");
    c.desc(" %u buffers of %zu (content %d, edge 1/%d)", len, pkt, cont.kind, cont.edge);
    std::vector<V> x(pkt);
    auto check = [&](const char* what, vec::Buffers<T>& b, bool inv, bool scaled) {
        for (unsigned k : ks)
            for (size_t j = 0; j < pkt; j++) {
                // each position is its own transform; look at some of a long packet
                if (pkt * n > 4000 && j % 7 != k % 7 && j + 1 != pkt)
                    continue;
                u128 e = D.at(x[j], k, inv);
                if (scaled)
                    e = A.mul(e, A.replicate(D.inv_n));
                if (b.get(k)[j] != (T)e)
                    c.fail("%s: buffer %u position %zu is %s instead of %s", what, k, j,
                        GS(b.get(k)[j]), GS(e));
            }
    };
    vec::Buffers<T> out(n, pkt), back(n, pkt);
    const std::vector<T*> out0 = out.get_mem(), back0 = back.get_mem();
    const unsigned in_n = can.single || can.shorter ? len : n;
    vec::Buffers<T> in(in_n, pkt);
    for (size_t j = 0; j < pkt; j++) {
        x[j] = cont.get(len);
        for (unsigned i = 0; i < in_n; i++)
            in.get(i)[j] = i < len ? (T)x[j][i] : 0;
    }
    for (unsigned i = 0; i < n; i++)
        for (size_t j = 0; j < pkt; j++) {
            out.get(i)[j] = garbage();
            back.get(i)[j] = garbage();
        }
    t.fft(out, in);
    check("fft", out, false, false);
    for (size_t j = 0; j < pkt; j++)
        for (unsigned i = 0; i < in_n; i++)
            if (in.get(i)[j] != (i < len ? (T)x[j][i] : (T)0))
                c.fail("fft changed its input");
    t.ifft(back, out);
    for (unsigned i = 0; i < n; i++)
        for (size_t j = 0; j < pkt; j++) {
            const u128 e = i < len ? x[j][i] : 0;
            if (back.get(i)[j] != (T)e)
                c.fail("ifft(fft(x)): buffer %u position %zu is %s instead of %s", i, j,
                    GS(back.get(i)[j]), GS(e));
        }
    check("input of ifft", out, false, false);
    if (!can.single) {
        const unsigned ilen = can.shorter_inv && c.draw(3) ? (unsigned)c.sized(1, n) : n;
        c.desc(" inverse of %u", ilen);
        vec::Buffers<T> y(ilen, pkt);
        for (size_t j = 0; j < pkt; j++) {
            x[j] = cont.get(ilen);
            for (unsigned i = 0; i < ilen; i++)
                y.get(i)[j] = (T)x[j][i];
        }
        const bool scaled = c.coin();
        if (scaled)
            t.ifft(back, y);
        else
            t.fft_inv(back, y);
        check(scaled ? "ifft" : "fft_inv", back, true, scaled);
        for (size_t j = 0; j < pkt; j++)
            for (unsigned i = 0; i < ilen; i++)
                if (y.get(i)[j] != (T)x[j][i])
                    c.fail("the inverse changed its input");
    }
    else {
        for (unsigned i = 0; i < n; i++)
            for (size_t j = 0; j < pkt; j++)
                back.get(i)[j] = garbage();
        t.fft_inv(back, in);
        check("fft_inv", back, true, false);
        for (size_t j = 0; j < pkt; j++)
            if (in.get(0)[j] != (T)x[j][0])
                c.fail("fft_inv changed its input");
    }
    if (out.get_mem() != out0 || back.get_mem() != back0)
        c.fail("the buffers of an output changed places");
}

/// a random divisor of q - 1 (2 or more) not above `cap`
unsigned divisor(pbt::Ctx& c, const Alg& A, unsigned cap)
{
    const u128 h = A.r.max();
    unsigned n = 1;
    std::vector<u128> ps;
    for (u128 p : gx::order_primes(A.r))
        if (p <= cap)
            ps.push_back(p);
    const int steps = 1 + (int)c.draw(10);
    if (ps.empty())
        return 1;
    for (int s = 0; s < steps; s++) {
        const u128 p = ps[c.draw(ps.size())];
        if (h % (p * n) == 0 && p * n <= cap)
            n *= (unsigned)p;
    }
    return n;
}
size_t packet(pbt::Ctx& c)
{
    return c.one_in(10) ? c.sized(1, 300) : c.sized(1, 40);
}

template <typename T>
u128 root_of(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A, unsigned n)
{
    const T w = f.get_nth_root(n);
    const u128 r = A.lanes ? (uint32_t)w : w;
    if (w != (T)A.replicate(r) || A.r.exp(r, n) != 1)
        c.fail("get_nth_root(%u) is %s", n, GS(w));
    for (auto p : ref::prime_factors(n))
        if (A.r.exp(r, n / p) == 1)
            c.fail("get_nth_root(%u) is %s, of a smaller order", n, GS(w));
    return r;
}

template <typename T>
void radix2(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A)
{
    if (c.one_in(40)) { // a length that the group does not have is refused
        // (lengths are field elements)
        const uint64_t top = A.r.max() < (1 << 20) ? (uint64_t)A.r.max() : 1 << 20;
        unsigned m = (unsigned)c.sized(2, top);
        if (c.coin())
            while (m & (m - 1))
                m &= m - 1;
        while (m > 2 && A.r.max() % m == 0)
            m--;
        if (A.r.max() % m == 0)
            throw pbt::Discard();
        c.tag("refused length");
        c.desc("Radix2<%zu>(n=%u) over %s", sizeof(T) * 8, m, A.r.name().c_str());
        try {
            fft::Radix2<T> t(f, m, 0, 1);
        } catch (const quadiron::InvalidArgument&) {
            c.nontrivial();
            return;
        }
        c.fail("a transform of %u was made", m);
    }
    int maxbits = 0;
    while (maxbits < 12 && A.r.max() % ((u128)2 << maxbits) == 0)
        maxbits++;
    if (!maxbits)
        throw pbt::Discard();
    const int bits = (int)(c.one_in(20) ? c.draw(maxbits + 1) : c.draw(std::min(maxbits, 7) + 1));
    const unsigned n = 1u << bits;
    // the length of the data: any, or as the codecs give it
    const unsigned data_len = c.coin() ? 0 : c.coin() ? 1u << c.draw(bits + 1) : (unsigned)c.range(1, n);
    size_t pkt = packet(c);
    if (n > 256)
        pkt = 1 + pkt % 20;
    c.tag("Radix2");
    c.desc("Radix2<%zu>(n=%u, data_len=%u, pkt=%zu)", sizeof(T) * 8, n, data_len, pkt);
    fft::Radix2<T> t(f, n, data_len, pkt);
    Can can;
    can.shorter = can.buffers = can.shorter_inv = true;
    run<T>(c, f, A, t, n, root_of(c, f, A, n), can, pkt);
}
template <typename T>
void other(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A)
{
    Can can;
    switch (c.weighted({3, 4, 4, 1, 1, 2})) {
    case 0: {
        const unsigned n = divisor(c, A, c.one_in(c.tier ? 60 : 120) ? 600 : 48);
        const size_t pkt = n > 100 ? 1 + c.draw(5) : packet(c);
        c.tag("Naive");
        c.desc("Naive<%zu>(n=%u, pkt=%zu) over %s", sizeof(T) * 8, n, pkt, A.r.name().c_str());
        const u128 w = root_of(c, f, A, n);
        fft::Naive<T> t(f, n, (T)w, pkt);
        can.buffers = true;
        return run<T>(c, f, A, t, n, w, can, pkt);
    }
    case 1: {
        const unsigned n = divisor(c, A, c.one_in(c.tier ? 25 : 60) ? 1300 : c.one_in(15) ? 400 : 120);
        if (n < 2)
            throw pbt::Discard();
        c.tag("CooleyTukey");
        c.desc("CooleyTukey<%zu>(n=%u) over %s", sizeof(T) * 8, n, A.r.name().c_str());
        fft::CooleyTukey<T> t(f, n);
        return run<T>(c, f, A, t, n, root_of(c, f, A, n), can, 0);
    }
    case 2: {
        const unsigned n = divisor(c, A, c.one_in(c.tier ? 25 : 60) ? 1300 : c.one_in(15) ? 400 : 120);
        if (n < 2)
            throw pbt::Discard();
        c.tag("GoodThomas");
        c.desc("GoodThomas<%zu>(n=%u) over %s", sizeof(T) * 8, n, A.r.name().c_str());
        fft::GoodThomas<T> t(f, n);
        return run<T>(c, f, A, t, n, root_of(c, f, A, n), can, 0);
    }
    case 3: {
        if (A.r.max() % 2)
            throw pbt::Discard();
        const size_t pkt = packet(c);
        c.tag("Size2");
        c.desc("Size2<%zu>(pkt=%zu) over %s", sizeof(T) * 8, pkt, A.r.name().c_str());
        fft::Size2<T> t(f);
        can.buffers = true;
        return run<T>(c, f, A, t, 2, A.r.max(), can, pkt);
    }
    case 4: {
        const unsigned n = divisor(c, A, 64);
        const size_t pkt = packet(c);
        c.tag("Single");
        c.desc("Single<%zu>(n=%u, pkt=%zu) over %s", sizeof(T) * 8, n, pkt, A.r.name().c_str());
        fft::Single<T> t(f, n);
        can.buffers = can.single = true;
        return run<T>(c, f, A, t, n, root_of(c, f, A, n), can, pkt);
    }
    default: {
        int maxbits = 0;
        while (!A.r.n && maxbits < 8 && A.r.max() % ((u128)2 << maxbits) == 0)
            maxbits++;
        if (!maxbits)
            throw pbt::Discard();
        const int l = 1 + (int)c.draw(c.one_in(8) ? maxbits : std::min(5, maxbits));
        const unsigned n = 1u << l;
        c.tag("Large");
        c.desc("Large<%zu>(l=%d) over %s", sizeof(T) * 8, l, A.r.name().c_str());
        const u128 w = root_of(c, f, A, n);
        fft::Large<T> t(f, l, (T)w);
        return run<T>(c, f, A, t, n, w, can, 0);
    }
    }
}

/// primes with many small factors in p - 1
template <typename T>
const gx::Dut<T>& transform_prime(pbt::Ctx& c)
{
    if (c.coin())
        return gx::prime_field<T>(sizeof(T) == 2 ? 257 : 65537);
    static const uint64_t P[] = {3, 5, 7, 13, 17, 31, 61, 97, 193, 211, 241, 257, 421, 2311, 7681,
        12289, 18661, 6037, 120121, 40961, 64513, 65521, 65537, 998244353, 3221225473ULL, 4294991873ULL,
        4179340454199820289ULL, 1945555039024054273ULL, 18446744069414584321ULL};
    uint64_t p;
    do
        p = P[c.draw(sizeof P / sizeof *P)];
    while (p >= (sizeof(T) == 2 ? 65536ULL : sizeof(T) == 4 ? 4294967296ULL : ~0ULL));
    return gx::prime_field<T>(p);
}
template <typename T>
void prime(pbt::Ctx& c)
{
    const auto& d = transform_prime<T>(c);
    const Alg A{d.r};
    if (c.coin())
        radix2<T>(c, *d.f, A);
    else
        other<T>(c, *d.f, A);
}
template <typename T>
void binary(pbt::Ctx& c)
{
    const auto& d = gx::draw_binary<T>(c);
    other<T>(c, *d.f, Alg{d.r});
}
template <typename T>
void packed(pbt::Ctx& c)
{
    const int n = 1 + (int)c.draw(sizeof(T) / 4);
    Alg A{gx::Ref::prime(65537)};
    A.lanes = n;
    radix2<T>(c, gx::nf4<T>(n), A);
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({6, 3, 4, 2, 2, 1, 1, 1, 2})) {
    case 0:
        return prime<uint32_t>(c);
    case 1:
        return prime<uint16_t>(c);
    case 2:
        return prime<uint64_t>(c);
    case 3:
        return binary<uint32_t>(c);
    case 4:
        return binary<uint64_t>(c);
    case 5:
        return binary<__uint128_t>(c);
    case 6:
        return packed<uint32_t>(c);
    case 7:
        return packed<uint64_t>(c);
    default:
        return packed<__uint128_t>(c);
    }
}
