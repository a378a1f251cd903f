/* Fields under test with an independent description of each. */
#ifndef GFX_H
#define GFX_H
#include <cstddef>
#include <cstdint>
#include <memory>
#include <quadiron.h>
#include "pbt.h"
#include "ref.h"

namespace gx {
typedef unsigned __int128 u128;
namespace gf = quadiron::gf;

static inline std::string str(u128 v)
{
    char b[64];
    if (v >> 64)
        snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else
        snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
#define GS(x) gx::str(x).c_str()

/// exact arithmetic of the field: prime p (p < 2^64), or 2^n
struct Ref {
    uint64_t p = 0;
    unsigned n = 0; // binary field when not 0
    u128 poly = 0;
    static Ref prime(uint64_t p)
    {
        Ref r;
        r.p = p;
        return r;
    }
    static Ref binary(unsigned n)
    {
        Ref r;
        r.n = n;
        r.poly = ref::gf2n_poly(n);
        return r;
    }
    /// largest element, which is also the order of the multiplicative group
    u128 max() const
    {
        return n ? (n == 128 ? ~(u128)0 : ((u128)1 << n) - 1) : p - 1;
    }
    u128 add(u128 a, u128 b) const
    {
        return n ? a ^ b : (a + b) % p;
    }
    u128 sub(u128 a, u128 b) const
    {
        return n ? a ^ b : (a + p - b) % p;
    }
    u128 neg(u128 a) const
    {
        return sub(0, a);
    }
    u128 mul(u128 a, u128 b) const
    {
        return n ? ref::gf2n_mul(a, b, n, poly) : a * b % p;
    }
    u128 exp(u128 a, u128 e) const
    {
        u128 r = 1;
        for (; e; e >>= 1) {
            if (e & 1)
                r = mul(r, a);
            a = mul(a, a);
        }
        return r;
    }
    u128 inv(u128 a) const
    {
        return n ? ref::gf2n_inv(a, n, poly) : ref::powmod((uint64_t)a, p - 2, p);
    }
    std::string name() const
    {
        char b[40];
        if (n)
            snprintf(b, sizeof b, "GF(2^%u)", n);
        else
            snprintf(b, sizeof b, "GF(%llu)", (unsigned long long)p);
        return b;
    }
};

/// distinct prime factors of the order of the multiplicative group of GF(2^n)
static inline std::vector<u128> order_primes(const Ref& r)
{
    std::vector<u128> f;
    if (!r.n) {
        for (auto q : ref::prime_factors(r.p - 1))
            f.push_back(q);
        return f;
    }
    if (r.n == 1)
        return f;
    if (r.n == 2)
        return {3};
    if (r.n == 3)
        return {7};
    // 2^n - 1 for n = 4..128: product of the Fermat numbers below
    f = {3, 5};
    if (r.n >= 8)
        f.push_back(17);
    if (r.n >= 16)
        f.push_back(257);
    if (r.n >= 32)
        f.push_back(65537);
    if (r.n >= 64) {
        f.push_back(641);
        f.push_back(6700417);
    }
    if (r.n >= 128) {
        f.push_back(274177);
        f.push_back(67280421310721ULL);
    }
    return f;
}

template <typename T>
struct Dut {
    std::unique_ptr<gf::Field<T>> f;
    Ref r;
};

/// primes whose p - 1 is smooth enough for the trial division of the library
static const uint64_t BIG_PRIMES[] = {
    2147483647ULL,          // 2^31 - 1
    2147483659ULL,          // just above 2^31
    4294967291ULL,          // just below 2^32
    3221225473ULL,          // 3 * 2^30 + 1
    4294967311ULL,          // just above 2^32
    2305843009213693951ULL, // 2^61 - 1
    4179340454199820289ULL, // 29 * 2^57 + 1
    1945555039024054273ULL, // 27 * 2^56 + 1
    18446744069414584321ULL // 2^64 - 2^32 + 1
};

static inline uint64_t draw_prime(pbt::Ctx& c, uint64_t limit)
{
    uint64_t p;
    switch (c.weighted({3, 3, 3, 2})) {
    case 0: {
        static const int P[] = {2, 3, 5, 7, 11, 13, 17, 31, 97, 127, 193, 241};
        return P[c.draw(12)];
    }
    case 1: {
        static const uint64_t P[] = {257, 65537, 65521, 32771, 12289, 40961, 64513, 7681};
        p = P[c.draw(8)];
        break;
    }
    case 2:
        p = BIG_PRIMES[c.draw(9)];
        break;
    default:
        p = c.draw(c.coin() ? 1 << 10 : 1 << 20);
        while (!ref::is_prime(p))
            p++;
    }
    return p < limit ? p : 257;
}
/// fields are costly to build: each is built once per process
template <typename T>
const Dut<T>& prime_field(uint64_t p)
{
    static std::map<uint64_t, Dut<T>> cache;
    auto& d = cache[p];
    if (!d.f) {
        d.f = gf::alloc<gf::Field<T>, gf::Prime<T>>((T)p);
        d.r = Ref::prime(p);
    }
    return d;
}
template <typename T>
const Dut<T>& binary_field(unsigned n)
{
    static std::map<unsigned, Dut<T>> cache;
    auto& d = cache[n];
    if (!d.f) {
        d.f = gf::alloc<gf::Field<T>, gf::BinExtension<T>>((T)n);
        d.r = Ref::binary(n);
    }
    return d;
}
template <typename T>
const Dut<T>& draw_binary(pbt::Ctx& c)
{
    std::vector<int> ns = {1, 2, 3, 4, 8};
    if (sizeof(T) >= 4) // the tables need one bit more than the degree
        ns.push_back(16);
    if (sizeof(T) >= 4)
        ns.push_back(32);
    if (sizeof(T) >= 8)
        ns.push_back(64);
    if (sizeof(T) >= 16)
        ns.push_back(128);
    // wider ones more often
    const int i = std::max((int)c.draw(ns.size()), (int)c.draw(ns.size()));
    return binary_field<T>(ns[i]);
}
template <typename T>
const Dut<T>& draw_prime_field(pbt::Ctx& c)
{
    return prime_field<T>(draw_prime(
        c, sizeof(T) >= 8 ? ~0ULL : sizeof(T) == 4 ? 0xffffffffULL : 0xffffULL));
}
static inline u128 draw_elt(pbt::Ctx& c, const Ref& r)
{
    const u128 m = r.max();
    u128 v;
    switch (c.weighted({3, 2, 5, 2})) {
    case 0:
        v = c.draw(4);
        break;
    case 1:
        v = m - c.draw(4);
        break;
    case 2:
        v = (u128)c.draw(0) << 64 | c.draw(0);
        break;
    default:
        v = ((u128)1 << c.draw(128)) + (u128)c.range(0, 2) - 1;
    }
    return m + 1 == 0 ? v : v % (m + 1);
}

/// what the elements mean: a field, or 65537-lanes of 32 bits
struct Alg {
    gx::Ref r;
    int lanes = 0;
    template <typename F>
    u128 each(u128 a, u128 b, F op) const
    {
        if (!lanes)
            return op(a, b);
        u128 v = 0;
        for (int i = 0; i < lanes; i++)
            v |= op((uint32_t)(a >> (32 * i)), (uint32_t)(b >> (32 * i))) << (32 * i);
        return v;
    }
    u128 add(u128 a, u128 b) const
    {
        return each(a, b, [this](u128 x, u128 y) { return r.add(x, y); });
    }
    u128 sub(u128 a, u128 b) const
    {
        return each(a, b, [this](u128 x, u128 y) { return r.sub(x, y); });
    }
    u128 mul(u128 a, u128 b) const
    {
        return each(a, b, [this](u128 x, u128 y) { return r.mul(x, y); });
    }
    u128 replicate(u128 v) const
    {
        u128 w = v;
        for (int i = 1; i < lanes; i++)
            w |= v << (32 * i);
        return w;
    }
    u128 random(pbt::Prng& g) const
    {
        if (!lanes) {
            const u128 v = (u128)g.next() << 64 | g.next();
            return r.max() + 1 == 0 ? v : v % (r.max() + 1);
        }
        u128 v = 0;
        for (int i = 0; i < lanes; i++)
            v |= (u128)g.below(r.p) << (32 * i);
        return v;
    }
    u128 edge(pbt::Prng& g) const
    {
        u128 v = 0;
        for (int i = 0; i < std::max(1, lanes); i++) {
            u128 x;
            switch (g.below(6)) {
            case 0:
                x = 0;
                break;
            case 1:
                x = 1;
                break;
            case 2:
                x = r.max() ? r.max() - 1 : 0;
                break;
            case 3:
                x = (r.max() + 1) / 2;
                break;
            default:
                x = r.max();
            }
            v |= x << (32 * i);
        }
        return v;
    }
};

template <typename T>
const gf::NF4<T>& nf4(int n)
{
    static std::unique_ptr<gf::NF4<T>> cache[5];
    if (!cache[n])
        cache[n] = gf::alloc<gf::NF4<T>, gf::NF4<T>>((unsigned)n);
    return *cache[n];
}

} // namespace gx
#endif
