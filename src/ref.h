/* Independent reference models. Deliberately naive; nothing here uses the
 * library under test. */
#ifndef REF_H
#define REF_H
#include <cstdint>
#include <map>
#include <stdexcept>
#include <vector>

namespace ref {

typedef unsigned __int128 u128;

static inline uint64_t mulmod(uint64_t a, uint64_t b, uint64_t p)
{
    return (uint64_t)((u128)a * b % p);
}
static inline uint64_t addmod(uint64_t a, uint64_t b, uint64_t p)
{
    return (uint64_t)(((u128)a + b) % p);
}
static inline uint64_t submod(uint64_t a, uint64_t b, uint64_t p)
{
    return (uint64_t)(((u128)a + p - b % p) % p);
}
static inline uint64_t powmod(uint64_t a, uint64_t e, uint64_t p)
{
    uint64_t r = 1 % p;
    a %= p;
    while (e) {
        if (e & 1)
            r = mulmod(r, a, p);
        a = mulmod(a, a, p);
        e >>= 1;
    }
    return r;
}
/// inverse modulo a prime
static inline uint64_t invmod(uint64_t a, uint64_t p)
{
    return powmod(a, p - 2, p);
}
static inline bool is_prime(uint64_t n)
{
    if (n < 2)
        return false;
    for (uint64_t d = 2; d * d <= n; d++)
        if (n % d == 0)
            return false;
    return true;
}
static inline std::vector<uint64_t> prime_factors(uint64_t n)
{
    std::vector<uint64_t> f;
    for (uint64_t d = 2; d * d <= n; d++)
        if (n % d == 0) {
            f.push_back(d);
            while (n % d == 0)
                n /= d;
        }
    if (n > 1)
        f.push_back(n);
    return f;
}
/// smallest integer generating the multiplicative group modulo the prime p
static inline uint64_t smallest_generator(uint64_t p)
{
    if (p == 2)
        return 1;
    auto f = prime_factors(p - 1);
    for (uint64_t g = 2;; g++) {
        bool ok = true;
        for (uint64_t q : f)
            ok &= powmod(g, (p - 1) / q, p) != 1;
        if (ok)
            return g;
    }
}
static inline unsigned pow2_at_least(unsigned n)
{
    unsigned p = 1;
    while (p < n)
        p *= 2;
    return p;
}

/* ---- binary fields, bit by bit ---- */
/// carry-less product of a and b modulo the polynomial 2^n + poly_low
static inline u128 gf2n_mul(u128 a, u128 b, unsigned n, u128 poly_low)
{
    u128 r = 0;
    const u128 top = (u128)1 << (n - 1);
    const u128 mask = top | (top - 1);
    for (int i = (int)n - 1; i >= 0; i--) {
        const bool carry = (r & top) != 0;
        r = (r << 1) & mask;
        if (carry)
            r ^= poly_low;
        if ((b >> i) & 1)
            r ^= a;
    }
    return r & mask;
}
static inline u128 gf2n_pow(u128 a, u128 e, unsigned n, u128 poly)
{
    u128 r = 1;
    while (e) {
        if (e & 1)
            r = gf2n_mul(r, a, n, poly);
        a = gf2n_mul(a, a, n, poly);
        e >>= 1;
    }
    return r;
}
static inline u128 gf2n_inv(u128 a, unsigned n, u128 poly)
{
    // a^(2^n - 2)
    u128 r = 1;
    u128 s = a;
    for (unsigned i = 1; i < n; i++) {
        s = gf2n_mul(s, s, n, poly);
        r = gf2n_mul(r, s, n, poly);
    }
    return r;
}
/// low part of the irreducible polynomial documented for GF(2^n)
static inline u128 gf2n_poly(unsigned n)
{
    switch (n) {
    case 1:
        return 1;
    case 2:
        return 0x3;
    case 3:
        return 0x3;
    case 4:
        return 0x3;
    case 8:
        return 0x1d;
    case 16:
        return 0x100b;
    case 32:
        return 0x8d;
    case 64:
        return 0x1b;
    case 128:
        return 0x87;
    }
    throw std::logic_error("no polynomial");
}

/* ---- evaluation codes over a prime field ---- */
struct PrimeCode {
    uint64_t p;
    unsigned n; // length of the transform
    std::vector<uint64_t> x; // evaluation points
    std::vector<std::vector<uint64_t>> rows; // one per output fragment
};

/** Generator of the code: row i gives fragment i from the data symbols.
 *  non-systematic: value at x_i of the polynomial whose coefficients are data
 *  systematic: value at x_{k+i} of the polynomial whose first k values are data
 */
static inline PrimeCode
prime_code(uint64_t p, uint64_t r, unsigned n, unsigned k, unsigned m, bool sys)
{
    PrimeCode c;
    c.p = p;
    c.n = n;
    c.x.resize(k + m);
    for (unsigned i = 0; i < k + m; i++)
        c.x[i] = powmod(r, i, p);
    if (!sys) {
        for (unsigned i = 0; i < k + m; i++) {
            std::vector<uint64_t> row(k);
            uint64_t v = 1;
            for (unsigned j = 0; j < k; j++) {
                row[j] = v;
                v = mulmod(v, c.x[i], p);
            }
            c.rows.push_back(row);
        }
        return c;
    }
    std::vector<uint64_t> w(k, 1); // barycentric weights
    for (unsigned i = 0; i < k; i++) {
        for (unsigned j = 0; j < k; j++)
            if (i != j)
                w[i] = mulmod(w[i], submod(c.x[i], c.x[j], p), p);
        w[i] = invmod(w[i], p);
    }
    for (unsigned i = k; i < k + m; i++) {
        std::vector<uint64_t> row(k);
        uint64_t l = 1;
        for (unsigned j = 0; j < k; j++)
            l = mulmod(l, submod(c.x[i], c.x[j], p), p);
        for (unsigned j = 0; j < k; j++)
            row[j] = mulmod(
                mulmod(l, w[j], p), invmod(submod(c.x[i], c.x[j], p), p), p);
        c.rows.push_back(row);
    }
    return c;
}
/// the Fermat code of the given word size
static inline PrimeCode fnt_code(int word_size, unsigned k, unsigned m, bool sys)
{
    const uint64_t p = (1ULL << (8 * word_size)) + 1;
    const unsigned n = pow2_at_least(k + m < 2 ? 2 : k + m);
    const uint64_t r = powmod(smallest_generator(p), (p - 1) / n, p);
    return prime_code(p, r, n, k, m, sys);
}
static inline uint64_t
dot(const std::vector<uint64_t>& row, const std::vector<uint64_t>& d, uint64_t p)
{
    uint64_t s = 0;
    for (size_t i = 0; i < row.size(); i++)
        s = (s + mulmod(row[i], d[i], p)) % p;
    return s;
}
/// solves the square system a x = b modulo p; false if singular
static inline bool
solve(std::vector<std::vector<uint64_t>> a, std::vector<uint64_t>& b, uint64_t p)
{
    const size_t n = a.size();
    for (size_t c = 0; c < n; c++) {
        size_t r = c;
        while (r < n && a[r][c] == 0)
            r++;
        if (r == n)
            return false;
        std::swap(a[r], a[c]);
        std::swap(b[r], b[c]);
        const uint64_t iv = invmod(a[c][c], p);
        for (size_t j = 0; j < n; j++)
            a[c][j] = mulmod(a[c][j], iv, p);
        b[c] = mulmod(b[c], iv, p);
        for (size_t i = 0; i < n; i++)
            if (i != c && a[i][c]) {
                const uint64_t f = a[i][c];
                for (size_t j = 0; j < n; j++)
                    a[i][j] = submod(a[i][j], mulmod(f, a[c][j], p), p);
                b[i] = submod(b[i], mulmod(f, b[c], p), p);
            }
    }
    return true;
}

/// little-endian word of `ws` bytes
static inline u128 load(const uint8_t* p, int ws)
{
    u128 v = 0;
    for (int i = ws - 1; i >= 0; i--)
        v = (v << 8) | p[i];
    return v;
}
static inline void store(uint8_t* p, int ws, u128 v)
{
    for (int i = 0; i < ws; i++) {
        p[i] = (uint8_t)v;
        v >>= 8;
    }
}

} // namespace ref
#endif
