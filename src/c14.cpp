/* C14: integer arithmetic helpers against plain definitions. */
#include <cstddef>
#include <cstdint>
#include <quadiron.h>
#include "pbt.h"
#include "ref.h"
namespace A = quadiron::arith;
typedef unsigned __int128 u128;
typedef __int128 i128;

namespace {
std::string str(u128 v)
{
    char b[64];
    if (v >> 64)
        snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else
        snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
#define S(x) str(x).c_str()

/// a number of at most `bits` bits: small, near a boundary, random, structured
u128 number(pbt::Ctx& c, int bits)
{
    u128 max = bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1;
    u128 v;
    switch (c.weighted({4, 4, 2, 2, 2})) {
    case 0:
        v = c.range(0, 40);
        break;
    case 1: {
        const int b = 1 + (int)c.draw(bits);
        v = (u128)c.draw(0) << 64 | c.draw(0);
        if (b < 128)
            v &= ((u128)1 << b) - 1;
        break;
    }
    case 2:
        v = max - c.range(0, 3);
        break;
    case 3:
        v = ((u128)1 << c.draw(bits)) + (u128)c.range(0, 2) - 1;
        break;
    default: { // a square, or a neighbour
        const int b = std::max(1, bits / 2);
        v = c.draw(b >= 64 ? 0 : 1ULL << b);
        v = v * v + (u128)c.range(0, 2) - 1;
    }
    }
    return v & max;
}
/// a number whose factorisation is cheap: small, or a product of small primes
uint64_t composite(pbt::Ctx& c, int bits, std::map<uint64_t, int>* out)
{
    const int lim = std::min(bits, 62);
    uint64_t n = 1;
    if (c.weighted({2, 3}) == 0) {
        n = 1 + c.draw(c.one_in(3) ? (1ULL << std::min(lim, 24)) : c.coin() ? 64 : 5000);
    } else {
        static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 257, 241, 65537, 43, 127, 4099, 32749};
        const int m = 1 + c.draw(10);
        for (int i = 0; i < m; i++) {
            const uint64_t q = c.coin() ? 2 : P[c.draw(15)];
            if ((u128)n * q >> lim)
                continue;
            n *= q;
        }
    }
    uint64_t r = n;
    for (uint64_t d = 2; d * d <= r; d++)
        while (r % d == 0) {
            (*out)[d]++;
            r /= d;
        }
    if (r > 1)
        (*out)[r]++;
    return n;
}
uint64_t g_seed;
template <typename T>
T rnd(T n)
{
    g_seed = pbt::mix64(g_seed);
    return (T)(g_seed % (uint64_t)n);
}
u128 rgcd(u128 a, u128 b)
{
    while (b) {
        u128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
uint64_t legendre(uint64_t a, uint64_t p)
{
    return ref::powmod(a % p, (p - 1) / 2, p);
}
template <typename V>
std::string list(const V& v)
{
    std::string s = "{";
    for (auto x : v)
        s += str(x) + " ";
    return s + "}";
}

template <typename T>
void integer_ops(pbt::Ctx& c)
{
    const int bits = sizeof(T) * 8;
    switch (c.draw(8)) {
    case 0: {
        c.tag("sqrt");
        const T n = number(c, bits);
        c.desc("sqrt<%d>(%s)", bits, S(n));
        if (n == 0)
            c.discard();
        const u128 r = A::sqrt<T>(n);
        // r^2 <= n < (r+1)^2 without overflow
        c.check(r <= n / r && !(r + 1 <= n / (r + 1)), "not the integer square root");
        break;
    }
    case 1: {
        c.tag("exp");
        const T b = number(c, c.coin() ? bits : 6);
        const T e = c.sized(0, 140);
        c.desc("exp<%d>(%s,%s)", bits, S(b), S(e));
        u128 r = 1;
        for (int i = 0; i < (int)e; i++)
            r *= b;
        // the low bits of b^e (the exact value whenever it fits)
        if (A::exp<T>(b, e) != (T)r)
            c.fail("got %s expected %s", S(A::exp<T>(b, e)), S((T)r));
        break;
    }
    case 2: {
        c.tag("exp_mod");
        T m = number(c, bits / 2); // documented to square the modulus in T
        if (m == 0)
            m = 1;
        const T b = number(c, bits), e = number(c, bits);
        c.desc("exp_mod<%d>(%s,%s,%s)", bits, S(b), S(e), S(m));
        u128 r = 1 % m, s = b % m, x = e;
        for (; x; x >>= 1) {
            if (x & 1)
                r = r * s % m;
            s = s * s % m;
        }
        if (A::exp_mod<T>(b, e, m) != r)
            c.fail("got %s expected %s", S(A::exp_mod<T>(b, e, m)), S(r));
        break;
    }
    case 3: {
        c.tag("powers of two");
        int n = c.weighted({3, 2}) ? (int)number(c, 30) : (int)c.range(-3, 70);
        c.desc("power of two helpers<%d>(%d)", bits, n);
        bool p2 = false;
        for (int i = 0; i < 31; i++)
            p2 |= n == (1LL << i);
        c.check(A::is_power_of_2<T>(n) == p2, "is_power_of_2");
        if (n == 0) {
            bool thrown = false;
            try {
                A::log2<T>(n);
            } catch (const quadiron::DomainError&) {
                thrown = true;
            }
            c.check(thrown, "log2(0) is not refused");
        }
        if (n > 0) {
            int l = 0;
            while ((2LL << l) <= n)
                l++;
            c.check(A::log2<T>(n) == l, "log2 is not the integer logarithm");
            if (n <= (1 << 30)) {
                uint64_t up = 1;
                while (up < (uint64_t)n)
                    up *= 2;
                c.check((uint64_t)A::ceil2<T>(n) == up, "ceil2 is not the next power of two");
            }
        }
        if (n >= 0 && n <= 30)
            c.check(A::exp2<T>(n) == (1 << n), "exp2");
        break;
    }
    case 4: {
        c.tag("gcd");
        T a = number(c, bits), b = number(c, bits);
        if (c.coin()) {
            const u128 g = number(c, bits / 2);
            a = (T)(number(c, bits / 2) * g);
            b = (T)(number(c, bits / 2) * g);
        }
        c.desc("gcd<%d>(%s,%s)", bits, S(a), S(b));
        if (A::gcd<T>(a, b) != (T)rgcd(a, b))
            c.fail("got %s expected %s", S(A::gcd<T>(a, b)), S(rgcd(a, b)));
        break;
    }
    case 5: {
        c.tag("is_prime");
        uint64_t n;
        switch (c.draw(3)) {
        case 0:
            n = c.range(0, 400);
            break;
        case 1: {
            const uint64_t p = 2 + c.draw(2000);
            n = p * (c.coin() ? p : 2 + c.draw(2000));
            break;
        }
        default:
            n = c.draw(c.coin() ? 1ULL << 20 : (sizeof(T) > 4 ? 1ULL << 34 : 0xffffffffULL));
        }
        c.desc("is_prime<%d>(%s)", bits, S(n));
        if (A::is_prime<T>(n) != ref::is_prime(n))
            c.fail("says %d", (int)A::is_prime<T>(n));
        break;
    }
    case 6: {
        c.tag("jacobi");
        const int64_t m = 1 + 2 * (int64_t)number(c, c.coin() ? 6 : 20);
        int64_t n = (int64_t)number(c, c.coin() ? 8 : 30);
        if (sizeof(T) < 16 && c.one_in(3))
            n = -n;
        c.desc("jacobi<%d>(%lld,%lld)", bits, (long long)n, (long long)m);
        int want = 1;
        const uint64_t a = (uint64_t)(((n % m) + m) % m);
        uint64_t r = m;
        for (uint64_t d = 3; r > 1; d += 2) {
            if (d * d > r)
                d = r;
            while (r % d == 0) {
                r /= d;
                const uint64_t l = a % d == 0 ? 0 : legendre(a, d);
                want *= l == 0 ? 0 : l == 1 ? 1 : -1;
            }
        }
        const int got = A::jacobi<T>(n, m);
        if (got != want)
            c.fail("got %d expected %d", got, want);
        if (c.one_in(4)) {
            bool thrown = false;
            try {
                A::jacobi<T>(n, m - 1);
            } catch (const quadiron::DomainError&) {
                thrown = true;
            }
            c.check(thrown, "an even modulus is not refused");
            if (sizeof(T) < 16) {
                thrown = false;
                try {
                    A::jacobi<T>(n, -m);
                } catch (const quadiron::DomainError&) {
                    thrown = true;
                }
                c.check(thrown, "a negative modulus is not refused");
            }
        }
        break;
    }
    default: {
        c.tag("solovay_strassen");
        const uint64_t n = 3 + 2 * c.draw(c.coin() ? 200 : 30000);
        g_seed = c.seed64();
        c.desc("solovay_strassen<%d>(%s)", bits, S(n));
        const bool p = ref::is_prime(n);
        if (A::solovay_strassen<T>(n, rnd<T>) != p)
            c.fail("says %sprime", p ? "not " : "");
        if (p) {
            const T a = rnd<T>(n);
            c.check(A::solovay_strassen1<T>(a, n), "a single round rejects a prime");
        }
    }
    }
}

/// extended gcd and Chinese remainder: types with a real signed double
template <typename T>
void bezout_ops(pbt::Ctx& c)
{
    typedef quadiron::SignedDoubleSizeVal<T> D;
    const int bits = sizeof(T) * 8;
    if (c.coin()) {
        c.tag("extended_gcd");
        T a = number(c, bits), b = number(c, bits);
        if (c.one_in(3)) {
            const u128 g = 1 + c.draw(1000);
            a = (T)(number(c, bits - 10) * g);
            b = (T)(number(c, bits - 10) * g);
        }
        c.desc("extended_gcd<%d>(%s,%s)", bits, S(a), S(b));
        D bz[2], q[2];
        const D g = A::extended_gcd<T>(a, b, bz, q);
        c.check(g == (D)(T)rgcd(a, b), "not the gcd");
        // products are below 2^(2 bits - 1): exact in the double size
        c.check(bz[0] * (D)a + bz[1] * (D)b == g, "the Bezout identity does not hold");
        if (a && b) {
            const D q0 = q[0] < 0 ? -q[0] : q[0], q1 = q[1] < 0 ? -q[1] : q[1];
            c.check(q0 == (D)a / g && q1 == (D)b / g, "quotients by the gcd are wrong");
        }
        c.check(A::extended_gcd<T>(a, b, nullptr, nullptr) == g, "null outputs change the result");
        return;
    }
    c.tag("chinese_remainder");
    const int k = 1 + c.draw(4);
    T a[4], n[4];
    u128 prod = 1;
    int m = 0;
    for (int i = 0; i < k; i++) {
        const uint64_t x = 2 + (uint64_t)number(c, c.coin() ? 5 : bits / 2);
        if (rgcd(prod, x) != 1 || prod * x >> bits)
            continue;
        prod *= x;
        n[m] = x;
        a[m] = (T)c.draw(x);
        m++;
    }
    if (m == 0)
        c.discard();
    c.desc("chinese_remainder<%d>(%d moduli, product %s)", bits, m, S(prod));
    const T x = A::chinese_remainder<T>(m, a, n);
    c.check(x < prod, "the solution is not reduced");
    for (int i = 0; i < m; i++)
        if (x % n[i] != a[i])
            c.fail("%s mod %s is %s, not %s", S(x), S(n[i]), S(x % n[i]), S(a[i]));
}

template <typename T>
void factor_ops(pbt::Ctx& c)
{
    const int bits = sizeof(T) * 8;
    std::map<uint64_t, int> f;
    const uint64_t n = composite(c, bits, &f);
    std::vector<T> primes, all, cop, proper;
    std::vector<int> exps;
    for (auto& x : f) {
        primes.push_back(x.first);
        exps.push_back(x.second);
        uint64_t q = 1;
        for (int i = 0; i < x.second; i++) {
            all.push_back(x.first);
            q *= x.first;
        }
        cop.push_back(q);
        if (x.first < n)
            proper.push_back(n / x.first);
    }
    c.desc("factors<%d>(%s)", bits, S(n));
    switch (c.draw(4)) {
    case 0: {
        c.tag("factor_prime");
        std::vector<T> gp;
        std::vector<int> ge;
        A::factor_prime<T>(n, &gp, &ge);
        if (gp != primes || ge != exps)
            c.fail("factor_prime gives %s", list(gp).c_str());
        if (A::factor_distinct_prime<T>(n) != primes)
            c.fail("factor_distinct_prime gives %s", list(A::factor_distinct_prime<T>(n)).c_str());
        break;
    }
    case 1:
        c.tag("derived factors");
        if (A::get_prime_factors<T>(n) != all)
            c.fail("get_prime_factors gives %s", list(A::get_prime_factors<T>(n)).c_str());
        if (A::get_prime_factors<T>(primes, exps) != all)
            c.fail("get_prime_factors from primes differs");
        if (A::get_coprime_factors<T>(n) != cop)
            c.fail("get_coprime_factors gives %s", list(A::get_coprime_factors<T>(n)).c_str());
        if (A::get_proper_divisors<T>(n) != proper || A::get_proper_divisors<T>(n, primes) != proper)
            c.fail("get_proper_divisors gives %s", list(A::get_proper_divisors<T>(n)).c_str());
        break;
    case 2: {
        c.tag("all divisors");
        if (n >> 34)
            c.discard();
        std::vector<T> d;
        for (uint64_t i = 1; i * i <= n; i++)
            if (n % i == 0) {
                d.push_back(i);
                if (i != n / i)
                    d.push_back(n / i);
            }
        std::sort(d.begin(), d.end());
        if (A::get_all_divisors<T>(n) != d)
            c.fail("get_all_divisors gives %s", list(A::get_all_divisors<T>(n)).c_str());
        break;
    }
    default: {
        c.tag("code length");
        if (n >> 34)
            c.discard();
        uint64_t len;
        switch (c.draw(3)) {
        case 0:
            len = 1 + c.draw(n);
            break;
        case 1:
            len = 1 + c.draw(std::min<uint64_t>(n, 40));
            break;
        default: // next to a divisor
            len = all.empty() ? 1 : 1;
            for (T p : all)
                if (c.coin())
                    len *= (uint64_t)p;
            len += c.range(-1, 1);
        }
        if (len < 1)
            len = 1;
        if (len > n)
            len = n;
        uint64_t best = n;
        for (uint64_t i = 1; i * i <= n; i++)
            if (n % i == 0) {
                if (i >= len)
                    best = std::min(best, i);
                if (n / i >= len)
                    best = std::min(best, n / i);
            }
        c.desc("length %s", S(len));
        if (A::get_code_len<T>(n, len) != best)
            c.fail("get_code_len gives %s, the smallest divisor is %s", S(A::get_code_len<T>(n, len)), S(best));
        const uint64_t h = (uint64_t)A::get_code_len_high_compo<T>((T)n, (T)len);
        if (h == 0 || n % h || h < len)
            c.fail("get_code_len_high_compo gives %s", S(h));
        // minimal: without any one of its prime factors it is too short
        const uint64_t least = h == 1 ? 0 : ref::prime_factors(h).front();
        if (least && h / least >= len)
            c.fail("get_code_len_high_compo gives %s, %s would do", S(h), S(h / least));
        if (A::get_code_len_high_compo<T>(all, (T)len) != h)
            c.fail("get_code_len_high_compo from factors differs");
    }
    }
}
template <typename T>
void run(pbt::Ctx& c)
{
    if (c.weighted({3, 2}) == 0)
        integer_ops<T>(c);
    else
        factor_ops<T>(c);
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({3, 3, 2, 1, 1})) {
    case 0:
        run<uint32_t>(c);
        break;
    case 1:
        run<uint64_t>(c);
        break;
    case 2:
        run<u128>(c);
        break;
    case 3:
        bezout_ops<uint32_t>(c);
        break;
    default:
        bezout_ops<uint64_t>(c);
    }
    c.nontrivial();
}
