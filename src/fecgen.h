/* Generators for the checks that drive the C++ codecs. */
#ifndef FECGEN_H
#define FECGEN_H
#include "fecx.h"
#include "pbt.h"
#include "ref.h"

namespace fg {
using namespace fx;

/// creating one of these takes about half a second
static inline bool slow(const Spec& s)
{
    return s.tbits == 128 && ((s.fam == NF4 && s.ws == 8) || s.ws == 16);
}

/// largest k and largest n = k + m that the codec supports
static inline void limits(const Spec& s, int* kmax, int* nmax)
{
    const int big = 1 << 20;
    switch (s.fam) {
    case FNT:
        *nmax = s.ws == 1 ? 256 : 65536;
        *kmax = *nmax / 2;
        break;
    case NF4:
        *nmax = 65536;
        *kmax = 32768;
        break;
    case GFP:
        // code lengths divide p - 1
        *nmax = s.ws == 1 ? 256 : (s.ws == 2 ? 65536 : big);
        *kmax = *nmax / 2;
        break;
    case GF2N_V:
    case GF2N_C:
        *nmax = s.ws == 1 ? 256 : big;
        *kmax = *nmax;
        break;
    case GF2N_FFT:
        *nmax = s.ws == 1 ? 255 : (s.ws == 2 ? 65535 : big);
        *kmax = *nmax / 2;
        break;
    default:
        *nmax = s.ws == 1 ? 256 : (s.ws == 2 ? 65536 : big);
        *kmax = s.ws == 1 ? 127 : 32767;
    }
}

/** Symbol type, word size and form for the given family. `slow_den`: how
 * seldom the codecs that take long to set up are drawn. */
static inline Spec draw_field(pbt::Ctx& c, Fam fam, int slow_den)
{
    Spec s;
    s.fam = fam;
    const bool big = slow_den && c.one_in(slow_den);
    switch (fam) {
    case FNT:
        switch (c.weighted({4, 1, 2})) {
        case 0:
            s.tbits = 32;
            s.ws = 2;
            break;
        case 1:
            s.tbits = 32;
            s.ws = 1;
            break;
        default:
            s.tbits = 16;
            s.ws = 1;
        }
        s.sys = c.coin();
        break;
    case NF4: {
        static const int t[][2] = {
            {32, 2}, {64, 2}, {64, 4}, {128, 2}, {128, 4}, {128, 8}};
        const int i = big ? 5 : (int)c.weighted({3, 1, 4, 1, 2});
        s.tbits = t[i][0];
        s.ws = t[i][1];
        break;
    }
    case GFP: {
        static const int t[][2] = {
            {32, 2}, {64, 4}, {16, 1}, {32, 1}, {64, 1}, {64, 2}};
        const int i = (int)c.weighted({4, 4, 3, 2, 1, 1});
        s.tbits = t[i][0];
        s.ws = t[i][1];
        break;
    }
    default: {
        static const int t[][2] = {
            {32, 1}, {32, 2}, {32, 4}, {64, 8}, {64, 1}, {64, 2}, {64, 4},
            {128, 1}, {128, 2}, {128, 4}, {128, 8}, {128, 16}};
        const int i =
            big ? 11 : (int)c.weighted({6, 5, 4, 4, 1, 1, 1, 1, 1, 1, 1});
        s.tbits = t[i][0];
        s.ws = t[i][1];
        s.sys = fam == GF2N_V || fam == GF2N_C;
    }
    }
    return s;
}

static inline void draw_shape(pbt::Ctx& c, Spec& s, int maxn, int min_m = 0)
{
    int kmax, nmax;
    limits(s, &kmax, &nmax);
    nmax = std::min(nmax, maxn);
    kmax = std::min(kmax, nmax);
    switch (c.weighted({5, 2, 2, 2})) {
    case 0:
        s.k = c.range(1, 9);
        s.m = c.range(min_m, 9);
        break;
    case 1:
        s.k = c.sized(1, kmax);
        s.m = c.range(min_m, 4);
        break;
    case 2:
        s.k = c.range(1, 5);
        s.m = c.sized(min_m, nmax - s.k);
        break;
    default: {
        // k, or k + m, at or around a power of two
        int bits = 0;
        while ((4 << bits) <= nmax)
            bits++;
        const int t = (2 << c.draw(bits + 1)) + (int)c.range(-1, 1);
        if (c.coin()) {
            s.k = std::min(t, kmax);
            s.m = c.range(min_m, 6);
        } else {
            s.k = 1 + (int)c.draw(std::max(1, std::min(t - 1, kmax)));
            s.m = std::max(min_m, t - s.k);
        }
    }
    }
    s.k = std::max(1, std::min(s.k, kmax));
    if (s.k + s.m < 2)
        s.m = 2 - s.k;
    if (s.k + s.m > nmax) {
        s.m = std::max(min_m, nmax - s.k);
        s.k = std::min(s.k, nmax - s.m);
    }
}

/** Hundreds to thousands of fragments (few words each). */
static inline void draw_wide(pbt::Ctx& c, Spec& s)
{
    if (s.ws == 1) {
        s.ws = 2;
        if (s.tbits == 16)
            s.tbits = 32;
    }
    if (slow(s))
        s.ws = 4;
    int kmax, nmax;
    limits(s, &kmax, &nmax);
    int top = 4200;
    switch (s.fam) {
    case GFP:
        // lengths that are not powers of 2, with many divisors, are special
        if (c.one_in(3)) {
            s.tbits = 64;
            s.ws = 4;
        }
        if (s.ws == 4 && c.one_in(2)) {
            s.k = c.range(4000, 8300);
            s.m = c.coin() ? c.range(1, 400) : c.range(1, 5000);
            return;
        }
        top = 3000;
        break;
    case GF2N_V:
    case GF2N_C:
        s.k = c.coin() ? c.range(1, 4) : c.sized(1, 60);
        s.m = c.range(257, 700);
        if (c.one_in(4) && s.fam == GF2N_V) {
            s.k = c.range(257, 400);
            s.m = c.range(1, 4);
        }
        return;
    case GF2N_FFT:
    case GF2N_ADD:
    case NF4:
        top = 1500;
        break;
    default:
        if (c.one_in(12))
            top = c.tier ? 40000 : 10000;
    }
    if (s.tbits == 128)
        top /= 3;
    nmax = std::min(nmax, top);
    kmax = std::min(kmax, nmax);
    const int n = c.one_in(4) ? std::min(nmax, (int)c.pick({512, 1024, 2048}) + (int)c.range(-1, 1))
                              : (int)c.range(300, nmax);
    switch (c.weighted({2, 1, 1})) {
    case 0:
        s.k = c.range(1, n - 1);
        break;
    case 1:
        s.k = n - c.range(1, 9);
        break;
    default:
        s.k = c.range(1, 9);
    }
    s.k = std::min(s.k, kmax);
    s.m = n - s.k;
}

static inline size_t draw_pkt(pbt::Ctx& c, const Spec& s)
{
    switch (c.weighted({4, 3, 2, 1})) {
    case 0:
        return c.pick({8, 1, 2, 3, 4, 5, 7, 16, 32, 33});
    case 1:
        return c.range(1, 70);
    case 2:
        return 8 * c.range(1, 32);
    default:
        return s.n() > 60 ? 64 : c.pick({1024, 512, 256, 100, 1023, 1025});
    }
}

/// length in words of a fragment, around multiples of the packet
static inline size_t draw_len(pbt::Ctx& c, const Spec& s, size_t max)
{
    size_t n;
    switch (c.weighted({3, 4, 2})) {
    case 0:
        n = c.range(1, 20);
        break;
    case 1:
        n = s.pkt * c.range(0, 4) + c.pick({0, 1, 2, 3}) * c.pick({1, -1});
        if ((int64_t)n < 0)
            n = 1;
        break;
    default:
        n = c.sized(0, max);
    }
    return std::min(n, max);
}

static inline std::string show(const Spec& s)
{
    char b[120];
    snprintf(b, sizeof(b), "%s T=u%d ws=%d %s k=%d m=%d", FAM_NAMES[s.fam],
             s.tbits, s.ws, s.sys ? "sys" : "nonsys", s.k, s.m);
    return b;
}
static inline std::string bits(const std::vector<bool>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size() && i < 64; i++)
        s += v[i] ? '1' : '0';
    return v.size() > 64 ? s + "..." : s;
}

/// which fragments are left: `left` of them
static inline std::vector<bool>
draw_have(pbt::Ctx& c, const Spec& s, int left)
{
    std::vector<bool> h(s.n(), false);
    switch (c.weighted({8, 1, 1, 2})) {
    case 3: { // at a distance of a power of two (then the next free one)
        int bits = 1;
        while ((2 << bits) < s.n())
            bits++;
        const int d = 1 << c.draw(bits + 1);
        int at = (int)c.draw(s.n());
        for (int i = 0; i < left; i++, at = (at + d) % s.n()) {
            while (h[at])
                at = (at + 1) % s.n();
            h[at] = true;
        }
        break;
    }
    case 0:
        for (int i : c.subset(s.n(), left))
            h[i] = true;
        break;
    case 1: // last ones
        for (int i = 0; i < left; i++)
            h[s.n() - 1 - i] = true;
        break;
    default: // first ones
        for (int i = 0; i < left; i++)
            h[i] = true;
    }
    return h;
}

static inline std::vector<Bytes>
make_data(const Spec& s, const pbt::Fill& f, size_t words)
{
    std::vector<Bytes> d;
    for (int i = 0; i < s.k; i++)
        d.push_back(f.make(words * s.ws, i, s.ws));
    return d;
}

/// interfaces that the codec has
static inline std::vector<Iface> ifaces(const Spec& s)
{
    if (s.fam == FNT)
        return s.sys ? std::vector<Iface>{V, B} : std::vector<Iface>{V, B, H};
    if (s.fam == NF4)
        return {H, V, B};
    return {H};
}

static inline std::string diff(const Bytes& a, const Bytes& b, int ws)
{
    char t[160];
    if (a.size() != b.size()) {
        snprintf(t, sizeof(t), "%zu bytes instead of %zu", a.size(), b.size());
        return t;
    }
    for (size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i]) {
            snprintf(t, sizeof(t), "word %zu of %zu: %s instead of %s", i / ws,
                     a.size() / ws, pbt::hex(&a[i / ws * ws], ws).c_str(),
                     pbt::hex(&b[i / ws * ws], ws).c_str());
            return t;
        }
    return "equal";
}

typedef std::vector<quadiron::Properties> Props;

static inline std::map<off_t, uint32_t> marks(const quadiron::Properties& p)
{
    std::map<off_t, uint32_t> r;
    for (auto& e : p.get_map())
        r[e.first] = e.second;
    return r;
}

} // namespace fg
#endif
