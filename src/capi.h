/* Helpers for the checks that drive the C interface. */
#ifndef CAPI_H
#define CAPI_H
#include <cstddef>
#include <cstdint>
#include <memory>
#include <quadiron_c.h>
#include "pbt.h"
#include "ref.h"
#include "refcode.h"

namespace capi {

static const size_t PKT = 1024; // words handled at a time by the C interface
static const uint32_t MAGIC = 0x464E5431;

struct Shape {
    int ws = 2, k = 1, m = 1, sys = 0;
    int n() const
    {
        return k + m;
    }
    int n_outputs() const
    {
        return sys ? m : k + m;
    }
};

/// number of fragments; `maxn` bounds n_data + n_parities
static inline Shape draw_shape(pbt::Ctx& c, int maxn, int min_m = 0)
{
    Shape s;
    s.ws = c.pick({2, 2, 1});
    s.sys = c.coin();
    const int lim = std::min(maxn, s.ws == 1 ? 256 : 65536);
    switch (c.weighted({4, 2, 2, 1})) {
    case 0: // small
        s.k = c.range(1, 9);
        s.m = c.range(min_m, 9);
        break;
    case 1: // many data, few parities
        s.k = c.sized(1, lim / 2);
        s.m = c.range(min_m, 4);
        break;
    case 2: // few data, many parities
        s.k = c.range(1, 4);
        s.m = c.sized(min_m, lim - 4);
        break;
    default: // total on or around a power of two
    {
        int bits = 1;
        while ((2 << bits) <= lim)
            bits++;
        int t = (1 << (1 + c.draw(bits))) + (int)c.range(-1, 1);
        t = std::min(t, lim);
        s.k = 1 + (int)c.draw(std::max(1, std::min(t - 1, lim / 2)));
        s.m = std::max(min_m, t - s.k);
    }
    }
    if (s.k + s.m < 2)
        s.m = 2 - s.k;
    if (s.k > lim / 2)
        s.k = lim / 2;
    if (s.k + s.m > lim)
        s.m = lim - s.k;
    return s;
}

/// number of words of a block, biased to the packet boundaries
static inline size_t draw_words(pbt::Ctx& c, size_t max)
{
    size_t w;
    switch (c.weighted({3, 4, 3, 2})) {
    case 0:
        w = c.range(1, 40);
        break;
    case 1:
        w = c.sized(0, max);
        break;
    case 2:
        w = PKT * c.range(1, 3) + c.range(-3, 3);
        break;
    default:
        w = 8 * c.range(1, max / 8) + c.pick({0, 1, 7, 4});
    }
    return std::min(w, max);
}

/** A code and a number of words per fragment. Most are small; some have blocks
 * of many 64 KiB (headers grow with the block), some have thousands of
 * fragments. */
static inline void draw_case(
    pbt::Ctx& c,
    Shape& s,
    size_t& words,
    int maxn,
    size_t maxw,
    int min_m = 0)
{
    s = draw_shape(c, maxn, min_m);
    words = draw_words(c, maxw);
    const uint64_t mode = c.draw(600);
    if (mode >= 597) { // wide
        s.ws = 2;
        int n = c.one_in(5) ? c.sized(300, 4200) : c.range(300, 800);
        if (c.tier && c.one_in(12))
            n = c.range(5000, 65536);
        else if (c.one_in(4))
            n = c.pick({1024, 2048, 4096}) + c.range(-1, 1);
        s.k = c.coin() ? c.sized(1, std::min(n - 1, 32768)) : c.range(1, std::min(n - 1, 32768));
        s.m = std::max(min_m, n - s.k);
        words = c.range(1, 3);
    } else if (mode >= 575) { // long
        s.k = c.range(1, 4);
        s.m = c.range(std::max(min_m, s.k == 1 ? 1 : 0), 4);
        const size_t kb64 = c.range(1, c.tier ? 40 : 8);
        const size_t off = c.pick({0, 0, 1, 32767, 16384, 65535})
                           + (c.coin() ? c.range(0, 60000) : 0);
        words = (65536 * kb64 + off) / s.ws;
    }
}

struct Fec {
    QuadironFnt32* f;
    explicit Fec(const Shape& s)
        : f(quadiron_fnt32_new(s.ws, s.k, s.m, s.sys))
    {
    }
    ~Fec()
    {
        if (f)
            quadiron_fnt32_delete(f);
    }
    Fec(const Fec&) = delete;
    Fec& operator=(const Fec&) = delete;
};

/* A fragment buffer: header + block, with guard bytes on both sides. */
class Buf {
  public:
    /// `shift`: distance from the alignment that malloc gives
    Buf(size_t header, size_t block, uint8_t guard, size_t shift = 0)
        : h(header), b(block), G(GUARD ? GUARD + shift : 0), g(guard),
          mem((uint8_t*)malloc(2 * G + header + block))
    {
        memset(mem, guard, 2 * G + header + block);
    }
    ~Buf()
    {
        free(mem);
    }
    Buf(const Buf&) = delete;
    Buf& operator=(const Buf&) = delete;
    uint8_t* ptr()
    {
        return mem + G;
    }
    uint8_t* payload()
    {
        return ptr() + h;
    }
    size_t size() const
    {
        return h + b;
    }
    bool guards_ok() const
    {
        for (size_t i = 0; i < G; i++)
            if (mem[i] != g || mem[G + h + b + i] != g)
                return false;
        return true;
    }
    std::vector<uint8_t> copy()
    {
        return std::vector<uint8_t>(ptr(), ptr() + size());
    }
    void set(const std::vector<uint8_t>& v)
    {
        memcpy(ptr(), v.data(), v.size());
    }
    void scribble(uint64_t seed)
    {
        pbt::Prng r(seed);
        for (size_t i = 0; i < size(); i++)
            ptr()[i] = (uint8_t)r.next();
    }

  private:
#ifdef __SANITIZE_ADDRESS__
    static const size_t GUARD = 0; // the sanitizer guards the exact limits
#else
    static const size_t GUARD = 32;
#endif
    size_t h, b, G;
    uint8_t g;
    uint8_t* mem;
};

typedef std::vector<std::unique_ptr<Buf>> Bufs;

static inline Bufs make_bufs(int n, size_t header, size_t block)
{
    Bufs v;
    for (int i = 0; i < n; i++)
        v.emplace_back(new Buf(
            header, block, (uint8_t)(0xa0 + i % 64), 4 * (i % 8)));
    return v;
}

static inline std::vector<uint8_t> snap(Bufs& b)
{
    std::vector<uint8_t> v;
    for (auto& p : b) {
        auto x = p->copy();
        v.insert(v.end(), x.begin(), x.end());
    }
    return v;
}
static inline void check_guards(pbt::Ctx& c, const Bufs& b, const char* when)
{
    for (size_t i = 0; i < b.size(); i++)
        if (b[i] && !b[i]->guards_ok())
            c.fail("%s: wrote outside of buffer %zu", when, i);
}

static inline uint32_t be32(const uint8_t* p)
{
    return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8
           | p[3];
}
static inline void put_be32(uint8_t* p, uint32_t v)
{
    p[0] = v >> 24;
    p[1] = v >> 16;
    p[2] = v >> 8;
    p[3] = v;
}

/// number of marks that a header can hold
static inline size_t capacity(size_t header)
{
    return header / 4 - 2;
}

/** Which of the wanted fragments have more out-of-range symbols than a header
 * can hold? Computed with the reference code. */
static inline bool refusal_expected(
    const Shape& s,
    const std::vector<std::vector<uint8_t>>& data,
    const std::vector<int>& wanted,
    size_t header)
{
    const ref::PrimeCode pc = ref::fnt_code(s.ws, s.k, s.m, s.sys);
    const size_t words = data.empty() ? 0 : data[0].size() / s.ws;
    for (int i = 0; i < s.n_outputs(); i++) {
        if (!wanted[i])
            continue;
        size_t marks = 0;
        for (size_t w = 0; w < words; w++) {
            uint64_t v = 0;
            for (int j = 0; j < s.k; j++)
                v += pc.rows[i][j]
                     * (uint64_t)ref::load(data[j].data() + w * s.ws, s.ws)
                     % pc.p;
            marks += v % pc.p == pc.p - 1;
        }
        if (marks > capacity(header))
            return true;
    }
    return false;
}

/// see rc::overlay; headers hold at least 14 marks
static inline rc::Hot overlay(pbt::Ctx& c, const Shape& h, std::vector<std::vector<uint8_t>>& data)
{
    fx::Spec s;
    s.fam = fx::FNT;
    s.tbits = 32;
    s.ws = h.ws;
    s.k = h.k;
    s.m = h.m;
    s.sys = h.sys;
    s.pkt = PKT;
    return rc::overlay(c, s, data, 16);
}

static inline std::vector<int> draw_losses(pbt::Ctx& c, int n, int k, int lost)
{
    // which fragments are lost
    std::vector<int> miss(n, 0);
    switch (c.weighted({6, 1, 1})) {
    case 0:
        for (int i : c.subset(n, lost))
            miss[i] = 1;
        break;
    case 1: // first ones
        for (int i = 0; i < lost; i++)
            miss[i] = 1;
        break;
    default: // last ones
        for (int i = 0; i < lost; i++)
            miss[n - 1 - i] = 1;
    }
    (void)k;
    return miss;
}
static inline std::string bits(const std::vector<int>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size() && i < 64; i++)
        s += v[i] ? '1' : '0';
    if (v.size() > 64)
        s += "...";
    return s;
}
static inline std::vector<uint8_t*> ptrs(Bufs& b)
{
    std::vector<uint8_t*> v;
    for (auto& p : b)
        v.push_back(p ? p->ptr() : nullptr);
    return v;
}

} // namespace capi
#endif
