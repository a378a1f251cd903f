/* Independent model of every codec: its generator matrix and mark rule, from
 * the documentation. Nothing here uses the library's arithmetic. */
#ifndef REFCODE_H
#define REFCODE_H
#include "fecgen.h"
#include "ref.h"

namespace rc {
using namespace fg;
typedef ref::u128 u128;
typedef std::vector<u128> Row;

/// prime field (p != 0) or binary field of degree n
struct Field {
    uint64_t p = 0;
    unsigned n = 0;
    u128 poly = 0;
    u128 mul(u128 a, u128 b) const
    {
        return p ? (u128)ref::mulmod((uint64_t)a, (uint64_t)b, p) : ref::gf2n_mul(a, b, n, poly);
    }
    u128 add(u128 a, u128 b) const
    {
        return p ? (a + b) % p : a ^ b;
    }
    u128 sub(u128 a, u128 b) const
    {
        return p ? (a + p - b) % p : a ^ b;
    }
    u128 inv(u128 a) const
    {
        return p ? (u128)ref::invmod((uint64_t)a, p) : ref::gf2n_inv(a, n, poly);
    }
    u128 pow(u128 a, u128 e) const
    {
        u128 r = 1;
        while (e) {
            if (e & 1)
                r = mul(r, a);
            a = mul(a, a);
            e >>= 1;
        }
        return r;
    }
    /// order of the multiplicative group
    u128 order() const
    {
        return p ? (u128)p - 1 : (n == 128 ? ~(u128)0 : ((u128)1 << n) - 1);
    }
    /// prime factors of the order, with multiplicity, increasing
    std::vector<uint64_t> factors() const
    {
        std::vector<uint64_t> f;
        if (p) {
            uint64_t o = p - 1;
            for (uint64_t d = 2; d * d <= o; d++)
                while (o % d == 0) {
                    f.push_back(d);
                    o /= d;
                }
            if (o > 1)
                f.push_back(o);
            return f;
        }
        switch (n) {
        case 8:
            return {3, 5, 17};
        case 16:
            return {3, 5, 17, 257};
        case 32:
            return {3, 5, 17, 257, 65537};
        case 64:
            return {3, 5, 17, 257, 641, 65537, 6700417};
        case 128:
            return {3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721ULL};
        }
        throw std::logic_error("field");
    }
    /// smallest integer that generates the multiplicative group
    u128 generator() const
    {
        auto f = factors();
        for (u128 g = 2;; g++) {
            bool ok = true;
            for (uint64_t q : f)
                ok &= pow(g, order() / q) != 1;
            if (ok)
                return g;
        }
    }
    u128 root(unsigned len) const
    {
        return pow(generator(), order() / len);
    }
};

/** Length of the code: multiply the smallest prime factors of the order until
 * at least `n`, then drop the smallest ones as long as it stays at least `n`. */
static inline uint64_t composite_length(const std::vector<uint64_t>& f, uint64_t n)
{
    u128 x = 1;
    size_t i = 0;
    while (x < n)
        x *= f.at(i++);
    if (i == 0)
        x = f.at(0);
    for (size_t j = 0; j < f.size() && x / f[j] >= n; j++)
        x /= f[j];
    return (uint64_t)x;
}

/// invert a square matrix; false if singular
static inline bool invert(const Field& f, std::vector<Row> a, std::vector<Row>& r)
{
    const size_t n = a.size();
    r.assign(n, Row(n, 0));
    for (size_t i = 0; i < n; i++)
        r[i][i] = 1;
    for (size_t c = 0; c < n; c++) {
        size_t q = c;
        while (q < n && a[q][c] == 0)
            q++;
        if (q == n)
            return false;
        std::swap(a[q], a[c]);
        std::swap(r[q], r[c]);
        const u128 iv = f.inv(a[c][c]);
        for (size_t j = 0; j < n; j++) {
            a[c][j] = f.mul(a[c][j], iv);
            r[c][j] = f.mul(r[c][j], iv);
        }
        for (size_t i = 0; i < n; i++)
            if (i != c && a[i][c] != 0) {
                const u128 v = a[i][c];
                for (size_t j = 0; j < n; j++) {
                    a[i][j] = f.sub(a[i][j], f.mul(v, a[c][j]));
                    r[i][j] = f.sub(r[i][j], f.mul(v, r[c][j]));
                }
            }
    }
    return true;
}

struct Code {
    Spec s;
    Field f;
    unsigned lanes = 1, lane_bytes = 0;
    u128 limit = 0; ///< symbols from here on do not fit (0: all fit)
    unsigned length = 0; ///< of the underlying code, 0 when not defined
    std::vector<Row> rows; ///< one per output fragment

    Row dot_row(size_t i) const
    {
        return rows[i];
    }
    u128 dot(const Row& r, const Row& d) const
    {
        u128 v = 0;
        for (size_t j = 0; j < r.size(); j++)
            if (r[j] && d[j])
                v = f.add(v, f.mul(r[j], d[j]));
        return v;
    }
};

/// `only`: the wanted output fragments (all by default), in `rows` in that order
static inline Code make_code(const Spec& s, const std::vector<int>* only = nullptr)
{
    Code c;
    c.s = s;
    c.lane_bytes = s.ws;
    const int k = s.k, n = s.k + s.m;
    std::vector<int> outs;
    if (only)
        outs = *only;
    else
        for (int i = 0; i < s.n_outputs(); i++)
            outs.push_back(i);
    const int no = (int)outs.size();
    std::vector<u128> x(n);
    bool evaluation = true;
    switch (s.fam) {
    case FNT:
    case NF4:
        if (s.fam == NF4) {
            c.lanes = s.ws / 2;
            c.lane_bytes = 2;
        }
        c.f.p = (1ULL << (8 * c.lane_bytes)) + 1;
        c.limit = c.f.p - 1;
        c.length = ref::pow2_at_least(std::max(2, n));
        break;
    case GFP:
        if (s.ws < 4) {
            c.f.p = (1ULL << (8 * s.ws)) + 1;
            c.limit = c.f.p - 1;
        } else {
            c.f.p = 4294991873ULL;
            c.limit = (u128)1 << 32;
        }
        c.length = (unsigned)composite_length(c.f.factors(), n);
        break;
    default:
        c.f.n = 8 * s.ws;
        c.f.poly = ref::gf2n_poly(8 * s.ws);
        if (s.fam == GF2N_FFT)
            c.length = (unsigned)composite_length(c.f.factors(), n);
        else if (s.fam == GF2N_ADD)
            c.length = ref::pow2_at_least(n);
        else
            evaluation = false;
    }
    if (!evaluation) {
        std::vector<Row> g(no, Row(k));
        if (s.fam == GF2N_C) {
            // 1 / (i + (j + m)), scaled so that the first row and column are 1
            const auto e = [&](int i, int j) { return c.f.inv((u128)(i ^ (j + s.m))); };
            Row first(k);
            for (int j = 0; j < k && no; j++)
                first[j] = c.f.inv(e(0, j));
            for (int i = 0; i < no; i++) {
                for (int j = 0; j < k; j++)
                    g[i][j] = c.f.mul(e(outs[i], j), first[j]);
                const u128 d = c.f.inv(g[i][0]);
                for (int j = 0; j < k; j++)
                    g[i][j] = c.f.mul(g[i][j], d);
            }
        } else {
            // Vandermonde matrix whose top is turned into the identity
            const auto row = [&](int i) {
                Row r(k);
                u128 t = 1;
                for (int j = 0; j < k; j++) {
                    r[j] = t;
                    t = c.f.mul(t, (u128)i);
                }
                return r;
            };
            std::vector<Row> top(k), ti;
            for (int i = 0; i < k; i++)
                top[i] = row(i);
            if (!invert(c.f, top, ti))
                throw std::logic_error("Vandermonde");
            for (int i = 0; i < no; i++) {
                const Row v = row(k + outs[i]);
                for (int j = 0; j < k; j++) {
                    u128 t = 0;
                    for (int l = 0; l < k; l++)
                        t = c.f.add(t, c.f.mul(v[l], ti[l][j]));
                    g[i][j] = t;
                }
            }
        }
        c.rows = g;
        return c;
    }
    if (s.fam == GF2N_ADD) {
        // points: sums of the basis a, a^2, ..., a^(m-1), 1
        unsigned lg = 0;
        while ((1u << lg) < c.length)
            lg++;
        std::vector<u128> basis(lg);
        const u128 a = c.f.generator();
        for (unsigned i = 0; i < lg; i++)
            basis[i] = i + 1 == lg ? 1 : c.f.pow(a, i + 1);
        for (int i = 0; i < n; i++)
            for (unsigned b = 0; b < lg; b++)
                if (i >> b & 1)
                    x[i] ^= basis[b];
    } else {
        const u128 r = c.f.root(c.length);
        u128 v = 1;
        for (int i = 0; i < n; i++) {
            x[i] = v;
            v = c.f.mul(v, r);
        }
    }
    if (!s.sys) {
        for (int i : outs) {
            Row row(k);
            u128 v = 1;
            for (int j = 0; j < k; j++) {
                row[j] = v;
                v = c.f.mul(v, x[i]);
            }
            c.rows.push_back(row);
        }
    } else if (no) {
        // Lagrange basis polynomials at the points of the parities
        Row den(k, 1);
        for (int j = 0; j < k; j++) {
            for (int l = 0; l < k; l++)
                if (l != j)
                    den[j] = c.f.mul(den[j], c.f.sub(x[j], x[l]));
        }
        for (int o : outs) {
            const u128 at = x[k + o];
            u128 num = 1;
            for (int l = 0; l < k; l++)
                num = c.f.mul(num, c.f.sub(at, x[l]));
            Row row(k);
            for (int j = 0; j < k; j++)
                row[j] = c.f.mul(num, c.f.inv(c.f.mul(den[j], c.f.sub(at, x[j]))));
            c.rows.push_back(row);
        }
    }
    return c;
}

/// expected fragments and marks
static inline void encode(
    const Code& c,
    const std::vector<Bytes>& data,
    std::vector<Bytes>& out,
    std::vector<std::map<off_t, uint32_t>>& mk)
{
    const size_t words = data[0].size() / c.s.ws;
    out.assign(c.rows.size(), Bytes(data[0].size()));
    mk.assign(c.rows.size(), {});
    Row d(c.s.k);
    for (size_t w = 0; w < words; w++)
        for (unsigned l = 0; l < c.lanes; l++) {
            const size_t at = w * c.s.ws + l * c.lane_bytes;
            for (int j = 0; j < c.s.k; j++)
                d[j] = ref::load(data[j].data() + at, c.lane_bytes);
            for (size_t i = 0; i < c.rows.size(); i++) {
                u128 v = c.dot(c.rows[i], d);
                if (c.limit && v >= c.limit) {
                    mk[i][w] |= 1u << l;
                    v -= c.limit;
                }
                ref::store(out[i].data() + at, c.lane_bytes, v);
            }
        }
}

static inline std::string show_marks(const std::map<off_t, uint32_t>& m)
{
    std::string r;
    for (auto& e : m) {
        if (r.size() > 100)
            return r + "...";
        r += std::to_string((long)e.first) + ":" + std::to_string(e.second) + " ";
    }
    return r.empty() ? "none" : r;
}

static inline void compare(
    pbt::Ctx& c,
    const Spec& s,
    const char* who,
    const std::vector<Bytes>& got,
    const Props& gp,
    const std::vector<Bytes>& want,
    const std::vector<std::map<off_t, uint32_t>>& wm)
{
    for (int i = 0; i < s.n_outputs(); i++) {
        if (got[i] != want[i])
            c.fail("%s: fragment %d, %s", who, i, diff(got[i], want[i], s.ws).c_str());
        if (marks(gp[i]) != wm[i])
            c.fail("%s: fragment %d marks %s instead of %s", who, i,
                   show_marks(marks(gp[i])).c_str(), show_marks(wm[i]).c_str());
    }
}

/// fragments (of all n) that hold out-of-range symbols, and how many symbols
struct Hot {
    std::vector<int> frag;
    size_t n = 0;
};

/** Overwrites some words of the data so that chosen fragments have
 * out-of-range symbols there: the contents are solved for with the reference
 * generator matrix. At most `maxpos` words are changed. */
static inline Hot overlay(pbt::Ctx& c, const Spec& s, std::vector<Bytes>& data, size_t maxpos = 70)
{
    Hot hot;
    const size_t words = data[0].size() / s.ws;
    if (!c.one_in(2) || s.fam > GFP || s.k > 20 || s.n() > 48 || !words || !s.n_outputs())
        return hot;
    const Code code = make_code(s);
    const int nt = (int)c.range(1, std::min(s.k, s.n_outputs()));
    std::vector<int> target = c.subset(s.n_outputs(), nt);
    std::vector<Row> a;
    for (int t : target)
        a.push_back(code.rows[t]);
    if (s.sys) {
        for (int i : c.subset(s.k, s.k - nt)) {
            Row r(s.k, 0);
            r[i] = 1;
            a.push_back(r);
        }
    } else {
        std::vector<int> rest;
        for (int i = 0; i < s.n_outputs(); i++)
            if (std::find(target.begin(), target.end(), i) == target.end())
                rest.push_back(i);
        for (int i : c.subset((int)rest.size(), s.k - nt))
            a.push_back(code.rows[rest[i]]);
    }
    std::vector<Row> inv;
    if (!invert(code.f, a, inv))
        c.fail("the reference code is not MDS");
    std::vector<size_t> at;
    const size_t pkt = s.pkt ? s.pkt : 1024;
    if (c.weighted({4, 1}) == 0) {
        const int n = (int)c.range(1, 6);
        for (int i = 0; i < n; i++) {
            int64_t w;
            switch (c.weighted({1, 1, 3, 2, 2})) {
            case 0:
                w = 0;
                break;
            case 1:
                w = words - 1;
                break;
            case 2:
                w = pkt * c.range(0, (int64_t)(words / pkt)) + c.range(-1, 1);
                break;
            case 3:
                w = 8 * c.range(0, (int64_t)words / 8) + c.range(-1, 1);
                break;
            default:
                w = c.range(0, (int64_t)words - 1);
            }
            if (w >= 0 && w < (int64_t)words)
                at.push_back(w);
        }
    } else {
        const size_t from = c.draw(words), len = 1 + c.draw(maxpos);
        for (size_t w = from; w < words && w < from + len; w++)
            at.push_back(w);
    }
    const uint64_t seed = c.seed64();
    pbt::Prng r(seed);
    const uint64_t top = code.f.p - 1;
    Row v(s.k), d(s.k);
    for (size_t w : at) {
        const bool all_lanes = r.below(2);
        const unsigned lane = r.below(code.lanes);
        for (unsigned l = 0; l < code.lanes; l++) {
            if (!all_lanes && l != lane)
                continue;
            bool ok = false;
            for (int tries = 0; !ok && tries < 60; tries++) {
                bool any = false;
                for (int i = 0; i < s.k; i++) {
                    v[i] = r.below((uint64_t)code.limit);
                    if (i < nt && (r.below(3) || (i + 1 == nt && !any))) {
                        v[i] = r.below(2) ? (u128)top
                                          : code.limit + r.below((uint64_t)(top - code.limit) + 1);
                        any = true;
                    }
                }
                ok = true;
                for (int j = 0; j < s.k && ok; j++) {
                    d[j] = code.dot(inv[j], v);
                    ok = d[j] < code.limit;
                }
            }
            if (!ok)
                continue;
            hot.n++;
            for (int j = 0; j < s.k; j++)
                ref::store(data[j].data() + w * s.ws + l * code.lane_bytes, code.lane_bytes, d[j]);
        }
    }
    if (hot.n)
        for (int t : target)
            hot.frag.push_back(t + (s.sys ? s.k : 0));
    c.desc("%zu solved symbols in fragments", hot.n);
    for (size_t i = 0; i < hot.frag.size() && i < 8; i++)
        c.desc("%d", hot.frag[i]);
    return hot;
}

/// lets the fragments that hold out-of-range symbols survive in place of others
static inline void favour(pbt::Ctx& c, const Hot& hot, std::vector<bool>& have)
{
    if (hot.frag.empty() || !c.coin())
        return;
    size_t o = 0;
    for (int t : hot.frag) {
        if (have[t])
            continue;
        while (o < have.size()
               && (!have[o] || std::find(hot.frag.begin(), hot.frag.end(), (int)o) != hot.frag.end()))
            o++;
        if (o == have.size())
            return;
        have[o] = false;
        have[t] = true;
    }
}
static inline void favour(pbt::Ctx& c, const Hot& hot, std::vector<int>& miss)
{
    std::vector<bool> have;
    for (int m : miss)
        have.push_back(!m);
    favour(c, hot, have);
    for (size_t i = 0; i < miss.size(); i++)
        miss[i] = !have[i];
}

} // namespace rc
#endif
