/* C16: additive FFT against evaluation on the subspace; Taylor expansions
 * against their defining sum. */
#include "gfx.h"
#include <fft_add.h>
using gx::u128;
namespace gf = quadiron::gf;
namespace vec = quadiron::vec;
namespace fft = quadiron::fft;

namespace {
typedef std::vector<u128> V;
typedef gx::Ref Ref;

struct Content {
    pbt::Prng g;
    int kind;
    const Ref& r;
    Content(pbt::Ctx& c, const Ref& r) : g(c.seed64()), kind(c.weighted({5, 2, 1, 1, 1})), r(r) {}
    u128 elt()
    {
        const u128 v = (u128)g.next() << 64 | g.next();
        switch (g.below(6)) {
        case 0:
            return 1;
        case 1:
            return r.max();
        default:
            return v & r.max();
        }
    }
    V get(size_t n)
    {
        V v(n, 0);
        if (!n)
            return v;
        switch (kind) {
        case 0:
            for (auto& x : v)
                x = elt();
            break;
        case 1:
            for (auto& x : v)
                x = g.below(4) ? 0 : elt();
            break;
        case 2: // a monomial
            v[g.below(n)] = elt();
            break;
        case 3: { // of a lower degree
            const size_t d = g.below(n) + 1;
            for (size_t i = 0; i < d; i++)
                v[i] = elt();
            break;
        }
        default: // the highest one
            v[n - 1] = 1;
        }
        return v;
    }
};
u128 eval(const Ref& r, const V& p, u128 x)
{
    u128 s = 0;
    for (size_t i = p.size(); i-- > 0;)
        s = r.mul(s, x) ^ p[i];
    return s;
}
/// sum of h_i (x^t + x)^i, h_i being the i-th run of t coefficients
V collect(const V& h, unsigned t)
{
    const size_t chunks = (h.size() + t - 1) / t;
    V res;
    for (size_t i = chunks; i-- > 0;) {
        V nx(res.empty() ? 0 : res.size() + t, 0); // res * (x^t + x)
        for (size_t j = 0; j < res.size(); j++) {
            nx[j + t] ^= res[j];
            nx[j + 1] ^= res[j];
        }
        if (nx.size() < t)
            nx.resize(t, 0);
        for (size_t j = 0; j < t && i * t + j < h.size(); j++)
            nx[j] ^= h[i * t + j];
        res = nx;
    }
    return res;
}
bool same(const V& a, const V& b)
{
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
        if ((i < a.size() ? a[i] : 0) != (i < b.size() ? b[i] : 0))
            return false;
    return true;
}
template <typename T>
V list(const vec::Vector<T>& v)
{
    V r(v.get_n());
    for (size_t i = 0; i < r.size(); i++)
        r[i] = v.get((int)i);
    return r;
}
template <typename T>
vec::Vector<T> make(const gf::Field<T>& f, const V& x)
{
    vec::Vector<T> v(f, (int)x.size());
    for (size_t i = 0; i < x.size(); i++)
        v.set((int)i, (T)x[i]);
    return v;
}
template <typename T>
void fill(vec::Vector<T>& v, const V& x)
{
    for (size_t i = 0; i < x.size(); i++)
        v.set((int)i, (T)x[i]);
}
std::string show(const V& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 24; i++)
        s += gx::str(v[i]) + " ";
    return s + (v.size() > 24 ? "...]" : "]");
}

template <typename T>
void run(pbt::Ctx& c)
{
    const auto& d = gx::draw_binary<T>(c);
    const auto& f = *d.f;
    const Ref& r = d.r;
    const int top = std::min<int>((int)r.n, c.one_in(12) ? 10 : 6);
    const int m = 1 + (int)c.draw(top);
    const int n = 1 << m;
    // the basis: the default one (powers of the primitive element), or any
    std::shared_ptr<vec::Vector<T>> betas;
    V basis;
    Content cont(c, r);
    if (c.one_in(3)) {
        std::vector<u128> red; // echelon form
        for (int tries = 0; (int)basis.size() < m && tries < 1000; tries++) {
            const u128 b = tries < 500 ? cont.elt() : (u128)1 << (tries % r.n);
            u128 x = b;
            for (u128 e : red)
                x = std::min(x, x ^ e);
            if (x) {
                basis.push_back(b);
                red.push_back(x);
                std::sort(red.rbegin(), red.rend());
            }
        }
        if ((int)basis.size() < m)
            throw pbt::Discard();
        betas = std::make_shared<vec::Vector<T>>(f, m);
        for (int i = 0; i < m; i++)
            betas->set(i, (T)basis[i]);
        c.tag("given basis");
    } else {
        const u128 a = f.get_primitive_root();
        u128 x = a;
        for (int i = 0; i < m - 1; i++, x = r.mul(x, a))
            basis.push_back(x);
        basis.push_back(1);
        c.tag("default basis");
    }
    c.desc("Additive<%zu>(%s, m=%d%s)", sizeof(T) * 8, r.name().c_str(), m,
        betas ? (" basis " + show(basis)).c_str() : "");
    c.nontrivial();
    fft::Additive<T> t(f, (T)m, betas);
    if (t.get_n() != n)
        c.fail("get_n() is %d", t.get_n());
    V points(n, 0);
    for (int i = 0; i < n; i++)
        for (int b = 0; b < m; b++)
            if (i >> b & 1)
                points[i] ^= basis[b];
    vec::Vector<T> B(f, n);
    t.compute_B(B);
    if (list(B) != points)
        c.fail("compute_B: %s instead of %s", show(list(B)).c_str(), show(points).c_str());
    std::vector<int> ks;
    if (n <= 64)
        for (int i = 0; i < n; i++)
            ks.push_back(i);
    else {
        ks = {0, 1, n / 2 - 1, n / 2, n - 1};
        for (int i = 0; i < 16; i++)
            ks.push_back((int)cont.g.below(n));
    }
    // a sequence of transforms and expansions on the same object
    const int steps = 1 + (int)c.draw(3);
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({4, 2, 3, 2})) {
        case 0: {
            const unsigned len = c.coin() ? n : (unsigned)c.sized(1, n);
            const V p = cont.get(len);
            c.tag("fft");
            c.desc(" fft of %u coefficients", len);
            vec::Vector<T> in = make(f, p), out(f, n), back(f, n);
            vec::ZeroExtended<T> ext(in, n);
            for (int i = 0; i < n; i++) {
                out.set(i, (T)cont.elt());
                back.set(i, (T)cont.elt());
            }
            // a full vector, or one that is virtually as long
            vec::Vector<T> full(f, n);
            for (int i = 0; i < n; i++)
                full.set(i, i < (int)len ? (T)p[i] : 0);
            const bool use_ext = len < (unsigned)n && m > 1 && c.coin();
            t.fft(out, use_ext ? (vec::Vector<T>&)ext : full);
            for (int k : ks) {
                const u128 e = eval(r, p, points[k]);
                if (out.get(k) != (T)e)
                    c.fail("fft of %s: output %d is %s instead of %s", show(p).c_str(), k,
                        GS(out.get(k)), GS(e));
            }
            if (!same(list(full), p) || !same(list(in), p))
                c.fail("fft changed its input");
            const V o = list(out);
            if (c.coin())
                t.ifft(back, out);
            else
                t.fft_inv(back, out);
            if (!same(list(back), p))
                c.fail("ifft(fft(p)) is %s instead of %s", show(list(back)).c_str(),
                    show(p).c_str());
            if (list(out) != o)
                c.fail("ifft changed its input");
            break;
        }
        case 1: {
            const V y = cont.get(n);
            c.tag("ifft");
            c.desc(" ifft of any values");
            vec::Vector<T> in = make(f, y), out(f, n);
            for (int i = 0; i < n; i++)
                out.set(i, (T)cont.elt());
            t.ifft(out, in);
            const V p = list(out);
            for (int k : ks)
                if (eval(r, p, points[k]) != y[k])
                    c.fail("ifft of %s: %s has the value %s at point %d", show(y).c_str(),
                        show(p).c_str(), GS(eval(r, p, points[k])), k);
            break;
        }
        case 2: {
            const unsigned deg = 2 + (unsigned)(c.coin() ? c.draw(6) : c.sized(0, 40));
            const unsigned len = c.coin() ? n : (unsigned)c.sized(1, n);
            const unsigned olen = (len + deg - 1) / deg * deg;
            // the input may be shorter than the number of coefficients asked for
            V p = cont.get(c.one_in(3) ? (unsigned)c.sized(1, len) : len);
            c.tag("taylor");
            c.desc(" taylor_expand(n=%u, t=%u) of %zu", len, deg, p.size());
            if (p.size() < len)
                c.tag("taylor of a shorter input");
            vec::Vector<T> in = make(f, p), out(f, (int)olen), back(f, (int)len);
            for (unsigned i = 0; i < olen; i++)
                out.set((int)i, (T)cont.elt());
            t.taylor_expand(out, in, (int)len, (int)deg);
            if (!same(collect(list(out), deg), p))
                c.fail("taylor_expand(n=%u, t=%u) of %s is %s", len, deg, show(p).c_str(),
                    show(list(out)).c_str());
            if (list(in) != p)
                c.fail("taylor_expand changed its input");
            // any expansion has its inverse
            V h = list(out);
            if (c.coin()) {
                h = cont.get(olen);
                fill(out, h);
            }
            t.inv_taylor_expand(back, out, (int)deg);
            V e = collect(h, deg);
            e.resize(len, 0);
            if (list(back) != e)
                c.fail("inv_taylor_expand(t=%u) of %s is %s instead of %s", deg, show(h).c_str(),
                    show(list(back)).c_str(), show(e).c_str());
            if (list(out) != h)
                c.fail("inv_taylor_expand changed its input");
            break;
        }
        default: {
            const unsigned len = 1u << c.draw(m + 1);
            const V p = cont.get(len);
            c.tag("taylor t=2");
            c.desc(" taylor_expand_t2(n=%u)", len);
            vec::Vector<T> in = make(f, p), back(f, (int)len);
            for (unsigned i = 0; i < len; i++)
                back.set((int)i, (T)cont.elt());
            t.taylor_expand_t2(in, (int)len);
            if (!same(collect(list(in), 2), p))
                c.fail("taylor_expand_t2(n=%u) of %s is %s", len, show(p).c_str(),
                    show(list(in)).c_str());
            t.inv_taylor_expand_t2(back);
            if (list(back) != p)
                c.fail("inv_taylor_expand_t2: %s instead of %s", show(list(back)).c_str(),
                    show(p).c_str());
        }
        }
    }
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({1, 5, 4, 2})) {
    case 0:
        return run<uint16_t>(c);
    case 1:
        return run<uint32_t>(c);
    case 2:
        return run<uint64_t>(c);
    default:
        return run<__uint128_t>(c);
    }
}
