/* C19: matrices and polynomials against their definitions. */
#include "gfx.h"
using gx::Alg;
using gx::u128;
namespace gf = quadiron::gf;
namespace vec = quadiron::vec;

namespace {
typedef gx::Ref Ref;
typedef std::vector<u128> V;
typedef std::vector<V> M;

struct Values {
    pbt::Prng g;
    const Ref& r;
    int edge, sparse;
    Values(pbt::Ctx& c, const Ref& r) : g(c.seed64()), r(r)
    {
        edge = 1 + (int)c.draw(6);
        sparse = (int)c.draw(4);
    }
    u128 get()
    {
        if (sparse && g.below(4) < (uint64_t)sparse)
            return 0;
        if (g.below(edge) == 0) {
            static const int E[] = {1, 2, 0};
            const u128 v = E[g.below(3)];
            return g.below(2) ? (v <= r.max() ? v : 1) : r.max() - (v <= r.max() ? v : 0);
        }
        const u128 v = (u128)g.next() << 64 | g.next();
        return r.max() + 1 == 0 ? v : v % (r.max() + 1);
    }
};
M identity(int n)
{
    M m(n, V(n, 0));
    for (int i = 0; i < n; i++)
        m[i][i] = 1;
    return m;
}
M mul(const Ref& r, const M& a, const M& b)
{
    M x(a.size(), V(b[0].size(), 0));
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < b[0].size(); j++)
            for (size_t k = 0; k < b.size(); k++)
                x[i][j] = r.add(x[i][j], r.mul(a[i][k], b[k][j]));
    return x;
}
/// false when singular
bool invert(const Ref& r, M a, M& res)
{
    const int n = (int)a.size();
    res = identity(n);
    for (int k = 0; k < n; k++) {
        int p = k;
        while (p < n && !a[p][k])
            p++;
        if (p == n)
            return false;
        std::swap(a[p], a[k]);
        std::swap(res[p], res[k]);
        const u128 d = r.inv(a[k][k]);
        for (int j = 0; j < n; j++) {
            a[k][j] = r.mul(a[k][j], d);
            res[k][j] = r.mul(res[k][j], d);
        }
        for (int i = 0; i < n; i++) {
            if (i == k || !a[i][k])
                continue;
            const u128 q = a[i][k];
            for (int j = 0; j < n; j++) {
                a[i][j] = r.sub(a[i][j], r.mul(q, a[k][j]));
                res[i][j] = r.sub(res[i][j], r.mul(q, res[k][j]));
            }
        }
    }
    return true;
}
std::string show(const M& m)
{
    std::string s = "[";
    for (size_t i = 0; i < m.size() && i < 8; i++) {
        for (size_t j = 0; j < m[i].size() && j < 8; j++)
            s += (j ? " " : "") + gx::str(m[i][j]);
        s += "; ";
    }
    return s + "]";
}

template <typename T>
struct Mat {
    vec::Matrix<T> m;
    Mat(const gf::Field<T>& f, const M& x) : m(f, (int)x.size(), (int)x[0].size())
    {
        for (size_t i = 0; i < x.size(); i++)
            for (size_t j = 0; j < x[i].size(); j++)
                m.set((int)i, (int)j, (T)x[i][j]);
    }
    M list()
    {
        M x(m.get_n_rows(), V(m.get_n_cols()));
        for (size_t i = 0; i < x.size(); i++)
            for (size_t j = 0; j < x[i].size(); j++)
                x[i][j] = m.get((int)i, (int)j);
        return x;
    }
};
M random_matrix(pbt::Ctx& c, Values& v, int rows, int cols)
{
    M m(rows, V(cols));
    for (auto& l : m)
        for (auto& x : l)
            x = v.get();
    return m;
}
void same(pbt::Ctx& c, const char* what, const M& got, const M& want)
{
    if (got.size() != want.size() || got[0].size() != want[0].size())
        c.fail("%s: wrong size", what);
    for (size_t i = 0; i < want.size(); i++)
        for (size_t j = 0; j < want[i].size(); j++)
            if (got[i][j] != want[i][j])
                c.fail("%s: (%zu, %zu) is %s instead of %s", what, i, j, GS(got[i][j]), GS(want[i][j]));
}

template <typename T>
void matrices(pbt::Ctx& c, const gf::Field<T>& f, const Ref& r)
{
    Values v(c, r);
    const int max = c.one_in(10) ? 24 : 7;
    // sizes for which the small integers are distinct elements
    const uint64_t q = r.max() > 1000 ? 1000 : (uint64_t)r.max() + 1;
    const int op = c.weighted({4, 3, 1, 2, 2});
    static const char* OPS[] = {"inv", "mul", "vandermonde", "vandermonde_suitable_for_ec", "cauchy"};
    c.tag(OPS[op]);
    c.desc("%s over %s (%zu-bit symbols)", OPS[op], r.name().c_str(), sizeof(T) * 8);
    switch (op) {
    case 0: {
        const int n = 1 + (int)c.draw(max);
        M a;
        const int kind = (int)c.draw(6);
        static const char* KINDS[] = {"any", "permuted triangular", "low rank", "dependent rows",
            "dependent columns", "permuted diagonal"};
        switch (kind) {
        case 0:
            a = random_matrix(c, v, n, n);
            break;
        case 1: {
            a = M(n, V(n, 0));
            for (int i = 0; i < n; i++)
                for (int j = i; j < n; j++)
                    do
                        a[i][j] = v.get();
                    while (i == j && !a[i][j]);
            const auto p = c.permutation(n);
            M b = a;
            for (int i = 0; i < n; i++)
                b[p[i]] = a[i];
            a = b;
            break;
        }
        case 2: {
            const int k = 1 + (int)c.draw(n);
            a = mul(r, random_matrix(c, v, n, k), random_matrix(c, v, k, n));
            break;
        }
        case 3: {
            a = random_matrix(c, v, n, n);
            const int d = (int)c.draw(n);
            V l(n, 0);
            for (int i = 0; i < n; i++) {
                const u128 k = v.get();
                for (int j = 0; i != d && j < n; j++)
                    l[j] = r.add(l[j], r.mul(k, a[i][j]));
            }
            a[d] = l;
            break;
        }
        case 4: {
            a = random_matrix(c, v, n, n);
            const int d = (int)c.draw(n), s = (int)c.draw(n);
            const u128 k = d == s ? 0 : v.get();
            for (int i = 0; i < n; i++)
                a[i][d] = r.mul(k, a[i][s]);
            break;
        }
        default: {
            a = M(n, V(n, 0));
            const auto p = c.permutation(n);
            for (int i = 0; i < n; i++)
                a[i][p[i]] = v.get();
        }
        }
        M e;
        const bool ok = invert(r, a, e);
        c.tag(ok ? "invertible" : "singular");
        c.desc("%s %d x %d: %s", KINDS[kind], n, n, show(a).c_str());
        c.nontrivial();
        Mat<T> m(f, a);
        bool refused = false;
        try {
            m.m.inv();
        } catch (const quadiron::DomainError&) {
            refused = true;
        }
        if (refused == ok)
            c.fail("inv: %s", ok ? "an invertible matrix is refused" : "a singular matrix has an inverse");
        same(c, ok ? "inv" : "inv of a singular matrix changed it", m.list(), ok ? e : a);
        break;
    }
    case 1: {
        const int rows = 1 + (int)c.draw(max), cols = 1 + (int)c.draw(max);
        const M a = random_matrix(c, v, rows, cols), x = random_matrix(c, v, cols, 1);
        c.desc("%d x %d", rows, cols);
        c.nontrivial();
        Mat<T> m(f, a);
        if (c.one_in(8))
            m.m.zero_fill();
        const M b = m.list();
        vec::Vector<T> in(f, cols), out(f, rows);
        for (int i = 0; i < cols; i++)
            in.set(i, (T)x[i][0]);
        for (int i = 0; i < rows; i++)
            out.set(i, (T)v.get());
        m.m.mul(&out, &in);
        const M e = mul(r, b, x);
        for (int i = 0; i < rows; i++)
            if (out.get(i) != (T)e[i][0])
                c.fail("mul: element %d is %s instead of %s", i, GS(out.get(i)), GS(e[i][0]));
        for (int i = 0; i < cols; i++)
            if (in.get(i) != (T)x[i][0])
                c.fail("mul changed its operand");
        same(c, "mul changed the matrix", m.list(), b);
        break;
    }
    default: {
        int rows, cols;
        if (op == 2) {
            rows = 1 + (int)c.draw(std::min<uint64_t>(max, q));
            cols = 1 + (int)c.draw(std::min<uint64_t>(max, q)); // exponents are elements
        } else if (op == 3) {
            if (q < 2)
                c.discard();
            cols = 1 + (int)c.draw(std::min<uint64_t>(max, q - 1));
            rows = 1 + (int)c.draw(std::min<uint64_t>(max, q - cols));
        } else if (r.n) { // i and rows + j are distinct
            rows = 1 + (int)c.draw(std::min<uint64_t>(max, q - 1));
            cols = 1 + (int)c.draw(std::min<uint64_t>(max, q - rows));
        } else { // no sum i + rows + j is a multiple of p
            const int64_t lim = std::min<int64_t>(3 * max, (int64_t)q + 1); // 2 rows + cols <= p + 1
            if (lim < 3)
                c.discard();
            rows = 1 + (int)c.draw(std::min<int64_t>(max, (lim - 1) / 2));
            cols = 1 + (int)c.draw(std::min<int64_t>(max, lim - 2 * rows));
        }
        c.desc("%d x %d", rows, cols);
        c.nontrivial();
        M e(rows, V(cols));
        Mat<T> m(f, e);
        if (op == 2) {
            m.m.vandermonde();
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++)
                    e[i][j] = r.exp(i, j);
        } else if (op == 3) {
            m.m.vandermonde_suitable_for_ec();
            M top(cols, V(cols)), bot(rows, V(cols)), inv;
            for (int j = 0; j < cols; j++) {
                for (int i = 0; i < cols; i++)
                    top[i][j] = r.exp(i, j);
                for (int i = 0; i < rows; i++)
                    bot[i][j] = r.exp(cols + i, j);
            }
            if (!invert(r, top, inv))
                c.fail("model: singular Vandermonde matrix");
            e = mul(r, bot, inv);
        } else {
            m.m.cauchy();
            M k(rows, V(cols));
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++)
                    k[i][j] = r.inv(r.add(i, rows + j));
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++)
                    e[i][j] = r.mul(r.mul(k[i][j], k[0][0]), r.inv(r.mul(k[0][j], k[i][0])));
        }
        same(c, OPS[op], m.list(), e);
    }
    }
}

template <typename T>
void polys(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A)
{
    const Ref& r = A.r;
    pbt::Prng g(c.seed64());
    const int edge = 1 + (int)c.draw(6), zero = (int)c.draw(3);
    auto value = [&]() -> u128 {
        if (zero && g.below(3) < (uint64_t)zero)
            return 0;
        return g.below(edge) ? A.random(g) : A.edge(g);
    };
    struct P {
        std::unique_ptr<vec::Poly<T>> p;
        V x;
        int deg() const
        {
            int d = (int)x.size() - 1;
            while (d >= 0 && !x[d])
                d--;
            return d;
        }
    };
    std::vector<P> ps;
    const u128 chr = r.n ? 2 : r.p;
    c.desc("polynomials over %s (%zu-bit symbols):",
        A.lanes ? ("NF4(" + std::to_string(A.lanes) + ")").c_str() : r.name().c_str(), sizeof(T) * 8);
    c.tag("polynomials");
    auto create = [&](int n) {
        ps.push_back({std::unique_ptr<vec::Poly<T>>(new vec::Poly<T>(f, n)), V(n, 0)});
        ps.back().p->zero_fill();
        c.desc(" #%zu=(%d)", ps.size() - 1, n);
    };
    auto assign = [&](P& p, int count) {
        for (int i = 0; i < count; i++) {
            p.x[i] = value();
            p.p->set(i, (T)p.x[i]);
        }
    };
    create(1 + (int)c.sized(0, 30));
    const int steps = 2 + (int)c.draw(10);
    for (int s = 0; s < steps; s++) {
        const int pi = (int)c.draw(ps.size());
        P& p = ps[pi];
        const int n = (int)p.x.size();
        switch (c.weighted({3, 4, 3, 4, 4, 3, 1, 1, 2})) {
        case 0:
            create(1 + (int)c.sized(0, 30));
            assign(ps.back(), 1 + (int)c.draw(ps.back().x.size()));
            break;
        case 1: {
            const int i = (int)c.draw(n);
            const u128 v = c.one_in(3) ? 0 : value();
            c.desc(" #%d[%d]=%s", pi, i, GS(v));
            p.p->set(i, (T)v);
            p.x[i] = v;
            break;
        }
        case 2:
            c.desc(" #%d assigned", pi);
            assign(p, 1 + (int)c.draw(n));
            break;
        case 3: { // product
            const int bi = (int)c.draw(ps.size());
            P& b = ps[bi];
            const int d = (int)c.draw(n);
            c.desc(" #%d.mul(#%d,%d)", pi, bi, d);
            c.tag("poly mul");
            V e(n, 0);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < (int)b.x.size() && i + j <= d; j++)
                    e[i + j] = A.add(e[i + j], A.mul(p.x[i], b.x[j]));
            p.p->mul(b.p.get(), d);
            p.x = e;
            break;
        }
        case 4: {
            if (p.deg() + 1 >= n)
                break;
            const u128 k = value();
            c.desc(" #%d*(x+%s)", pi, GS(k));
            c.tag("poly mul_to_x_plus_coef");
            p.p->mul_to_x_plus_coef((T)k);
            V e(n, 0);
            for (int i = 0; i < n; i++) {
                e[i] = A.mul(p.x[i], k);
                if (i)
                    e[i] = A.add(e[i], p.x[i - 1]);
            }
            p.x = e;
            break;
        }
        case 5: {
            c.desc(" #%d.derivative", pi);
            c.tag("poly derivative");
            if (A.lanes)
                p.p->derivative_nf4();
            else
                p.p->derivative();
            V e(n, 0);
            for (int i = 1; i < n; i++)
                e[i - 1] = A.mul(A.replicate(i % chr), p.x[i]);
            p.x = e;
            break;
        }
        case 6:
            c.desc(" #%d.neg", pi);
            p.p->neg();
            for (auto& x : p.x)
                x = A.sub(0, x);
            break;
        case 7:
            c.desc(" #%d.zero_fill", pi);
            p.p->zero_fill();
            p.x.assign(n, 0);
            break;
        default: {
            c.desc(" #%zu=copy(#%d)", ps.size(), pi);
            V x = p.x;
            vec::Poly<T>* q = new vec::Poly<T>(*p.p);
            ps.push_back({std::unique_ptr<vec::Poly<T>>(q), x});
        }
        }
        for (size_t i = 0; i < ps.size(); i++) {
            P& a = ps[i];
            for (size_t j = 0; j < a.x.size(); j++)
                if (a.p->get((int)j) != (T)a.x[j])
                    c.fail("#%zu: coefficient %zu is %s instead of %s", i, j, GS(a.p->get((int)j)),
                        GS(a.x[j]));
            if (a.p->get_deg() != a.deg())
                c.fail("#%zu: get_deg() is %d instead of %d", i, a.p->get_deg(), a.deg());
            u128 y = value(), e = 0;
            for (size_t j = a.x.size(); j-- > 0;)
                e = A.add(A.mul(e, y), a.x[j]);
            if (a.p->eval((T)y) != (T)e)
                c.fail("#%zu: eval(%s) is %s instead of %s", i, GS(y), GS(a.p->eval((T)y)), GS(e));
        }
    }
    c.nontrivial();
}

template <typename T>
const gf::Field<T>* packed(int)
{
    return nullptr;
}
template <>
const gf::Field<uint64_t>* packed(int n)
{
    return &gx::nf4<uint64_t>(n);
}
template <>
const gf::Field<__uint128_t>* packed(int n)
{
    return &gx::nf4<__uint128_t>(n);
}
template <typename T>
void run(pbt::Ctx& c)
{
    const bool mat = c.coin();
    if (!mat && sizeof(T) >= 8 && c.one_in(5)) {
        Alg A;
        A.lanes = sizeof(T) == 16 && c.coin() ? 4 : 2;
        A.r = gx::Ref::prime(65537);
        return polys<T>(c, *packed<T>(A.lanes), A);
    }
    // primes of 128-bit symbols have no division
    const auto& d = c.coin() && !(mat && sizeof(T) == 16) ? gx::draw_prime_field<T>(c) : gx::draw_binary<T>(c);
    if (mat)
        return matrices<T>(c, *d.f, d.r);
    Alg A;
    A.r = d.r;
    polys<T>(c, *d.f, A);
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({4, 4, 3, 2})) {
    case 0:
        return run<uint16_t>(c);
    case 1:
        return run<uint32_t>(c);
    case 2:
        return run<uint64_t>(c);
    default:
        return run<__uint128_t>(c);
    }
}
