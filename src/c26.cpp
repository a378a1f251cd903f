/* C26: packed NF4 elements against one 65537-arithmetic per lane. */
#include "gfx.h"
using gx::u128;
namespace gf = quadiron::gf;

namespace {
const uint64_t P = 65537;
typedef std::vector<uint32_t> Lanes;

template <typename T>
T join(const Lanes& l, int width)
{
    T v = 0;
    for (size_t i = l.size(); i-- > 0;)
        v |= (T)l[i] << (width * i);
    return v;
}
uint32_t draw_lane(pbt::Ctx& c)
{
    switch (c.weighted({3, 3, 3})) {
    case 0:
        return c.pick({0u, 1u, 2u, 65535u});
    case 1:
        return 65536;
    default:
        return (uint32_t)c.draw(65537);
    }
}
Lanes draw(pbt::Ctx& c, int n)
{
    Lanes l(n);
    for (auto& x : l)
        x = draw_lane(c);
    return l;
}
std::string show(const Lanes& l)
{
    std::string s = "(";
    for (auto x : l)
        s += std::to_string(x) + " ";
    s.back() = ')';
    return s;
}
template <typename T>
const gf::NF4<T>& field(int n)
{
    static std::unique_ptr<gf::NF4<T>> cache[5];
    if (!cache[n])
        cache[n] = gf::alloc<gf::NF4<T>, gf::NF4<T>>((unsigned)n);
    return *cache[n];
}
/// a copy of the lanes without spare capacity, at a chosen misalignment
template <typename T>
struct Arr {
    std::vector<uint8_t> raw;
    T* p;
    size_t n;
    Arr(const std::vector<T>& v) : raw((v.size() + 2) * sizeof(T) + 32, 0xa5), n(v.size())
    {
        uintptr_t a = ((uintptr_t)raw.data() + 31) / 32 * 32;
        p = (T*)a;
        std::copy(v.begin(), v.end(), p);
    }
    bool guard() const
    {
        for (const uint8_t* q = (const uint8_t*)(p + n); q < raw.data() + raw.size(); q++)
            if (*q != 0xa5)
                return false;
        return true;
    }
};

template <typename T>
void run(pbt::Ctx& c)
{
    const int n = 1 + c.draw(sizeof(T) / 4);
    const auto& f = field<T>(n);
    const auto la = draw(c, n), lb = draw(c, n);
    const T a = join<T>(la, 32), b = join<T>(lb, 32);
    c.tag("NF4<" + std::to_string(sizeof(T) * 8) + ">(" + std::to_string(n) + ")");
    c.desc("NF4<%d>(%d) a=%s b=%s", (int)sizeof(T) * 8, n, show(la).c_str(), show(lb).c_str());
    Lanes w(n);
#define LANES(what, got, expr)                                                        \
    do {                                                                              \
        for (int i = 0; i < n; i++) {                                                 \
            const uint64_t x = la[i], y = lb[i];                                      \
            (void)x;                                                                  \
            (void)y;                                                                  \
            w[i] = (uint32_t)(expr);                                                  \
        }                                                                             \
        const T g_ = (got);                                                           \
        if (g_ != join<T>(w, 32))                                                     \
            c.fail("%s: got %s expected lanes %s", what, GS(g_), show(w).c_str());    \
    } while (0)
    LANES("a + b", f.add(a, b), (x + y) % P);
    LANES("a - b", f.sub(a, b), (x + P - y) % P);
    LANES("-a", f.neg(a), (P - x) % P);
    LANES("a * b", f.mul(a, b), x * y % P);
    LANES("a ^ b", f.exp(a, b), ref::powmod(x, y, P));
    bool div = true;
    for (auto y : lb)
        div &= y != 0;
    if (div) {
        LANES("1 / b", f.inv(b), ref::invmod(y, P));
        LANES("a / b", f.div(a, b), x * ref::invmod(y, P) % P);
    }
    const uint32_t one = draw_lane(c);
    LANES("replicate", f.replicate((T)one), one);
    LANES("unit", f.get_unit(), 1);
    LANES("card", f.card(), P);
    LANES("card_minus_one", f.card_minus_one(), P - 1);
    switch (c.draw(6)) {
    case 0: { // packed <-> unpacked words
        c.tag("pack");
        Lanes lo(n);
        uint32_t flag = 0;
        for (int i = 0; i < n; i++) {
            lo[i] = la[i] & 0xffff;
            if (la[i] == 65536)
                flag |= 1u << i;
        }
        const auto g = f.unpack(a);
        if (g.values != join<T>(lo, 16) || g.flag != flag)
            c.fail("unpack: values %s flag %u, expected %s flag %u", GS(g.values), g.flag,
                GS(join<T>(lo, 16)), flag);
        quadiron::GroupedValues<T> h;
        h.values = (T)c.draw(0);
        h.flag = (uint32_t)c.draw(0);
        f.unpack(a, h);
        if (h.values != g.values || h.flag != g.flag)
            c.fail("unpack(a, out): values %s flag %u", GS(h.values), h.flag);
        LANES("pack(unpack)", f.pack(g.values, g.flag), x);
        // any words with any flags
        Lanes words(n);
        for (auto& x : words)
            x = c.coin() ? (uint32_t)c.draw(65536) : c.pick({0u, 65535u});
        const uint32_t fl = (uint32_t)c.draw(1u << n);
        LANES("pack(words)", f.pack(join<T>(words, 16)), words[i]);
        LANES("pack(words, flags)", f.pack(join<T>(words, 16), fl),
            (fl >> i & 1) ? 65536 : words[i]);
        break;
    }
    case 1: { // arrays
        c.tag("arrays");
        const int len = (int)c.sized(0, 70);
        std::vector<T> xs(len), ys(len), prod(len), negs(len), sums(len), diffs(len), scaled(len);
        pbt::Prng r(c.seed64());
        const int edge = 1 + (int)c.draw(6);
        for (int j = 0; j < len; j++) {
            Lanes p(n), q(n), m(n), ng(n), sm(n), df(n), sc(n);
            for (int i = 0; i < n; i++) {
                p[i] = r.below(edge) == 0 ? 65536 : r.below(P);
                q[i] = r.below(edge) == 0 ? 65536 : r.below(P);
                m[i] = (uint64_t)p[i] * q[i] % P;
                ng[i] = (P - p[i]) % P;
                sm[i] = ((uint64_t)p[i] + q[i]) % P;
                df[i] = ((uint64_t)p[i] + P - q[i]) % P;
                sc[i] = (uint64_t)la[i] * p[i] % P;
            }
            xs[j] = join<T>(p, 32);
            ys[j] = join<T>(q, 32);
            prod[j] = join<T>(m, 32);
            negs[j] = join<T>(ng, 32);
            sums[j] = join<T>(sm, 32);
            diffs[j] = join<T>(df, 32);
            scaled[j] = join<T>(sc, 32);
        }
        c.desc("arrays of %d", len);
        auto same = [&](const char* what, const Arr<T>& g, const std::vector<T>& w) {
            for (int j = 0; j < len; j++)
                if (g.p[j] != w[j])
                    c.fail("%s: element %d of %d is %s, expected %s", what, j, len, GS(g.p[j]), GS(w[j]));
            if (!g.guard())
                c.fail("%s wrote beyond the array", what);
        };
        {
            Arr<T> x(xs), y(ys);
            f.hadamard_mul(len, x.p, y.p);
            same("hadamard_mul", x, prod);
            same("hadamard_mul (second operand)", y, ys);
        }
        {
            Arr<T> x(xs);
            f.neg((size_t)len, x.p);
            same("neg", x, negs);
        }
        {
            Arr<T> x(xs), y(ys);
            f.add_two_bufs(x.p, y.p, len);
            same("add_two_bufs", y, sums);
        }
        {
            Arr<T> x(xs), y(ys), z(ys);
            f.sub_two_bufs(x.p, y.p, z.p, len);
            same("sub_two_bufs", z, diffs);
        }
        {
            Arr<T> x(xs), y(ys);
            f.mul_coef_to_buf(a, x.p, y.p, len);
            same("mul_coef_to_buf", y, scaled);
        }
        break;
    }
    case 2: { // roots and their powers
        c.tag("roots");
        const uint32_t len = 1u << c.draw(17);
        const T root = f.get_nth_root((T)len);
        const uint64_t w1 = ref::powmod(ref::smallest_generator(P), (P - 1) / len, P);
        LANES("get_nth_root", root, w1);
        const int m = (int)c.sized(1, 40);
        quadiron::vec::Vector<T> W(f, m);
        f.compute_omegas(W, m, a);
        for (int k = 0; k < m; k++)
            LANES("compute_omegas", W.get(k), ref::powmod(x, k, P));
        break;
    }
    case 3: {
        c.tag("rand");
        const T r = f.rand();
        T rest = r;
        for (int i = 0; i < n; i++) {
            const uint32_t x = (uint32_t)rest;
            c.check(x > 0 && x <= 65536, "a lane of rand is not a non-zero element");
            rest = (rest >> 16) >> 16;
        }
        c.check(rest == 0 || n * 4 == (int)sizeof(T), "rand sets bits beyond its lanes");
        const int d = 1 + (int)c.draw(65536);
        LANES("get_inv_n_mod_p", f.get_inv_n_mod_p(d), ref::invmod(d, P));
        break;
    }
    case 4: {
        if (!c.one_in(30))
            break;
        c.tag("log");
        Lanes e(n), y(n), base(n);
        for (int i = 0; i < n; i++) {
            base[i] = c.pick({3u, 2u, 65536u, 5u});
            e[i] = 1 + c.draw(base[i] == 65536 ? 2 : base[i] == 2 ? 32 : 300);
            y[i] = ref::powmod(base[i], e[i], P);
        }
        LANES("log", f.log(join<T>(base, 32), join<T>(y, 32)), e[i]);
        break;
    }
    default: {
        if (!c.one_in(60))
            break;
        c.tag("moved");
        auto first = gf::create<gf::NF4<T>>((unsigned)n);
        gf::NF4<T> g(std::move(first));
        LANES("a * b after a move", g.mul(a, b), x * y % P);
        LANES("pack(unpack) after a move", g.pack(g.unpack(a).values, g.unpack(a).flag), x);
        LANES("unit after a move", g.get_unit(), 1);
        LANES("root after a move", g.get_nth_root(4), ref::powmod(3, 16384, P));
    }
    }
    c.nontrivial();
}
} // namespace

void property(pbt::Ctx& c)
{
    quadiron::prng().seed(c.draw(1 << 16));
    switch (c.weighted({2, 3, 5})) {
    case 0:
        return run<uint32_t>(c);
    case 1:
        return run<uint64_t>(c);
    default:
        return run<u128>(c);
    }
}
