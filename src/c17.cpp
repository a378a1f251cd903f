/* C17: whole-buffer operations against the single-element definition. */
#include "gfx.h"
using gx::u128;
namespace gf = quadiron::gf;
namespace vec = quadiron::vec;

using gx::Alg;
using gx::nf4;

namespace {

/// an aligned array between guard bytes, or ending exactly with its allocation
template <typename T>
struct Arr {
    uint8_t* raw;
    T* p;
    size_t n, tail;
    static const size_t HEAD = 64;
    Arr(size_t n, bool guarded) : n(n), tail(guarded ? 64 : 0)
    {
        if (posix_memalign((void**)&raw, 64, HEAD + n * sizeof(T) + tail))
            abort();
        memset(raw, 0xa5, HEAD + n * sizeof(T) + tail);
        p = (T*)(raw + HEAD);
    }
    Arr(const Arr&) = delete;
    ~Arr()
    {
        free(raw);
    }
    bool guard() const
    {
        for (size_t i = 0; i < HEAD; i++)
            if (raw[i] != 0xa5)
                return false;
        for (size_t i = 0; i < tail; i++)
            if (raw[HEAD + n * sizeof(T) + i] != 0xa5)
                return false;
        return true;
    }
};

template <typename T>
void run(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A)
{
    const size_t len = c.one_in(12) ? c.sized(0, 1500) : c.sized(0, 150);
    const bool guarded = c.coin();
    pbt::Prng g(c.seed64());
    const int edge = 1 + (int)c.draw(6);
    auto value = [&]() { return (T)(g.below(edge) ? A.edge(g) : A.random(g)); };
    auto fill = [&](T* p, size_t n) {
        for (size_t i = 0; i < n; i++)
            p[i] = value();
    };
    auto coefficient = [&]() -> T {
        switch (c.weighted({2, 2, 2, 6})) {
        case 0:
            return 0;
        case 1:
            return (T)A.replicate(1);
        case 2:
            return (T)A.replicate(A.r.max());
        default:
            return value();
        }
    };
    typedef std::vector<T> V;
    const int op = (int)c.draw(9);
    static const char* NAMES[] = {"mul_coef_to_buf", "add_two_bufs", "sub_two_bufs", "neg",
        "hadamard_mul", "mul_vec_to_vecp", "add_vecp_to_vecp", "sub_vecp_to_vecp", "neg(Buffers)"};
    const int alias = (int)c.draw(3);
    c.tag(NAMES[op]);
    const std::string nm =
        A.lanes ? "NF4(" + std::to_string(A.lanes) + ")" : A.r.name();
    c.tag(A.lanes ? "NF4" : A.r.n ? "binary" : "prime");
    c.desc("%s over %s (%zu-bit symbols), length %zu, alias %d, edge 1/%d", NAMES[op], nm.c_str(),
        sizeof(T) * 8, len, alias, edge);
    if (len)
        c.nontrivial();
    auto same = [&](const char* what, const T* got, const V& want) {
        for (size_t i = 0; i < want.size(); i++)
            if (got[i] != want[i])
                c.fail("%s: position %zu of %zu is %s instead of %s", what, i, want.size(),
                    GS(got[i]), GS(want[i]));
    };
    if (op < 5) {
        Arr<T> a(len, guarded), b(len, guarded), d(len, guarded);
        fill(a.p, len);
        fill(b.p, len);
        fill(d.p, len);
        const V va(a.p, a.p + len), vb(b.p, b.p + len), vd(d.p, d.p + len);
        V wa = va, wb = vb, wd = vd, r(len);
        switch (op) {
        case 0: {
            const T k = coefficient();
            for (size_t i = 0; i < len; i++)
                r[i] = (T)A.mul(k, va[i]);
            c.desc(" coef=%s", GS(k));
            f.mul_coef_to_buf(k, a.p, alias ? b.p : a.p, len);
            (alias ? wb : wa) = r;
            break;
        }
        case 1: {
            T* dst = alias ? b.p : a.p;
            for (size_t i = 0; i < len; i++)
                r[i] = (T)A.add(va[i], (alias ? vb : va)[i]);
            f.add_two_bufs(a.p, dst, len);
            (alias ? wb : wa) = r;
            break;
        }
        case 2: {
            const bool selfsub = c.one_in(8);
            for (size_t i = 0; i < len; i++)
                r[i] = (T)A.sub(va[i], (selfsub ? va : vb)[i]);
            f.sub_two_bufs(a.p, selfsub ? a.p : b.p, alias == 0 ? a.p : alias == 1 ? b.p : d.p, len);
            (alias == 0 ? wa : alias == 1 ? wb : wd) = r;
            break;
        }
        case 3:
            for (size_t i = 0; i < len; i++)
                wa[i] = (T)A.sub(0, va[i]);
            f.neg(len, a.p);
            break;
        case 4:
            for (size_t i = 0; i < len; i++)
                wa[i] = (T)A.mul(va[i], (alias ? vb : va)[i]);
            f.hadamard_mul((int)len, a.p, alias ? b.p : a.p);
            break;
        }
        same("first buffer", a.p, wa);
        same("second buffer", b.p, wb);
        same("third buffer", d.p, wd);
        if (!a.guard() || !b.guard() || !d.guard())
            c.fail("bytes outside the buffers changed");
        return;
    }
    // lists of buffers
    const int n = (int)c.sized(1, 9);
    std::vector<std::unique_ptr<Arr<T>>> mem[3];
    std::vector<T*> ptr[3];
    std::vector<V> was[3], want[3];
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < n; i++) {
            mem[k].emplace_back(new Arr<T>(len, guarded));
            T* p = mem[k].back()->p;
            fill(p, len);
            ptr[k].push_back(p);
            was[k].emplace_back(p, p + len);
        }
    for (int k = 0; k < 3; k++)
        want[k] = was[k];
    vec::Buffers<T> X(n, len, ptr[0]), Y(n, len, ptr[1]), Z(n, len, ptr[2]);
    switch (op) {
    case 5: {
        vec::Vector<T> u(f, n);
        std::string s;
        for (int i = 0; i < n; i++) {
            u.set(i, coefficient());
            s += gx::str(u.get(i)) + " ";
            for (size_t j = 0; j < len; j++)
                want[alias ? 1 : 0][i][j] = (T)A.mul(u.get(i), was[0][i][j]);
        }
        c.desc(" coefs=%s", s.c_str());
        f.mul_vec_to_vecp(u, X, alias ? Y : X);
        break;
    }
    case 6:
        for (int i = 0; i < n; i++)
            for (size_t j = 0; j < len; j++)
                want[1][i][j] = (T)A.add(was[0][i][j], was[1][i][j]);
        f.add_vecp_to_vecp(X, Y);
        break;
    case 7: {
        const int d = alias;
        for (int i = 0; i < n; i++)
            for (size_t j = 0; j < len; j++)
                want[d][i][j] = (T)A.sub(was[0][i][j], was[1][i][j]);
        f.sub_vecp_to_vecp(X, Y, d == 0 ? X : d == 1 ? Y : Z);
        break;
    }
    case 8:
        for (int i = 0; i < n; i++)
            for (size_t j = 0; j < len; j++)
                want[0][i][j] = (T)A.sub(0, was[0][i][j]);
        f.neg(X);
        break;
    }
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < n; i++) {
            const std::string w = "list " + std::to_string(k) + " buffer " + std::to_string(i);
            same(w.c_str(), mem[k][i]->p, want[k][i]);
            if (!mem[k][i]->guard())
                c.fail("%s: bytes outside changed", w.c_str());
        }
}

template <typename T>
void any_prime(pbt::Ctx& c)
{
    const auto& d = gx::draw_prime_field<T>(c);
    run<T>(c, *d.f, Alg{d.r});
}
template <typename T>
void fixed_prime(pbt::Ctx& c, uint64_t p)
{
    const auto& d = gx::prime_field<T>(p);
    run<T>(c, *d.f, Alg{d.r});
}
template <typename T>
void any_binary(pbt::Ctx& c)
{
    const auto& d = gx::draw_binary<T>(c);
    run<T>(c, *d.f, Alg{d.r});
}
template <typename T>
void any_nf4(pbt::Ctx& c)
{
    const int n = 1 + (int)c.draw(sizeof(T) / 4);
    Alg A{gx::Ref::prime(65537)};
    A.lanes = n;
    run<T>(c, nf4<T>(n), A);
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({5, 5, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2})) {
    case 0:
        return fixed_prime<uint32_t>(c, 65537);
    case 1:
        return fixed_prime<uint16_t>(c, 257);
    case 2:
        return any_prime<uint32_t>(c);
    case 3:
        return any_prime<uint16_t>(c);
    case 4:
        return any_prime<uint64_t>(c);
    case 5:
        return fixed_prime<__uint128_t>(c, 65537);
    case 6:
        return any_binary<uint16_t>(c);
    case 7:
        return any_binary<uint32_t>(c);
    case 8:
        return any_binary<uint64_t>(c);
    case 9:
        return any_binary<__uint128_t>(c);
    case 10:
        return any_nf4<uint32_t>(c);
    case 11:
        return any_nf4<uint64_t>(c);
    default:
        return any_nf4<__uint128_t>(c);
    }
}
