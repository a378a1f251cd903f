/* C13: primitive roots, orders, logarithms, code lengths. */
#include "gfx.h"
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
using gx::u128;

namespace {
u128 gcd(u128 a, u128 b)
{
    while (b) {
        const u128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
struct Group {
    std::vector<u128> primes;
    std::vector<u128> divisors; // sorted
};
const Group& group(const gx::Ref& r)
{
    static std::map<std::string, Group> cache;
    Group& g = cache[r.name()];
    if (g.divisors.empty()) {
        g.primes = gx::order_primes(r);
        g.divisors = {1};
        u128 h = r.max();
        for (u128 p : g.primes) {
            const size_t n = g.divisors.size();
            u128 q = 1;
            while (h % p == 0) {
                h /= p;
                q *= p;
                for (size_t i = 0; i < n; i++)
                    g.divisors.push_back(g.divisors[i] * q);
            }
        }
        if (h != 1) {
            fprintf(stderr, "incomplete factorisation of %s\n", r.name().c_str());
            abort();
        }
        std::sort(g.divisors.begin(), g.divisors.end());
    }
    return g;
}
u128 order(const gx::Ref& r, const Group& g, u128 x)
{
    u128 o = r.max();
    for (u128 p : g.primes)
        while (o % p == 0 && r.exp(x, o / p) == 1)
            o /= p;
    return o;
}

// An empty folder as the current one, as long as it lives
struct Scratch {
    char dir[32];
    int old;
    Scratch()
    {
        strcpy(dir, "c13.XXXXXX");
        old = open(".", O_RDONLY | O_DIRECTORY);
        if (old < 0 || !mkdtemp(dir) || chdir(dir)) {
            perror("scratch folder");
            abort();
        }
    }
    ~Scratch()
    {
        if (DIR* d = opendir(".")) {
            while (dirent* e = readdir(d))
                if (e->d_name[0] != '.')
                    unlink(e->d_name);
            closedir(d);
        }
        if (fchdir(old))
            abort();
        close(old);
        rmdir(dir);
    }
};

// Powers of roots of unity of small fields, kept in files between calls
template <typename T>
void cached_powers(pbt::Ctx& c)
{
    c.tag("powers kept in a file");
    static const int qs[] = {3, 5, 7, 13, 17, 31, 97, 193, 257, 521};
    const u128 w0 = c.range(2, 12);
    Scratch scratch;
    const int calls = (int)c.range(1, 4);
    for (int i = 0; i < calls; i++) {
        const T q = (T)qs[c.draw(10)];
        auto f = quadiron::gf::create<quadiron::gf::Prime<T>>(q);
        const u128 w = w0 % q ? w0 % q : 1;
        u128 o = 1, v = w;
        for (; v != 1; o++)
            v = v * w % q;
        const int n = (int)(o * c.range(1, std::min<int64_t>(3, (int)((q - 1) / o))));
        c.desc("powers of %s modulo %s to %d", GS(w), GS((u128)q), n);
        quadiron::vec::Vector<T> W(f, n + 8);
        for (int j = 0; j < n + 8; j++)
            W.set(j, 77);
        f.compute_omegas_cached(W, n, (T)w);
        v = 1;
        for (int j = 0; j < n + 8; j++) {
            if (W.get(j) != (j < n ? (T)v : 77))
                c.fail("power %d is %s, expected %s", j, GS(W.get(j)), GS(j < n ? v : 77));
            v = v * w % q;
        }
    }
}
template <>
void cached_powers<u128>(pbt::Ctx&)
{
    // does not compile: there is no text input of 128-bit integers
}

template <typename T>
void check_field(pbt::Ctx& c, const gx::Dut<T>& d)
{
    const auto& f = *d.f;
    const gx::Ref& r = d.r;
    const Group& g = group(r);
    const u128 h = r.max();
    c.tag((r.n ? "binary<" : "prime<") + std::to_string(sizeof(T) * 8) + ">");
    c.desc("%s<%d>", r.name().c_str(), (int)sizeof(T) * 8);
    c.nontrivial();
    u128 x = gx::draw_elt(c, r);
    if (x == 0)
        x = 1;
    if (c.coin()) // an element of small order
        x = r.exp(x, h / g.divisors[c.draw(std::min<size_t>(g.divisors.size(), 60))]);
    switch (c.draw(6)) {
    case 0: {
        c.tag("primitive root");
        const u128 w = f.get_primitive_root();
        c.desc("primitive root %s", GS(w));
        c.check(w != 0 && w <= h, "the primitive root is not a non-zero element");
        for (u128 p : g.primes)
            if (h != 1 && r.exp(w, h / p) == 1)
                c.fail("the primitive root %s has order dividing %s", GS(w), GS(h / p));
        c.check(f.get_root() == (T)w, "get_root differs");
        c.check(f.check_primitive_root((T)w) && f.is_primitive_root((T)w),
            "the primitive root is not recognised");
        break;
    }
    case 1: {
        c.tag("n-th root");
        u128 n;
        bool beyond = false; // more than the order of the group
        switch (c.draw(4)) {
        case 3:
            n = (u128)(T)(h + 1 + (c.coin() ? c.draw(300) : (u128)c.draw(300) * g.divisors[c.draw(g.divisors.size())]));
            beyond = n > h;
            break;
        case 0:
            n = 1 + c.draw(300);
            break;
        case 1:
            n = g.divisors[c.draw(g.divisors.size())] * (1 + c.draw(3));
            break;
        default:
            n = gx::draw_elt(c, r);
        }
        if (n == 0 || (n > h && !beyond))
            n = 1 + n % h;
        c.desc("n=%s", GS(n));
        if (beyond)
            c.tag("n above the order");
        const u128 w = f.get_nth_root((T)n);
        const u128 want = gcd(n, h);
        c.check(w != 0 && w <= h, "the root is not a non-zero element");
        if (order(r, g, w) != want)
            c.fail("root %s has order %s, expected %s", GS(w), GS(order(r, g, w)), GS(want));
        // powers of it
        {
            const int m = (int)c.sized(1, h < 30 ? (int)h : 30);
            quadiron::vec::Vector<T> W(f, m);
            f.compute_omegas(W, m, (T)w);
            u128 v = 1;
            for (int i = 0; i < m; i++) {
                if (W.get(i) != (T)v)
                    c.fail("power %d of %s is %s, expected %s", i, GS(w), GS(W.get(i)), GS(v));
                v = r.mul(v, w);
            }
        }
        if (c.one_in(12))
            cached_powers<T>(c);
        break;
    }
    case 2: {
        c.tag("order");
        const u128 o = order(r, g, x);
        c.desc("x=%s", GS(x));
        if (f.get_order((T)x) != (T)o)
            c.fail("order of %s is %s, got %s", GS(x), GS(o), GS(f.get_order((T)x)));
        c.check(f.is_primitive_root((T)x) == (o == h), "is_primitive_root is wrong");
        c.check(f.check_primitive_root((T)x) == (o == h), "check_primitive_root is wrong");
        const u128 m = c.coin() ? o : std::min<u128>(h, 1 + c.draw(50));
        if (m < 3000) {
            c.desc("order %s?", GS(m));
            c.check(f.check_order_naive((T)x, (T)m) == (m == o), "check_order_naive is wrong");
        }
        break;
    }
    case 3: {
        c.tag("logarithm");
        if (h > 3000) {
            // one that is known to exist; the library counts up to it
            if (!c.one_in(8))
                break;
            const u128 e = 1 + c.draw(c.one_in(6) ? (r.n && r.n <= 16 ? 65535 : 20000) : 300);
            const u128 p = r.exp(x, e);
            c.desc("log_%s(%s)", GS(x), GS(p));
            const u128 l = f.log((T)x, (T)p);
            if (r.exp(x, l) != p)
                c.fail("%s ^ %s is not %s", GS(x), GS(l), GS(p));
            c.tag("logarithm in a large field");
            break;
        }
        const u128 y = 1 + (u128)c.draw((uint64_t)h);
        c.desc("log_%s(%s)", GS(x), GS(y));
        bool exists = false;
        u128 v = 1;
        for (u128 i = 0; i < h; i++) {
            exists |= v == y;
            v = r.mul(v, x);
        }
        try {
            const u128 l = f.log((T)x, (T)y);
            if (!exists)
                c.fail("returned %s although there is no logarithm", GS(l));
            if (r.exp(x, l) != y)
                c.fail("%s ^ %s is not %s", GS(x), GS(l), GS(y));
        } catch (const quadiron::NoSolution&) {
            c.check(!exists, "an existing logarithm is reported missing");
        }
        // squares (the exponent 2 is not an element of a field of two elements)
        if (h < 2)
            break;
        bool square = false;
        for (u128 i = 0; i <= h; i++)
            square |= r.mul(i, i) == y;
        c.check(f.is_quadratic_residue((T)y) == square, "is_quadratic_residue is wrong");
        break;
    }
    case 4:
    default: {
        c.tag("code length");
        u128 n;
        const size_t nd = g.divisors.size();
        const u128 dv = g.divisors[c.draw(c.coin() ? std::min<size_t>(nd, 50) : nd)];
        bool beyond = false; // more than the order of the group
        switch (c.draw(4)) {
        case 3:
            n = (u128)(T)(h + 1 + (c.coin() ? c.draw(300) : (u128)c.draw(300) * g.divisors[c.draw(g.divisors.size())]));
            beyond = n > h;
            break;
        case 0:
            n = 1 + c.draw(300);
            break;
        case 1:
            n = dv + (u128)c.range(0, 2) - 1;
            break;
        default:
            n = 1 + c.draw(1 << 16);
        }
        if (n < 1)
            n = 1;
        if (n > h)
            n = h;
        c.desc("length %s", GS(n));
        const u128 best = *std::lower_bound(g.divisors.begin(), g.divisors.end(), n);
        // the library looks for it by trial: keep that short
        if (best - n < 200000 && (n < ((u128)1 << 50) || dv == n || h / n < 200000)) {
            const u128 l = f.get_code_len((T)n);
            if (l != best)
                c.fail("get_code_len gives %s, the smallest divisor is %s", GS(l), GS(best));
        }
        const u128 l = f.get_code_len_high_compo((T)n);
        if (l == 0 || h % l || l < n)
            c.fail("get_code_len_high_compo gives %s", GS(l));
        for (u128 p : g.primes)
            if (l % p == 0) {
                // one smallest factor less is too short
                if (l / p >= n)
                    c.fail("get_code_len_high_compo gives %s, %s would do", GS(l), GS(l / p));
                break;
            }
        // whatever the length, the root of that order separates the fragments
        const u128 w = f.get_nth_root((T)l);
        if (order(r, g, w) != l)
            c.fail("the root for length %s has order %s", GS(l), GS(order(r, g, w)));
    }
    }
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({4, 4, 4, 4, 1})) {
    case 0:
        return check_field(c, gx::draw_prime_field<uint32_t>(c));
    case 1:
        return check_field(c, gx::draw_prime_field<uint64_t>(c));
    case 2:
        return check_field(c, gx::draw_binary<uint32_t>(c));
    case 3:
        return check_field(c, gx::draw_binary<uint64_t>(c));
    default:
        return check_field(c, gx::draw_binary<u128>(c));
    }
}
