/* C12: field arithmetic against exact arithmetic. */
#include "gfx.h"
using gx::u128;

namespace {
template <typename T>
void ops(pbt::Ctx& c, const gx::Dut<T>& d, u128 a, u128 b, bool small)
{
    const auto& f = *d.f;
    const gx::Ref& r = d.r;
    const bool can_divide = r.n || sizeof(T) < 16;
#define EQ(what, got, want)                                                            \
    do {                                                                               \
        const u128 g_ = (got), w_ = (want);                                            \
        if (g_ != w_)                                                                  \
            c.fail("%s in %s with a=%s b=%s: got %s, expected %s", what, r.name().c_str(), \
                GS(a), GS(b), GS(g_), GS(w_));                                         \
    } while (0)
    EQ("a + b", f.add(a, b), r.add(a, b));
    EQ("a - b", f.sub(a, b), r.sub(a, b));
    EQ("-a", f.neg(a), r.neg(a));
    EQ("a * b", f.mul(a, b), r.mul(a, b));
    if (b != 0 && can_divide) {
        const u128 i = r.inv(b);
        EQ("1 / b", f.inv(b), i);
        EQ("a / b", f.div(a, b), r.mul(a, i));
    }
    if (!small)
        return;
    EQ("a ^ b", f.exp(a, b), r.exp(a, b));
}

template <typename T>
void check_field(pbt::Ctx& c, const gx::Dut<T>& d)
{
    const auto& f = *d.f;
    const gx::Ref& r = d.r;
    const u128 m = r.max();
    c.tag(r.n ? "binary" : "prime");
    c.tag((r.n ? "binary<" : "prime<") + std::to_string(sizeof(T) * 8) + ">");
    c.desc("%s<%d>", r.name().c_str(), (int)sizeof(T) * 8);
    u128 a = 0, b = 0;
    EQ("card_minus_one", f.card_minus_one(), m);
    c.check(f.check((T)0) && f.check((T)m), "0 or the largest element is refused");
    if (m + 1 != 0 && (u128)(T)(m + 1) == m + 1) {
        EQ("card", f.card(), m + 1);
        c.check(!f.check((T)(m + 1)), "a value beyond the field is accepted");
    }
    EQ("get_unit", f.get_unit(), 1);
    EQ("characteristic", f.get_p(), r.n ? 2 : r.p);
    EQ("degree", (u128)f.get_n(), r.n ? r.n : 1);
    if (m < 40 && c.coin()) {
        c.desc("all pairs");
        for (a = 0; a <= m; a++)
            for (b = 0; b <= m; b++)
                ops(c, d, a, b, true);
        c.nontrivial();
        return;
    }
    for (int i = 0; i < 4; i++) {
        a = gx::draw_elt(c, r);
        b = c.one_in(8) ? a : gx::draw_elt(c, r);
        if (i == 0)
            c.desc("a=%s b=%s", GS(a), GS(b));
        ops(c, d, a, b, true);
    }
    // exponents of any size
    const T e = (T)c.sized(0, 1 << 20);
    b = e;
    if (e < 200)
        EQ("exp_naive", f.exp_naive(a, e), r.exp(a, e));
    EQ("exp_quick", f.exp_quick(a, e), r.exp(a, e));
    EQ("replicate", f.replicate(a), a);
    if (!r.n && a != 0 && r.p > 2)
        EQ("inverse by exponentiation",
            static_cast<gx::gf::Prime<T>&>(*d.f).inv_exp(a), r.inv(a));
    const u128 x = f.rand();
    c.check(x > 0 && x <= m, "rand gives something that is not a non-zero element");
    c.nontrivial();
}
/// a field that was moved from one place to another is the same field
template <typename T, typename F>
void moved(pbt::Ctx& c, T param, const gx::Ref& r)
{
    c.tag("moved");
    c.desc("moved %s<%d>", r.name().c_str(), (int)sizeof(T) * 8);
    auto first = gx::gf::create<F>(param);
    F second(std::move(first));
    for (int i = 0; i < 3; i++) {
        const u128 a = gx::draw_elt(c, r), b = gx::draw_elt(c, r);
        EQ("a * b after a move", second.mul(a, b), r.mul(a, b));
        EQ("a + b after a move", second.add(a, b), r.add(a, b));
    }
    c.nontrivial();
}
} // namespace

void property(pbt::Ctx& c)
{
    quadiron::prng().seed(c.draw(1 << 16));
    if (c.one_in(200)) {
        if (c.coin())
            moved<uint32_t, gx::gf::BinExtension<uint32_t>>(c, 8, gx::Ref::binary(8));
        else
            moved<uint32_t, gx::gf::Prime<uint32_t>>(c, 65537, gx::Ref::prime(65537));
        return;
    }
    switch (c.weighted({3, 3, 3, 3, 1, 3, 1})) {
    case 0:
        return check_field(c, gx::draw_prime_field<uint32_t>(c));
    case 1:
        return check_field(c, gx::draw_prime_field<uint64_t>(c));
    case 2:
        return check_field(c, gx::draw_binary<uint32_t>(c));
    case 3:
        return check_field(c, gx::draw_binary<uint64_t>(c));
    case 4:
        return check_field(c, gx::draw_prime_field<u128>(c));
    case 5:
        return check_field(c, gx::draw_binary<u128>(c));
    default:
        return check_field(c, gx::prime_field<uint16_t>(c.pick({257, 3, 17, 32749, 12289, 40961, 65521})));
    }
}
