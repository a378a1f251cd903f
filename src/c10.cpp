/* C10: fragments compared with an independent implementation of each code. */
#include "capix.h"
using namespace fg;

namespace {
/// hundreds or thousands of fragments, a sample of which is compared
void wide_code(pbt::Ctx& c)
{
    const Fam fam = c.pick({FNT, GFP, GF2N_C, NF4, GF2N_FFT, GF2N_V, GF2N_ADD});
    Spec s = draw_field(c, fam, 0);
    draw_wide(c, s);
    if (fam == GF2N_C && c.coin()) {
        s.k = c.range(400, 6000);
        s.m = c.range(1, 3);
    } else if (fam == GF2N_V) {
        s.k = std::min(s.k, 60);
    }
    s.pkt = c.pick({1, 2, 3, 5});
    c.desc("%s pkt=%zu", show(s).c_str(), s.pkt);
    c.tag("hundreds of fragments");
    if (!s.n_outputs())
        return;
    const int no = s.n_outputs();
    std::vector<int> some{0, no - 1};
    for (int i = 0; i < 10; i++)
        some.push_back(c.one_in(3) ? (int)std::min<int64_t>(no - 1, (1 << c.draw(16)) - c.range(0, 1))
                                   : (int)c.range(0, no - 1));
    for (int& i : some)
        i = std::max(i, 0);
    const rc::Code code = rc::make_code(s, &some);
    std::unique_ptr<Codec> f = make(s);
    if (code.length && f->length() != code.length)
        c.fail("code length %u instead of %u", f->length(), code.length);
    const size_t words = c.range(1, 3);
    const pbt::Fill fill = pbt::Fill::draw(c);
    const Iface i = c.pick(ifaces(s));
    c.desc("| words=%zu fill=%s %s", words, fill.name(), IFACE_NAMES[i]);
    const auto data = make_data(s, fill, words);
    std::vector<Bytes> want, got;
    std::vector<std::map<off_t, uint32_t>> wm;
    Props props;
    rc::encode(code, data, want, wm);
    f->encode(i, data, got, props);
    for (size_t j = 0; j < some.size(); j++) {
        if (got[some[j]] != want[j])
            c.fail("fragment %d, %s", some[j], diff(got[some[j]], want[j], s.ws).c_str());
        if (marks(props[some[j]]) != wm[j])
            c.fail("fragment %d marks %s instead of %s", some[j],
                   rc::show_marks(marks(props[some[j]])).c_str(), rc::show_marks(wm[j]).c_str());
    }
    if (fill.mode != 0)
        c.nontrivial();
    c.tag(std::string(FAM_NAMES[fam]) + " ws" + std::to_string(s.ws) + (s.sys ? " sys" : ""));
}
} // namespace

void property(pbt::Ctx& c)
{
    if (c.one_in(60))
        return wide_code(c);
    const Fam fam = c.pick({FNT, GFP, GF2N_V, NF4, GF2N_FFT, GF2N_C, FNT, GF2N_ADD});
    Spec s = draw_field(c, fam, 250);
    const bool binary = fam >= GF2N_V;
    const bool wide = !binary || s.ws <= 2;
    draw_shape(c, s, slow(s) ? 12 : (s.tbits == 128 && binary) ? 16 :
               (c.one_in(10) ? (wide ? 200 : 40) : (c.one_in(3) ? 40 : 20)));
    s.pkt = draw_pkt(c, s);
    c.desc("%s pkt=%zu", show(s).c_str(), s.pkt);
    const rc::Code code = rc::make_code(s);
    std::unique_ptr<Codec> f = make(s);
    if (code.length && f->length() != code.length)
        c.fail("code length %u instead of %u", f->length(), code.length);
    const int rounds = slow(s) ? 4 : 1;
    for (int r = 0; r < rounds; r++) {
        const size_t cap = binary ? (s.n() > 20 ? 6 : 24) : (s.n() > 40 ? 40 : 600);
        const size_t words = draw_len(c, s, cap);
        const pbt::Fill fill = pbt::Fill::draw(c);
        const Iface i = c.pick(ifaces(s));
        c.desc("| words=%zu fill=%s %s", words, fill.name(), IFACE_NAMES[i]);
        const auto data = make_data(s, fill, words);
        std::vector<Bytes> want, got;
        std::vector<std::map<off_t, uint32_t>> wm;
        Props props;
        rc::encode(code, data, want, wm);
        f->encode(i, data, got, props);
        rc::compare(c, s, "encode", got, props, want, wm);
        if (fam == FNT && ((s.ws == 2 && s.tbits == 32) || s.ws == 1)) {
            capi::Fec q(cx::shape(s));
            c.check(q.f != nullptr, "supported parameters refused");
            const cx::CFrags x = cx::encode(c, q, s, data);
            bool fits = true;
            for (auto& m : wm)
                fits &= m.size() <= capi::capacity(x.hs);
            if (fits != (x.rc == 0))
                c.fail("C API encode returns %d although the marks %s", x.rc, fits ? "fit" : "do not fit");
            if (x.rc == 0)
                for (int j = 0; j < s.n_outputs(); j++) {
                    if (x.out[j] != want[j])
                        c.fail("C API: fragment %d, %s", j, diff(x.out[j], want[j], s.ws).c_str());
                    if (x.mk[j] != wm[j])
                        c.fail("C API: fragment %d marks %s instead of %s", j,
                               rc::show_marks(x.mk[j]).c_str(), rc::show_marks(wm[j]).c_str());
                }
            c.tag("C API");
        }
        if (words && s.n_outputs() && fill.mode != 0)
            c.nontrivial();
    }
    c.tag(std::string(FAM_NAMES[fam]) + " ws" + std::to_string(s.ws) + (s.sys ? " sys" : ""));
}
