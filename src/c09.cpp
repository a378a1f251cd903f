/* C09: interfaces and packet sizes agree on the fragments. */
#include "capix.h"
using namespace fg;

void property(pbt::Ctx& c)
{
    const Fam fam = (Fam)(int)c.weighted({6, 4, 2, 1, 1, 1, 1});
    Spec s = draw_field(c, fam, 600);
    const bool costly = s.tbits == 128 && fam != NF4;
    draw_shape(c, s, slow(s) || costly ? 16 : (c.one_in(10) ? 140 : (c.one_in(3) ? 50 : 20)));
    s.pkt = draw_pkt(c, s);
    Spec t = s;
    t.pkt = draw_pkt(c, t);
    // the other symbol types of the same code
    if (fam == FNT && s.ws == 1 && c.coin())
        t.tbits = 48 - s.tbits;
    if (fam == GFP && s.ws == 2 && c.coin())
        t.tbits = 96 - s.tbits;
    if (fam == NF4 && s.ws < 8 && c.coin())
        t.tbits = 128;
    if (fam >= GF2N_V && s.ws <= 4 && c.coin())
        t.tbits = 64;
    c.desc("%s pkt=%zu, T=u%d pkt=%zu", show(s).c_str(), s.pkt, t.tbits, t.pkt);
    std::unique_ptr<Codec> f = make(s), g = make(t);
    const int rounds = fam == NF4 ? 3 : 1;
    for (int rd = 0; rd < rounds; rd++) {
        const size_t words = draw_len(c, s, fam >= GF2N_V ? 60 : (s.n() > 60 ? 200 : 900));
        const pbt::Fill fill = pbt::Fill::draw(c);
        auto data = make_data(s, fill, words);
        const rc::Hot hot = rc::overlay(c, s, data);
        const Iface i = c.pick(ifaces(s)), j = c.pick(ifaces(s));
        c.desc("| words=%zu fill=%s %s vs %s", words, fill.name(), IFACE_NAMES[i], IFACE_NAMES[j]);
        std::vector<Bytes> a, b;
        Props pa, pb;
        f->encode(i, data, a, pa);
        g->encode(j, data, b, pb);
        for (int x = 0; x < s.n_outputs(); x++) {
            if (a[x] != b[x])
                c.fail("fragment %d: %s", x, diff(b[x], a[x], s.ws).c_str());
            if (marks(pa[x]) != marks(pb[x]))
                c.fail("fragment %d: marks %s and %s", x, rc::show_marks(marks(pb[x])).c_str(),
                       rc::show_marks(marks(pa[x])).c_str());
        }
        // pieces
        if (words > 0) {
            const size_t cut = c.range(0, words);
            const Iface l = c.pick(ifaces(s));
            std::vector<Bytes> d1, d2, f1, f2;
            for (auto& d : data) {
                d1.push_back(Bytes(d.begin(), d.begin() + cut * s.ws));
                d2.push_back(Bytes(d.begin() + cut * s.ws, d.end()));
            }
            Props p1, p2;
            f->encode(l, d1, f1, p1);
            g->encode(l, d2, f2, p2);
            c.desc("cut=%zu (%s)", cut, IFACE_NAMES[l]);
            for (int x = 0; x < s.n_outputs(); x++) {
                Bytes joined = f1[x];
                joined.insert(joined.end(), f2[x].begin(), f2[x].end());
                if (joined != a[x])
                    c.fail("fragment %d of the two parts: %s", x, diff(joined, a[x], s.ws).c_str());
                auto m = marks(p1[x]);
                for (auto& e : marks(p2[x]))
                    m[e.first + cut] = e.second;
                if (m != marks(pa[x]))
                    c.fail("fragment %d: marks of the two parts %s and of the whole %s", x,
                           rc::show_marks(m).c_str(), rc::show_marks(marks(pa[x])).c_str());
            }
        }
        // decode what the one encoded with the other
        auto have = draw_have(c, s, s.k);
        rc::favour(c, hot, have);
        bool all = s.sys;
        for (int x = 0; x < s.k; x++)
            all &= have[x];
        const Iface o = c.pick(ifaces(s));
        std::vector<Bytes> out;
        c.desc("decode %s left=%s", IFACE_NAMES[o], bits(have).c_str());
        if (!g->decode(o, data, a, have, pa, std::vector<bool>(s.k, true), out))
            c.fail("decode fails");
        if (!all)
            for (int x = 0; x < s.k; x++)
                if (out[x] != data[x])
                    c.fail("data %d: %s", x, diff(out[x], data[x], s.ws).c_str());
        // the C interface
        if (fam == FNT) {
            capi::Fec q(cx::shape(s));
            c.check(q.f != nullptr, "supported parameters refused");
            cx::CFrags x = cx::encode(c, q, s, data);
            if (x.rc == 0) {
                for (int y = 0; y < s.n_outputs(); y++) {
                    if (x.out[y] != a[y])
                        c.fail("C API fragment %d: %s", y, diff(x.out[y], a[y], s.ws).c_str());
                    if (x.mk[y] != marks(pa[y]))
                        c.fail("C API fragment %d: marks %s and %s", y, rc::show_marks(x.mk[y]).c_str(),
                               rc::show_marks(marks(pa[y])).c_str());
                }
                cx::decode(c, q, s, x, have, data);
                // and fragments of the C interface by the C++ one
                if (!f->decode(o, data, x.out, have, pa, std::vector<bool>(s.k, true), out))
                    c.fail("decode of C API fragments fails");
                if (!all)
                    for (int y = 0; y < s.k; y++)
                        if (out[y] != data[y])
                            c.fail("data %d from C API fragments: %s", y, diff(out[y], data[y], s.ws).c_str());
                c.tag("C API");
            }
        }
        if (words && s.n_outputs())
            c.nontrivial();
        c.tag(std::string(FAM_NAMES[fam]) + " " + IFACE_NAMES[i] + "/" + IFACE_NAMES[j]);
    }
}
