/* C21: symbols that do not fit a word are marked, and decoding uses the marks.
 * The contents are solved for, so that chosen fragments have such symbols at
 * chosen positions. */
#include "capix.h"
using namespace fg;

void property(pbt::Ctx& c)
{
    const Fam fam = c.pick({FNT, NF4, GFP, FNT});
    Spec s = draw_field(c, fam, 600);
    draw_shape(c, s, slow(s) ? 10 : (c.one_in(12) ? 40 : 18));
    if (s.k > 14)
        s.k = 14;
    if (s.sys && s.m == 0)
        s.m = 1;
    if (s.k + s.m < 2)
        s.m = 2 - s.k;
    s.pkt = draw_pkt(c, s);
    c.desc("%s pkt=%zu", show(s).c_str(), s.pkt);
    const rc::Code code = rc::make_code(s);
    std::unique_ptr<Codec> f = make(s);
    std::unique_ptr<capi::Fec> q;
    if (fam == FNT) {
        q.reset(new capi::Fec(cx::shape(s)));
        c.check(q->f != nullptr, "supported parameters refused");
    }
    const int rounds = slow(s) ? 4 : (fam == NF4 ? 2 : 1);
    for (int rd = 0; rd < rounds; rd++) {
        // more words than 16 bits can count
        const bool lengthy = !slow(s) && s.k <= 4 && s.n() <= 9 && c.draw(50) == 49;
        const size_t words = lengthy ? 65536 + (size_t)c.pick({0, 1, 2, 9, 700, 2000})
                                     : std::max<size_t>(1, draw_len(c, s, s.pkt > 300 ? 2600 : 600));
        // fragments whose symbols are chosen: k of all (systematic data included)
        const int nt = (int)c.range(1, std::min(s.k, s.n_outputs()));
        std::vector<int> target = c.subset(s.n_outputs(), nt); // output indices
        std::vector<rc::Row> a;
        for (int t : target)
            a.push_back(code.rows[t]);
        std::vector<int> others;
        if (s.sys) {
            for (int i : c.subset(s.k, s.k - nt)) {
                rc::Row r(s.k, 0);
                r[i] = 1;
                a.push_back(r);
            }
        } else {
            std::vector<int> rest;
            for (int i = 0; i < s.n_outputs(); i++)
                if (std::find(target.begin(), target.end(), i) == target.end())
                    rest.push_back(i);
            for (int i : c.subset((int)rest.size(), s.k - nt))
                a.push_back(code.rows[rest[i]]);
        }
        std::vector<rc::Row> inv;
        if (!rc::invert(code.f, a, inv))
            c.fail("the reference code is not MDS");
        // positions with out-of-range symbols
        std::vector<char> hot(words * code.lanes, 0);
        size_t nhot = 0;
        const int how = lengthy ? 2 * (int)c.draw(2) : (int)c.weighted({5, 2, 2, 1, 2});
        if (lengthy)
            c.tag("more than 65536 words");
        const uint64_t seed = c.seed64();
        pbt::Prng r(seed);
        switch (how) {
        case 0: { // single positions at boundaries
            const int n = (int)c.range(1, 6);
            for (int i = 0; i < n; i++) {
                int64_t w;
                switch (c.weighted({1, 1, 3, 2, 2})) {
                case 0:
                    w = 0;
                    break;
                case 1:
                    w = words - 1;
                    break;
                case 2:
                    w = s.pkt * (c.coin() ? c.range(0, 4) : c.range(0, (int64_t)(words / s.pkt))) + c.range(-1, 1);
                    break;
                case 3:
                    w = 8 * c.range(0, (int64_t)words / 8) + c.range(-1, 1);
                    break;
                default:
                    w = c.range(0, (int64_t)words - 1);
                }
                if (w < 0 || w >= (int64_t)words)
                    continue;
                hot[w * code.lanes + c.draw(code.lanes)] = 1;
            }
            break;
        }
        case 1: // one in ten
            for (auto& h : hot)
                h = r.below(10) == 0;
            break;
        case 2: { // a run
            const size_t from = c.draw(words), len = 1 + c.draw(70);
            for (size_t w = from; w < words && w < from + len; w++)
                for (unsigned l = 0; l < code.lanes; l++)
                    hot[w * code.lanes + l] = 1;
            break;
        }
        case 3: // everywhere
            for (auto& h : hot)
                h = 1;
            break;
        default: // half of the words, random lanes
            for (auto& h : hot)
                h = r.below(2);
        }
        c.desc("| words=%zu hot=%d targets=%d/%d", words, how, nt, s.k);

        std::vector<Bytes> data(s.k, Bytes(words * s.ws));
        rc::Row v(s.k), d(s.k);
        const uint64_t top = code.f.p - 1;
        for (size_t w = 0; w < words; w++)
            for (unsigned l = 0; l < code.lanes; l++) {
                const size_t at = w * s.ws + l * code.lane_bytes;
                bool ok = false;
                for (int tries = 0; !ok && tries < 200; tries++) {
                    if (hot[w * code.lanes + l]) {
                        bool any = false;
                        for (int i = 0; i < s.k; i++) {
                            v[i] = r.below((uint64_t)code.limit);
                            if (i < nt && (r.below(3) || (i + 1 == nt && !any))) {
                                v[i] = code.limit + r.below((uint64_t)(top - code.limit) + 1);
                                if (r.below(2))
                                    v[i] = top;
                                any = true;
                            }
                            if (tries > 100 && i >= nt)
                                v[i] = r.below((uint64_t)code.limit);
                        }
                        for (int j = 0; j < s.k; j++)
                            d[j] = code.dot(inv[j], v);
                    } else {
                        for (int j = 0; j < s.k; j++)
                            d[j] = r.below((uint64_t)code.limit);
                    }
                    ok = true;
                    for (int j = 0; j < s.k; j++)
                        ok &= d[j] < code.limit;
                }
                if (!ok) { // e.g. a single unknown that has to be out of range
                    for (int j = 0; j < s.k; j++)
                        d[j] = 0;
                } else if (hot[w * code.lanes + l])
                    nhot++;
                for (int j = 0; j < s.k; j++)
                    ref::store(data[j].data() + at, code.lane_bytes, d[j]);
            }

        std::vector<Bytes> want, got;
        std::vector<std::map<off_t, uint32_t>> wm;
        rc::encode(code, data, want, wm);
        const Iface i = c.pick(ifaces(s)), o = c.pick(ifaces(s));
        c.desc("%zu symbols, %s/%s", nhot, IFACE_NAMES[i], IFACE_NAMES[o]);
        Props props;
        f->encode(i, data, got, props);
        rc::compare(c, s, "encode", got, props, want, wm);

        // survivors: mostly the marked ones
        std::vector<bool> have(s.n(), false);
        const int first = s.sys ? s.k : 0;
        int left = 0;
        if (c.coin())
            for (int t : target)
                if (left < s.k) {
                    have[first + t] = true;
                    left++;
                }
        auto perm = c.permutation(s.n());
        const int goal = c.one_in(4) ? (int)c.range(s.k, s.n()) : s.k;
        for (int p : perm)
            if (left < goal && !have[p]) {
                have[p] = true;
                left++;
            }
        c.desc("left=%s", bits(have).c_str());
        bool all = s.sys, marked = false;
        for (int j = 0; j < s.k; j++)
            all &= have[j];
        for (int j = 0; j < s.n_outputs(); j++)
            marked |= have[first + j] && !wm[j].empty();
        // marks are found whatever the order they were added in
        if (c.coin())
            for (auto& p : props) {
                auto v = p.get_map();
                p.clear();
                while (!v.empty()) {
                    const size_t x = r.below(v.size());
                    p.add(v[x].first, v[x].second);
                    v.erase(v.begin() + x);
                }
            }
        std::vector<Bytes> out;
        if (!f->decode(o, data, got, have, props, std::vector<bool>(s.k, true), out))
            c.fail("decode fails");
        if (!all)
            for (int j = 0; j < s.k; j++)
                if (out[j] != data[j])
                    c.fail("data %d: %s", j, diff(out[j], data[j], s.ws).c_str());
        if (q) {
            const cx::CFrags x = cx::encode(c, *q, s, data);
            bool fits = true;
            for (auto& m : wm)
                fits &= m.size() <= capi::capacity(x.hs);
            if (fits != (x.rc == 0))
                c.fail("C API encode returns %d although the marks %s", x.rc, fits ? "fit" : "do not fit");
            if (x.rc == 0) {
                for (int j = 0; j < s.n_outputs(); j++)
                    if (x.mk[j] != wm[j])
                        c.fail("C API: fragment %d marks %s instead of %s", j,
                               rc::show_marks(x.mk[j]).c_str(), rc::show_marks(wm[j]).c_str());
                cx::decode(c, *q, s, x, have, data);
                c.tag("C API");
            } else
                c.tag("C API: too many marks");
        }
        if (nhot && marked && !all) {
            c.nontrivial();
            c.tag(std::string(FAM_NAMES[fam]) + (s.sys ? " sys" : "") + " ws" + std::to_string(s.ws) + " " + IFACE_NAMES[i]);
        }
    }
}
