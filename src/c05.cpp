/* C05, C06, C07: any n_data fragments give the data back (C++ codecs). */
#include "refcode.h"
using namespace fg;

#ifndef FAMS
#define FAMS 5
#endif
#ifndef WIDE
#define WIDE 60 // one case in so many has hundreds or thousands of fragments
#endif
#ifdef __SANITIZE_ADDRESS__
#define LENGTHY 400
#else
#define LENGTHY 100
#endif

void property(pbt::Ctx& c)
{
#ifdef __SANITIZE_ADDRESS__
    const bool wide = c.draw(WIDE * 4) == WIDE * 4 - 1;
#else
    const bool wide = c.draw(WIDE) == WIDE - 1;
#endif
#if FAMS == 5
    const Fam fam = FNT;
    const int maxn = c.one_in(12) ? (c.tier ? 1200 : 300) : (c.one_in(3) ? 100 : 24);
#elif FAMS == 6
    const Fam fam = wide && c.one_in(3) ? GFP : c.pick({GFP, NF4, GF2N_FFT, GF2N_ADD, FNT});
    const int maxn = c.one_in(12) ? (c.tier ? 300 : 140) : (c.one_in(3) ? 60 : 20);
#else
    const Fam fam = c.pick({GF2N_V, GF2N_C});
    const int maxn = c.one_in(12) ? 256 : (c.one_in(3) ? 60 : 20);
#endif
    Spec s = draw_field(c, fam, FAMS == 5 ? 0 : 150);
#if FAMS == 6
    if (fam == FNT)
        s.sys = false;
#endif
    const bool costly = s.tbits == 128 && s.fam != NF4;
    draw_shape(c, s, costly || slow(s) ? std::min(maxn, 24) : maxn);
    s.pkt = draw_pkt(c, s);
    if (wide) {
        draw_wide(c, s);
        s.pkt = c.pick({1, 2, 3, 5});
        c.tag("hundreds of fragments");
        if (s.n() > 4000)
            c.tag("more than 4000 fragments");
    }
    // more words than 16 bits can count
    const bool lengthy = !wide && !costly && !slow(s) && c.draw(LENGTHY) == LENGTHY - 1;
    if (lengthy) {
        s.k = std::min(s.k, 4);
        s.m = std::min(s.m, 4);
        s.m = std::max(s.m, (s.k == 1) ? 1 : 0);
        c.tag("more than 65536 words");
    }
    const size_t max_len = costly ? 40 : (s.n() > 60 ? 200 : 900);
    c.desc("%s pkt=%zu", show(s).c_str(), s.pkt);
    std::unique_ptr<Codec> f = make(s);

    const int rounds = wide || lengthy ? 1 : slow(s) ? 6 : 1 + (int)c.range(0, 1);
    for (int round = 0; round < rounds; round++) {
        const size_t words = lengthy ? 65536 + (size_t)c.pick({-1, 0, 1, 2, 9, 700, 2000, 70000}) : wide ? (size_t)c.range(1, s.n() > 2000 ? 2 : 2 * s.pkt) : draw_len(c, s, max_len);
        const pbt::Fill fill = pbt::Fill::draw(c);
        Iface enc, dec;
#if FAMS == 5
        enc = c.pick({V, B});
        dec = c.coin() ? enc : c.pick({V, B});
#elif FAMS == 6
        enc = fam == NF4 ? c.pick({H, V, B}) : H;
        dec = enc;
#else
        enc = dec = H;
#endif
        std::vector<Bytes> data = make_data(s, fill, words);
        c.desc("| words=%zu fill=%s %s/%s", words, fill.name(), IFACE_NAMES[enc],
               IFACE_NAMES[dec]);
        const rc::Hot hot = rc::overlay(c, s, data);
        std::vector<Bytes> frags;
        Props props;
        f->encode(enc, data, frags, props);
        for (int i = 0; i < s.n_outputs(); i++)
            if (frags[i].size() != words * s.ws)
                c.fail("fragment %d has %zu bytes instead of %zu", i,
                       frags[i].size(), words * s.ws);
        const int tries = wide ? (FAMS == 7 ? 4 : 1) : (int)c.range(1, 3);
        for (int t = 0; t < tries; t++) {
            const int left = c.one_in(4) ? (int)c.range(s.k, s.n()) : s.k;
            auto have = draw_have(c, s, left);
            rc::favour(c, hot, have);
            std::vector<bool> wanted(s.k, true);
            if (s.sys)
                for (int i = 0; i < s.k; i++)
                    wanted[i] = !have[i] || (dec == B ? c.coin() : true);
            c.desc("left=%s", bits(have).c_str());
            std::vector<Bytes> out;
            const bool ok =
                f->decode(dec, data, frags, have, props, wanted, out);
            if (!ok)
                c.fail("decode fails with %d fragments left", left);
            bool all_data = s.sys;
            for (int i = 0; i < s.k; i++)
                all_data &= have[i];
            if (all_data)
                continue; // nothing to decode: outputs are not written
            for (int i = 0; i < s.k; i++)
                if (wanted[i] && out[i] != data[i])
                    c.fail("data fragment %d: %s", i,
                           diff(out[i], data[i], s.ws).c_str());
            if (words > 0) {
                c.nontrivial();
                c.tag(std::string(FAM_NAMES[fam]) + (s.sys ? "/sys" : "") + "/" + IFACE_NAMES[enc]);
                c.tag("ws" + std::to_string(s.ws));
                bool marked = false;
                for (auto& p : props)
                    marked |= !p.get_map().empty();
                if (marked)
                    c.tag("with out-of-range symbols");
            }
        }
    }
}
