/* C25: C++ codecs refuse what cannot be decoded, and write only what is wanted. */
#include "refcode.h"
using namespace fg;

void property(pbt::Ctx& c)
{
    const Fam fam = (Fam)(int)c.weighted({5, 3, 2, 2, 2, 2, 2});
    Spec s = draw_field(c, fam, 600);
    const bool costly = s.tbits == 128 && fam != NF4;
    draw_shape(c, s, slow(s) || costly ? 14 : (c.one_in(10) ? 100 : (c.one_in(3) ? 40 : 16)));
    s.pkt = draw_pkt(c, s);
    c.desc("%s pkt=%zu", show(s).c_str(), s.pkt);
    std::unique_ptr<Codec> f = make(s);
    const size_t words = draw_len(c, s, costly ? 20 : (s.n() > 40 ? 60 : 300));
    const pbt::Fill fill = pbt::Fill::draw(c);
    auto data = make_data(s, fill, words);
    const rc::Hot hot = rc::overlay(c, s, data);
    std::vector<Bytes> frags;
    Props props;
    const Iface i = c.pick(ifaces(s));
    std::vector<bool> enc_wanted(s.n_outputs(), true);
    c.desc("words=%zu fill=%s %s", words, fill.name(), IFACE_NAMES[i]);
    f->encode(i, data, frags, props);
    if (i == B && c.coin()) {
        // encoding only some of the blocks gives the same ones
        for (size_t x = 0; x < enc_wanted.size(); x++)
            enc_wanted[x] = c.coin();
        std::vector<Bytes> part;
        Props pp;
        f->encode(B, data, part, pp, &enc_wanted);
        for (int x = 0; x < s.n_outputs(); x++)
            if (enc_wanted[x] && (part[x] != frags[x] || marks(pp[x]) != marks(props[x])))
                c.fail("block %d differs when not all blocks are wanted", x);
        c.tag("some blocks encoded");
    }
    const int rounds = c.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        const int left = c.coin() ? (int)c.range(0, s.k - 1) : (int)c.range(s.k, s.n());
        auto have = draw_have(c, s, left);
        rc::favour(c, hot, have);
        std::vector<bool> wanted(s.k);
        const int how = c.weighted({2, 3, 1});
        for (int x = 0; x < s.k; x++)
            wanted[x] = how == 0 || (how == 1 && c.coin());
        const Iface o = c.pick(ifaces(s));
        c.desc("| %s left=%s wanted=%s", IFACE_NAMES[o], bits(have).c_str(), bits(wanted).c_str());
        // lost fragments hold something else: they must not be read
        std::vector<Bytes> in = frags;
        Props ip = props;
        std::vector<Bytes> din = data;
        for (int x = 0; x < s.n_outputs(); x++)
            if (!have[(s.sys ? s.k : 0) + x])
                in[x].assign(words * s.ws, 0x5a);
        std::vector<Bytes> out(s.k);
        const bool ok = f->decode(o, din, in, have, ip, wanted, out);
        if (left < s.k) {
            if (ok)
                c.fail("success with %d of %d fragments", left, s.k);
            for (int x = 0; x < s.k; x++) {
                if (!wanted[x])
                    continue;
                if (o == B) {
                    const Bytes& want = s.sys && have[x] ? data[x] : Bytes(words * s.ws, 0x3c);
                    if (words && out[x] != want)
                        if (!(out[x].size() != want.size()))
                            c.fail("a failed decode wrote block %d", x);
                } else if (!out[x].empty())
                    c.fail("a failed decode wrote %zu bytes to output %d", out[x].size(), x);
            }
            c.tag(std::string("refused ") + FAM_NAMES[fam] + " " + IFACE_NAMES[o]);
        } else {
            if (!ok)
                c.fail("refused with %d of %d fragments", left, s.k);
            bool all = s.sys;
            for (int x = 0; x < s.k; x++)
                all &= have[x];
            for (int x = 0; x < s.k; x++) {
                if (!wanted[x])
                    continue;
                if (all && o != B && out[x].empty())
                    continue; // all the data is there: nothing is decoded
                if (out[x] != data[x])
                    c.fail("data %d: %s", x, diff(out[x], data[x], s.ws).c_str());
            }
            c.tag(std::string("decoded ") + FAM_NAMES[fam] + " " + IFACE_NAMES[o]);
        }
        c.nontrivial();
    }
}
