/* C01: data encoded by the C interface is returned bit for bit by decode
 * whenever at least n_data fragments survive. */
#include "capi.h"
using namespace capi;

void property(pbt::Ctx& c)
{
    const int maxn = c.one_in(20) ? (c.tier ? 1500 : 400) : (c.one_in(3) ? 140 : 40);
    Shape s;
    size_t words;
    draw_case(c, s, words, maxn, maxn > 64 ? 1100 : 3300);
    const size_t block = words * s.ws;
    const pbt::Fill fill = pbt::Fill::draw(c);
    const int lost = c.one_in(4) ? (int)c.range(0, s.m) : s.m;
    std::vector<int> miss = draw_losses(c, s.n(), s.k, lost);
    const bool null_lost = c.coin();
    const uint64_t junk = c.seed64();
    c.desc(
        "ws=%d k=%d m=%d %s words=%zu fill=%s lost=%s%s",
        s.ws,
        s.k,
        s.m,
        s.sys ? "sys" : "nonsys",
        words,
        fill.name(),
        bits(miss).c_str(),
        null_lost ? " null" : "");

    Fec fec(s);
    c.check(fec.f != nullptr, "supported parameters refused");
    const int hs = quadiron_fnt32_get_metadata_size(fec.f, block);
    c.check(hs >= 8 && hs % 4 == 0, "header size");
    Bufs data = make_bufs(s.k, hs, block), par = make_bufs(s.m, hs, block);
    std::vector<std::vector<uint8_t>> orig(s.k);
    for (int i = 0; i < s.k; i++)
        orig[i] = fill.make(block, i, s.ws);
    const rc::Hot hot = overlay(c, s, orig);
    rc::favour(c, hot, miss);
    for (int i = 0; i < s.k; i++) {
        data[i]->scribble(junk + i);
        if (block)
            memcpy(data[i]->payload(), orig[i].data(), block);
    }
    for (int i = 0; i < s.m; i++)
        par[i]->scribble(junk + 1000 + i);

    auto dp = ptrs(data), pp = ptrs(par);
    std::vector<int> wanted(s.n_outputs(), 1);
    int rc = quadiron_fnt32_encode(
        fec.f, dp.data(), pp.data(), wanted.data(), block);
    if (rc != 0) {
        c.tag("encode refused");
        if ((double)s.n() * s.k * words < 2e7
            && !refusal_expected(s, orig, wanted, hs))
            c.fail("encode refused a block whose marks fit the header");
        return;
    }
    for (int i = 0; i < s.n(); i++)
        if (miss[i]) {
            Buf& b = i < s.k ? *data[i] : *par[i - s.k];
            b.scribble(junk + 5000 + i);
            if (null_lost && i >= s.k)
                pp[i - s.k] = nullptr;
        }
    rc = quadiron_fnt32_decode(fec.f, dp.data(), pp.data(), miss.data(), block);
    if (rc != 0)
        c.fail("decode failed (%d) although %d fragments survive", rc, s.n() - lost);
    for (int i = 0; i < s.k; i++)
        if (block && memcmp(data[i]->payload(), orig[i].data(), block)) {
            size_t j = 0;
            while (data[i]->payload()[j] == orig[i][j])
                j++;
            c.fail(
                "data %d differs at byte %zu: got %s expected %s",
                i,
                j,
                pbt::hex(data[i]->payload() + j, block - j, 8).c_str(),
                pbt::hex(orig[i].data() + j, block - j, 8).c_str());
        }
    bool lost_data = false, rebuilt = !s.sys;
    for (int i = 0; i < s.k; i++)
        lost_data |= miss[i] != 0;
    c.tag(s.sys ? "systematic" : "non-systematic");
    c.tag(s.ws == 1 ? "word 1" : "word 2");
    if (words % PKT)
        c.tag("partial packet");
    if (words > PKT)
        c.tag("several packets");
    if (s.k > s.m)
        c.tag("more data than parities");
    if (lost == s.m && s.m)
        c.tag("exactly n_data survive");
    if (hot.n)
        c.tag("solved out-of-range symbols");
    if (s.n() > 64)
        c.tag("more than 64 fragments");
    if (s.n() > 512)
        c.tag("more than 512 fragments");
    if (block >= 65536)
        c.tag("block of at least 64 KiB");
    c.nontrivial(block > 0 && lost > 0 && (lost_data || rebuilt));
}
