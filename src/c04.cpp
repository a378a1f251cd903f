/* C04: only the requested output is written. */
#include "capi.h"
using namespace capi;

namespace {
std::vector<uint8_t> empty_header(int hs)
{
    std::vector<uint8_t> h(hs, 0);
    put_be32(h.data(), MAGIC);
    return h;
}
} // namespace

void property(pbt::Ctx& c)
{
    const int maxn = c.one_in(10) ? 140 : 30;
    Shape s;
    size_t words;
    draw_case(c, s, words, maxn, maxn > 40 ? 1100 : 2200);
    const size_t block = words * s.ws;
    const pbt::Fill fill = pbt::Fill::draw(c);
    const uint64_t junk = c.seed64();
    c.desc(
        "ws=%d k=%d m=%d %s words=%zu fill=%s",
        s.ws,
        s.k,
        s.m,
        s.sys ? "sys" : "nonsys",
        words,
        fill.name());
    Fec fec(s);
    c.check(fec.f != nullptr, "supported parameters refused");
    const int hs = quadiron_fnt32_get_metadata_size(fec.f, block);
    const auto eh = empty_header(hs);

    // everything wanted: the reference fragments
    Bufs all = make_bufs(s.n(), hs, block);
    std::vector<std::vector<uint8_t>> orig(s.k);
    for (int i = 0; i < s.k; i++)
        orig[i] = fill.make(block, i, s.ws);
    const rc::Hot hot = overlay(c, s, orig);
    for (int i = 0; i < s.k; i++) {
        all[i]->scribble(junk + 31 * i);
        if (block)
            memcpy(all[i]->payload(), orig[i].data(), block);
    }
    auto p = ptrs(all);
    {
        std::vector<int> wanted(s.n_outputs(), 1);
        if (quadiron_fnt32_encode(
                fec.f, p.data(), p.data() + s.k, wanted.data(), block)
            != 0) {
            c.tag("encode refused");
            return;
        }
    }

    // some wanted
    Bufs frag = make_bufs(s.n(), hs, block);
    for (int i = 0; i < s.n(); i++)
        frag[i]->scribble(junk + i);
    for (int i = 0; i < s.k && block; i++)
        memcpy(frag[i]->payload(), orig[i].data(), block);
    std::vector<int> wanted(s.n_outputs());
    int n_wanted = 0;
    const int bias = c.range(0, 2);
    for (auto& w : wanted) {
        w = bias == 0 ? c.coin() : (bias == 1 ? !c.one_in(5) : c.one_in(5));
        n_wanted += w;
    }
    const bool null_unwanted = c.coin();
    c.desc(
        "wanted=%s%s", bits(wanted).c_str(), null_unwanted ? " null" : "");
    std::vector<std::vector<uint8_t>> before;
    for (auto& f : frag)
        before.push_back(f->copy());
    auto q = ptrs(frag);
    const int par0 = s.sys ? 0 : s.k;
    if (null_unwanted)
        for (int i = 0; i < s.m; i++)
            if (!wanted[par0 + i])
                q[s.k + i] = nullptr;
    if (quadiron_fnt32_encode(
            fec.f, q.data(), q.data() + s.k, wanted.data(), block)
        != 0)
        c.fail("encode of some fragments failed, encode of all did not");
    check_guards(c, frag, "encode");
    for (int i = 0; i < s.n(); i++) {
        const auto got = frag[i]->copy();
        if (s.sys && i < s.k) {
            if (block && memcmp(frag[i]->payload(), orig[i].data(), block))
                c.fail("systematic encode changed the payload of data %d", i);
            if (memcmp(got.data(), eh.data(), hs))
                c.fail("header of systematic data %d is not the empty one", i);
        } else if (wanted[s.sys ? i - s.k : i]) {
            if (got != all[i]->copy())
                c.fail(
                    "fragment %d depends on which other ones are wanted", i);
        } else if (got != before[i]) {
            c.fail("fragment %d was not wanted but was written", i);
        }
    }

    // decode
    const int lost = c.range(0, s.m);
    std::vector<int> miss = draw_losses(c, s.n(), s.k, lost);
    rc::favour(c, hot, miss);
    c.desc("lost=%s", bits(miss).c_str());
    for (int i = 0; i < s.n(); i++) {
        frag[i]->set(all[i]->copy());
        if (miss[i])
            frag[i]->scribble(junk ^ (i + 999));
        before[i] = frag[i]->copy();
    }
    q = ptrs(frag);
    for (int i = s.k; i < s.n(); i++)
        if (miss[i] && null_unwanted)
            q[i] = nullptr;
    std::vector<int> flags = miss;
    if (c.coin()) // any non-zero value means missing
        for (auto& f : flags)
            if (f)
                f = c.pick({1, 2, -1, 255});
    if (quadiron_fnt32_decode(
            fec.f, q.data(), q.data() + s.k, flags.data(), block)
        != 0)
        c.fail("decode failed");
    check_guards(c, frag, "decode");
    for (int i = 0; i < s.k; i++) {
        if (block && memcmp(frag[i]->payload(), orig[i].data(), block))
            c.fail("data %d wrong after decode", i);
        if (memcmp(frag[i]->ptr(), eh.data(), hs))
            c.fail("header of decoded data %d is not the empty one", i);
    }
    for (int i = s.k; i < s.n(); i++)
        if (frag[i]->copy() != before[i])
            c.fail("decode wrote to parity %d", i - s.k);

    // rebuild
    if (lost) {
        std::vector<int> l;
        for (int i = 0; i < s.n(); i++)
            if (miss[i])
                l.push_back(i);
        const int dst = c.pick(l);
        c.desc("rebuild=%d", dst);
        for (int i = 0; i < s.n(); i++)
            frag[i]->set(before[i]);
        q = ptrs(frag);
        for (int i = 0; i < s.n(); i++)
            if (miss[i] && i != dst && null_unwanted)
                q[i] = nullptr;
        if (quadiron_fnt32_reconstruct(
                fec.f, q.data(), q.data() + s.k, flags.data(), dst, block)
            != 0)
            c.fail("rebuild failed");
        check_guards(c, frag, "rebuild");
        for (int i = 0; i < s.n(); i++) {
            if (i == dst) {
                if (frag[i]->copy() != all[i]->copy())
                    c.fail("rebuilt fragment %d is not the encoded one", i);
            } else if (frag[i]->copy() != before[i]) {
                c.fail("rebuild of %d wrote to fragment %d", dst, i);
            }
        }
        c.tag("rebuild");
    }
    c.tag(null_unwanted ? "absent buffers" : "all buffers present");
    c.nontrivial(block > 0 && n_wanted < s.n_outputs());
}
