/* C02: a fragment rebuilt by the C interface equals the one that was lost
 * (payload and header), over histories of losses and rebuilds. */
#include "capi.h"
using namespace capi;

void property(pbt::Ctx& c)
{
    const int maxn = c.one_in(12) ? 140 : 32;
    Shape s;
    size_t words;
    draw_case(c, s, words, maxn, maxn > 40 ? 1100 : 3300, 1);
    const size_t block = words * s.ws;
    const pbt::Fill fill = pbt::Fill::draw(c);
    const uint64_t junk = c.seed64();
    const int steps = c.range(1, s.n() > 40 ? (s.n() > 512 ? 1 : 2) : 5);
    c.desc(
        "ws=%d k=%d m=%d %s words=%zu fill=%s steps=%d",
        s.ws,
        s.k,
        s.m,
        s.sys ? "sys" : "nonsys",
        words,
        fill.name(),
        steps);
    Fec fec(s);
    c.check(fec.f != nullptr, "supported parameters refused");
    const int hs = quadiron_fnt32_get_metadata_size(fec.f, block);
    Bufs frag = make_bufs(s.n(), hs, block);
    std::vector<std::vector<uint8_t>> orig(s.k);
    for (int i = 0; i < s.n(); i++)
        frag[i]->scribble(junk + i);
    for (int i = 0; i < s.k; i++)
        orig[i] = fill.make(block, i, s.ws);
    overlay(c, s, orig);
    for (int i = 0; i < s.k; i++) {
        if (block)
            memcpy(frag[i]->payload(), orig[i].data(), block);
    }
    auto p = ptrs(frag);
    std::vector<int> wanted(s.n_outputs(), 1);
    int rc = quadiron_fnt32_encode(
        fec.f, p.data(), p.data() + s.k, wanted.data(), block);
    if (rc != 0) {
        c.tag("encode refused");
        return;
    }
    std::vector<std::vector<uint8_t>> enc;
    for (auto& f : frag)
        enc.push_back(f->copy());
    std::vector<int> miss(s.n(), 0);
    int n_lost = 0, rebuilt = 0;
    bool marks = false;
    for (int i = s.sys ? s.k : 0; i < s.n(); i++)
        marks |= be32(enc[i].data() + 4) != 0;
    for (int st = 0; st < steps; st++) {
        // lose some more
        const int more = c.range(n_lost ? 0 : 1, s.m - n_lost);
        std::vector<int> avail;
        for (int i = 0; i < s.n(); i++)
            if (!miss[i])
                avail.push_back(i);
        for (int a : c.subset(avail.size(), more)) {
            miss[avail[a]] = 1;
            n_lost++;
            frag[avail[a]]->scribble(junk + 77 + st * 1000 + a);
        }
        std::vector<int> lost;
        for (int i = 0; i < s.n(); i++)
            if (miss[i])
                lost.push_back(i);
        // rebuild some of the lost ones
        auto order = c.permutation(lost.size());
        const int count =
            std::min<int>(c.range(1, lost.size()), s.n() > 40 ? (s.n() > 512 ? 1 : 3) : 8);
        c.desc("| lost %s rebuild", bits(miss).c_str());
        for (int r = 0; r < count; r++) {
            const int dst = lost[order[r]];
            c.desc("%d", dst);
            auto q = ptrs(frag);
            for (int i = 0; i < s.n(); i++)
                if (miss[i] && i != dst)
                    q[i] = nullptr;
            rc = quadiron_fnt32_reconstruct(
                fec.f, q.data(), q.data() + s.k, miss.data(), dst, block);
            if (rc != 0)
                c.fail("rebuild of fragment %d failed (%d)", dst, rc);
            const auto got = frag[dst]->copy();
            if (got != enc[dst]) {
                size_t j = 0;
                while (got[j] == enc[dst][j])
                    j++;
                c.fail(
                    "rebuilt fragment %d differs in its %s at byte %zu",
                    dst,
                    j < (size_t)hs ? "header" : "payload",
                    j < (size_t)hs ? j : j - hs);
            }
            check_guards(c, frag, "rebuild");
            miss[dst] = 0;
            n_lost--;
            rebuilt++;
            c.tag(dst < s.k ? "data rebuilt" : "parity rebuilt");
        }
        for (int i = 0; i < s.n(); i++)
            if (!miss[i] && frag[i]->copy() != enc[i])
                c.fail("fragment %d changed by a rebuild of another one", i);
    }
    auto q = ptrs(frag);
    rc = quadiron_fnt32_decode(
        fec.f, q.data(), q.data() + s.k, miss.data(), block);
    if (rc != 0)
        c.fail("decode after rebuilds failed (%d)", rc);
    for (int i = 0; i < s.k; i++)
        if (block && memcmp(frag[i]->payload(), orig[i].data(), block))
            c.fail("data %d wrong after rebuilds and decode", i);
    if (marks)
        c.tag("some fragment has marks");
    c.tag(s.sys ? "systematic" : "non-systematic");
    if (s.n() > 512)
        c.tag("more than 512 fragments");
    if (block >= 65536)
        c.tag("block of at least 64 KiB");
    c.nontrivial(block > 0 && rebuilt > 0);
}
