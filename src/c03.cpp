/* C03: undecodable or damaged input is refused, never misused. */
#include "capi.h"
using namespace capi;

namespace {

struct World {
    Shape s;
    size_t words, block;
    pbt::Fill fill;
    uint64_t junk;
    std::unique_ptr<Fec> fec;
    int hs;
    Bufs frag;
    std::vector<std::vector<uint8_t>> orig;
    int enc_rc;

    World(pbt::Ctx& c, int maxn, size_t maxw, int min_m)
    {
        draw_case(c, s, words, maxn, maxw, min_m);
        block = words * s.ws;
        fill = pbt::Fill::draw(c);
        junk = c.seed64();
        c.desc(
            "ws=%d k=%d m=%d %s words=%zu fill=%s",
            s.ws,
            s.k,
            s.m,
            s.sys ? "sys" : "nonsys",
            words,
            fill.name());
        fec.reset(new Fec(s));
        c.check(fec->f != nullptr, "supported parameters refused");
        hs = quadiron_fnt32_get_metadata_size(fec->f, block);
        frag = make_bufs(s.n(), hs, block);
        orig.resize(s.k);
        for (int i = 0; i < s.n(); i++)
            frag[i]->scribble(junk + i);
        for (int i = 0; i < s.k; i++) {
            orig[i] = fill.make(block, i, s.ws);
            if (block)
                memcpy(frag[i]->payload(), orig[i].data(), block);
        }
    }
    int encode(pbt::Ctx& c)
    {
        auto p = ptrs(frag);
        std::vector<int> wanted(s.n_outputs(), 1);
        enc_rc = quadiron_fnt32_encode(
            fec->f, p.data(), p.data() + s.k, wanted.data(), block);
        check_guards(c, frag, "encode");
        return enc_rc;
    }
};

void too_few(pbt::Ctx& c)
{
    World w(c, 40, 1500, 0);
    if (w.encode(c) != 0)
        return;
    const int left = c.range(0, w.s.k - 1);
    std::vector<int> miss(w.s.n(), 1);
    for (int i : c.subset(w.s.n(), left))
        miss[i] = 0;
    const bool rec = c.coin();
    int dst = 0;
    std::vector<int> lost;
    for (int i = 0; i < w.s.n(); i++)
        if (miss[i])
            lost.push_back(i);
    dst = c.pick(lost);
    c.desc(
        "| only %d left: %s, %s",
        left,
        bits(miss).c_str(),
        rec ? "rebuild" : "decode");
    auto q = ptrs(w.frag);
    for (int i = 0; i < w.s.n(); i++)
        if (miss[i]) {
            w.frag[i]->scribble(w.junk ^ i);
            if (rec ? i != dst : i >= w.s.k)
                q[i] = nullptr;
        }
    const auto before = snap(w.frag);
    int rc = rec ? quadiron_fnt32_reconstruct(
                 w.fec->f, q.data(), q.data() + w.s.k, miss.data(), dst, w.block)
                 : quadiron_fnt32_decode(
                     w.fec->f, q.data(), q.data() + w.s.k, miss.data(), w.block);
    if (rc == 0)
        c.fail("success although only %d of %d fragments are left", left, w.s.k);
    if (snap(w.frag) != before)
        c.fail("a failed call changed fragments");
    check_guards(c, w.frag, "failed call");
    c.tag(rec ? "too few: rebuild" : "too few: decode");
    c.nontrivial();
}

void damaged(pbt::Ctx& c)
{
    World w(c, 24, 1500, 1);
    if (w.s.m < 1 || w.encode(c) != 0)
        return;
    // exactly k fragments left, so that each of them is needed
    std::vector<int> miss(w.s.n(), 1);
    for (int i : c.subset(w.s.n(), w.s.k))
        miss[i] = 0;
    std::vector<int> cand, lost;
    for (int i = 0; i < w.s.n(); i++) {
        if (!miss[i] && (!w.s.sys || i >= w.s.k))
            cand.push_back(i);
        if (miss[i])
            lost.push_back(i);
    }
    if (cand.empty() || lost.empty()) {
        // systematic with all data left: headers of parities are not needed
        return;
    }
    const int victim = c.pick(cand);
    uint8_t* h = w.frag[victim]->ptr();
    const size_t cap = capacity(w.hs);
    bool must_fail = true;
    const int kind = c.weighted({3, 2, 4, 2, 3, 3});
    const char* names[] = {
        "magic bit", "magic", "count", "random header", "locations", "zero header"};
    switch (kind) {
    case 0:
        h[c.draw(4)] ^= 1 << c.draw(8);
        break;
    case 1: {
        uint32_t v = c.pick({0u,
                             0xffffffffu,
                             __builtin_bswap32(MAGIC),
                             MAGIC + 1,
                             0x31544e46u,
                             0x464E5430u});
        put_be32(h, v);
        break;
    }
    case 2: {
        uint32_t v = c.pick({(uint32_t)cap + 1,
                             (uint32_t)cap + 2,
                             (uint32_t)cap + 3,
                             0xffffffffu,
                             0xfffffffeu,
                             0xfffffffdu,
                             0x80000000u,
                             0x7fffffffu,
                             0x40000000u,
                             0x3fffffffu,
                             0x10000u});
        put_be32(h + 4, v);
        break;
    }
    case 3: {
        pbt::Prng r(c.seed64());
        for (int i = 0; i < w.hs; i++)
            h[i] = (uint8_t)r.next();
        break; // right magic by chance: 2^-32
    }
    case 4: {
        // well-formed header with arbitrary locations: nothing can tell that
        // it is wrong, but it must not do any harm
        must_fail = false;
        const uint32_t n = c.range(0, cap);
        put_be32(h + 4, n);
        pbt::Prng r(c.seed64());
        for (uint32_t i = 0; i < cap; i++) {
            uint32_t v;
            switch (r.below(5)) {
            case 0:
                v = (uint32_t)r.next();
                break;
            case 1:
                v = w.words ? (uint32_t)r.below(w.words) : 0;
                break;
            case 2:
                v = (uint32_t)w.words + (uint32_t)r.below(3) - 1;
                break;
            case 3:
                v = 0xffffffffu - (uint32_t)r.below(3);
                break;
            default:
                v = (uint32_t)(1024 * r.below(4));
            }
            put_be32(h + 8 + 4 * i, v);
        }
        break;
    }
    default:
        memset(h, 0, w.hs);
    }
    const bool rec = c.coin();
    const int dst = c.pick(lost);
    c.desc(
        "| %s of fragment %d damaged, lost %s, %s %d",
        names[kind],
        victim,
        bits(miss).c_str(),
        rec ? "rebuild" : "decode",
        dst);
    auto q = ptrs(w.frag);
    int rc = rec ? quadiron_fnt32_reconstruct(
                 w.fec->f, q.data(), q.data() + w.s.k, miss.data(), dst, w.block)
                 : quadiron_fnt32_decode(
                     w.fec->f, q.data(), q.data() + w.s.k, miss.data(), w.block);
    if (must_fail && rc == 0)
        c.fail("success with a damaged header");
    check_guards(c, w.frag, "call with a damaged header");
    c.tag(std::string("damage: ") + names[kind]);
    c.nontrivial();
}

void bad_size(pbt::Ctx& c)
{
    World w(c, 16, 300, 1);
    if (w.s.ws != 2 || w.s.m < 1)
        return;
    const size_t odd = 2 * c.sized(0, 3000) + 1;
    const int hs = quadiron_fnt32_get_metadata_size(w.fec->f, odd);
    Bufs frag = make_bufs(w.s.n(), hs, odd);
    for (int i = 0; i < w.s.n(); i++) {
        frag[i]->scribble(i + w.junk);
        memset(frag[i]->ptr(), 0, hs);
        put_be32(frag[i]->ptr(), MAGIC);
    }
    std::vector<int> wanted(w.s.n_outputs(), 1), miss(w.s.n(), 0);
    for (int i : c.subset(w.s.n(), c.range(1, w.s.m)))
        miss[i] = 1;
    int dst = 0;
    while (!miss[dst])
        dst++;
    auto q = ptrs(frag);
    const auto before = snap(frag);
    const int op = c.range(0, 2);
    c.desc("| block size %zu op %d", odd, op);
    int rc;
    if (op == 0)
        rc = quadiron_fnt32_encode(
            w.fec->f, q.data(), q.data() + w.s.k, wanted.data(), odd);
    else if (op == 1)
        rc = quadiron_fnt32_decode(
            w.fec->f, q.data(), q.data() + w.s.k, miss.data(), odd);
    else
        rc = quadiron_fnt32_reconstruct(
            w.fec->f, q.data(), q.data() + w.s.k, miss.data(), dst, odd);
    if (rc == 0)
        c.fail("success with a block size that is not a multiple of the word");
    if (snap(frag) != before)
        c.fail("a failed call changed fragments");
    check_guards(c, frag, "call with a bad size");
    c.tag("odd block size");
    c.nontrivial();
}

void bad_params(pbt::Ctx& c)
{
    int ws = c.pick({1, 2});
    const int lim = ws == 1 ? 256 : 65536;
    int k, m;
    switch (c.weighted({2, 3, 2, 2, 3, 1})) {
    case 0:
        ws = c.pick({0, 3, 4, 8, 16, -1, 255});
        k = c.range(1, 5);
        m = c.range(1, 5);
        break;
    case 1: // too many fragments
        k = c.range(1, lim / 2);
        m = lim - k + 1 + (int)c.sized(0, 5000);
        break;
    case 2: // too many data for the decoder
        k = lim / 2 + 1 + (int)c.sized(0, lim / 2);
        m = c.sized(0, 100);
        break;
    case 3: // nothing to encode
        k = -(int)c.sized(0, 10);
        m = c.range(0, 9);
        break;
    case 4: // fewer than no parities
        m = -1 - (int)c.sized(0, 20);
        k = c.coin() ? c.range(1, 9) : 2 - m + (int)c.sized(0, 9);
        break;
    default: // sums that overflow
        k = 0x7fffffff - (int)c.range(0, 3);
        m = c.pick({1, 0x7fffffff});
    }
    const int sys = c.coin();
    c.desc("parameters ws=%d k=%d m=%d sys=%d", ws, k, m, sys);
    QuadironFnt32* f = quadiron_fnt32_new(ws, k, m, sys);
    if (f) {
        quadiron_fnt32_delete(f);
        c.fail("unsupported parameters accepted");
    }
    c.tag("unsupported parameters");
    c.nontrivial();
}

void bad_destination(pbt::Ctx& c)
{
    World w(c, 16, 300, 1);
    if (w.s.m < 1 || w.encode(c) != 0)
        return;
    std::vector<int> miss(w.s.n(), 0);
    for (int i : c.subset(w.s.n(), c.range(0, w.s.m)))
        miss[i] = 1;
    const unsigned dst =
        w.s.n() + (c.one_in(4) ? 0x7fffffffu : (unsigned)c.sized(0, 4000));
    c.desc("| destination %u", dst);
    auto q = ptrs(w.frag);
    const auto before = snap(w.frag);
    int rc = quadiron_fnt32_reconstruct(
        w.fec->f, q.data(), q.data() + w.s.k, miss.data(), dst, w.block);
    if (rc == 0)
        c.fail("success for a fragment that does not exist");
    if (snap(w.frag) != before)
        c.fail("a failed call changed fragments");
    c.tag("no such fragment");
    c.nontrivial();
}

/// encode succeeds exactly when the marks of every wanted fragment fit
void overflow(pbt::Ctx& c)
{
    Shape s;
    s.ws = 1;
    s.sys = c.coin();
    s.k = c.range(1, 5);
    s.m = c.range(1, 5);
    const size_t words = c.one_in(3) ? c.range(1, 6000) : c.range(2200, 4200);
    const uint64_t seed = c.seed64();
    c.desc(
        "ws=1 k=%d m=%d %s words=%zu, marks against capacity",
        s.k,
        s.m,
        s.sys ? "sys" : "nonsys",
        words);
    Fec fec(s);
    c.check(fec.f != nullptr, "supported parameters refused");
    const int hs = quadiron_fnt32_get_metadata_size(fec.f, words);
    Bufs frag = make_bufs(s.n(), hs, words);
    std::vector<std::vector<uint8_t>> orig(s.k);
    pbt::Prng r(seed);
    for (int i = 0; i < s.k; i++) {
        orig[i].resize(words);
        for (auto& b : orig[i])
            b = (uint8_t)r.next();
        memcpy(frag[i]->payload(), orig[i].data(), words);
    }
    std::vector<int> wanted(s.n_outputs(), 1);
    auto overfull = [&](int i) {
        std::vector<int> one(s.n_outputs(), 0);
        one[i] = 1;
        return refusal_expected(s, orig, one, hs);
    };
    switch (c.draw(3)) {
    case 0:
        break;
    case 1:
        for (auto& x : wanted)
            x = c.coin();
        break;
    default: // the ones that fit
        for (size_t i = 0; i < wanted.size(); i++)
            wanted[i] = !overfull(i);
    }
    auto p = ptrs(frag);
    const bool expect = refusal_expected(s, orig, wanted, hs);
    int rc = quadiron_fnt32_encode(
        fec.f, p.data(), p.data() + s.k, wanted.data(), words);
    check_guards(c, frag, "encode");
    if (expect && rc == 0)
        c.fail("success although marks do not fit the header");
    if (!expect && rc != 0)
        c.fail("refused although all marks fit the header");
    c.tag(expect ? "marks do not fit" : "marks fit");
    c.nontrivial();
    if (rc != 0)
        return;
    // the fragments that were not wanted are lost; one of them is rebuilt
    const int off = s.sys ? s.k : 0;
    std::vector<int> miss(s.n(), 0), lost;
    for (int i = 0; i < s.n_outputs(); i++)
        if (!wanted[i]) {
            miss[off + i] = 1;
            lost.push_back(off + i);
        }
    if (lost.empty() || s.n() - (int)lost.size() < s.k)
        return;
    const int dst = c.pick(lost);
    auto q = ptrs(frag);
    for (int i : lost)
        if (i != dst && c.coin())
            q[i] = nullptr;
    std::vector<std::vector<uint8_t>> before;
    for (auto& f : frag)
        before.push_back(f->copy());
    const bool refuse = overfull(dst - off);
    c.desc("| rebuild %d from %d fragments", dst, s.n() - (int)lost.size());
    rc = quadiron_fnt32_reconstruct(
        fec.f, q.data(), q.data() + s.k, miss.data(), dst, words);
    check_guards(c, frag, "rebuild");
    if (refuse && rc == 0)
        c.fail("rebuilt fragment %d although its marks do not fit the header", dst);
    if (!refuse && rc != 0)
        c.fail("refused to rebuild fragment %d although its marks fit", dst);
    for (int i = 0; i < s.n(); i++)
        if (!miss[i] && frag[i]->copy() != before[i])
            c.fail("fragment %d changed by the rebuild of %d", i, dst);
    c.tag(refuse ? "rebuild: marks do not fit" : "rebuild: marks fit");
}

} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({5, 7, 2, 2, 1, 3})) {
    case 0:
        return too_few(c);
    case 1:
        return damaged(c);
    case 2:
        return bad_size(c);
    case 3:
        return bad_params(c);
    case 4:
        return bad_destination(c);
    default:
        return overflow(c);
    }
}
