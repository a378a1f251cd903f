/* C20: an instance that served other calls behaves like a fresh one, and
 * nothing stays allocated. */
#include "capix.h"
#include <cerrno>
using namespace fg;

/* Counts the blocks in use. */
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static long live_blocks;
static void* counted(void* p)
{
    if (p)
        live_blocks++;
    return p;
}
void* malloc(size_t n)
{
    return counted(__libc_malloc(n));
}
void free(void* p)
{
    if (p) {
        live_blocks--;
        __libc_free(p);
    }
}
void* calloc(size_t a, size_t b)
{
    return counted(__libc_calloc(a, b));
}
void* realloc(void* p, size_t n)
{
    if (!p)
        return malloc(n);
    if (n == 0) {
        free(p);
        return nullptr;
    }
    return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n)
{
    return counted(__libc_memalign(a, n));
}
void* aligned_alloc(size_t a, size_t n)
{
    return counted(__libc_memalign(a, n));
}
int posix_memalign(void** p, size_t a, size_t n)
{
    *p = counted(__libc_memalign(a, n));
    return *p ? 0 : ENOMEM;
}
}

namespace {

struct Op {
    int kind; // 0 encode, 1 decode, 2 rebuild (C), 3 damaged header (C)
    Iface f;
    size_t words;
    pbt::Fill fill;
    std::vector<bool> have;
    std::vector<bool> wanted;
    int dst;
    uint64_t seed;
};

/// everything that a call returns or writes
struct Result {
    bool ok = true;
    std::vector<Bytes> bytes;
    std::vector<std::map<off_t, uint32_t>> mk;
    bool operator==(const Result& o) const
    {
        return ok == o.ok && bytes == o.bytes && mk == o.mk;
    }
};

struct Prepared { // inputs of a decode, made by a fresh instance
    std::vector<Bytes> data, frags;
    Props props;
    std::vector<Bytes> whole;
    int hs = 0;
    bool usable = true;
};

/// `props`: the vector given to encode, as the previous call left it
Result run(Codec& f, const Spec& s, const Op& o, const Prepared& p, Props& props)
{
    Result r;
    if (o.kind == 0) {
        f.encode(o.f, p.data, r.bytes, props);
        for (auto& x : props)
            r.mk.push_back(marks(x));
    } else {
        r.bytes.resize(s.k);
        r.ok = f.decode(o.f, p.data, p.frags, o.have, p.props, o.wanted, r.bytes);
    }
    return r;
}

Result run_c(QuadironFnt32* q, const Spec& s, const Op& o, const Prepared& p)
{
    Result r;
    const size_t block = p.data[0].size();
    std::vector<std::vector<uint8_t>> b(s.n());
    std::vector<uint8_t*> ptr;
    for (int i = 0; i < s.n(); i++) {
        b[i].assign(p.hs + block, 0x77);
        if (o.kind == 0) {
            if (i < s.k && block)
                memcpy(b[i].data() + p.hs, p.data[i].data(), block);
        } else if (o.have[i]) {
            b[i] = p.whole[i];
            if (o.kind == 3 && o.dst == i)
                b[i][o.seed % 8] ^= 0xff;
        }
        ptr.push_back(b[i].data());
    }
    std::vector<int> fl;
    if (o.kind == 0) {
        fl.assign(s.n_outputs(), 1);
        r.ok = quadiron_fnt32_encode(q, ptr.data(), ptr.data() + s.k, fl.data(), block) == 0;
        if (!r.ok)
            return r; // what a refused encode leaves is not specified
    } else {
        for (int i = 0; i < s.n(); i++)
            fl.push_back(!o.have[i]);
        if (o.kind == 2)
            r.ok = quadiron_fnt32_reconstruct(q, ptr.data(), ptr.data() + s.k, fl.data(), o.dst, block) == 0;
        else
            r.ok = quadiron_fnt32_decode(q, ptr.data(), ptr.data() + s.k, fl.data(), block) == 0;
    }
    r.bytes = b;
    return r;
}

} // namespace

void property(pbt::Ctx& c)
{
    const bool use_c = c.one_in(3);
    const Fam fam = use_c ? FNT : (Fam)(int)c.weighted({4, 3, 1, 2, 1, 1, 2});
    Spec s = draw_field(c, fam, 1500);
    const bool costly = s.tbits == 128 && fam != NF4;
    draw_shape(c, s, slow(s) || costly ? 12 : (c.one_in(10) ? 70 : (c.one_in(3) ? 30 : 14)));
    s.pkt = draw_pkt(c, s);
    c.desc("%s%s pkt=%zu", use_c ? "C API " : "", show(s).c_str(), s.pkt);
    const int steps = slow(s) ? 3 : c.range(2, fam == NF4 && s.ws >= 4 ? 4 : 8);
    std::vector<Op> ops;
    for (int i = 0; i < steps; i++) {
        Op o;
        o.kind = use_c ? c.weighted({2, 4, 3, 2}) : c.weighted({2, 3});
        o.f = c.pick(ifaces(s));
        o.words = use_c ? capi::draw_words(c, s.n() > 30 ? 1100 : 2200)
                        : draw_len(c, s, costly ? 16 : (s.n() > 30 ? 60 : 300));
        o.fill = pbt::Fill::draw(c);
        const int left = c.one_in(3) ? (int)c.range(0, s.n()) : s.k;
        o.have = draw_have(c, s, left);
        o.wanted.resize(s.k);
        const bool allw = c.coin();
        for (int x = 0; x < s.k; x++)
            o.wanted[x] = allw || c.coin();
        o.dst = c.draw(s.n());
        if (o.kind == 3)
            for (int x = 0; x < s.n(); x++) {
                const int y = (o.dst + x) % s.n();
                if (o.have[y] && (!s.sys || y >= s.k)) {
                    o.dst = y;
                    break;
                }
            }
        o.seed = c.seed64();
        c.desc("| %s %s words=%zu %s", (const char*[]){"encode", "decode", "rebuild", "damaged"}[o.kind],
               IFACE_NAMES[o.f], o.words, o.kind ? bits(o.have).c_str() : o.fill.name());
        ops.push_back(o);
    }
    // inputs, and results of fresh instances
    std::vector<Prepared> prep(steps);
    std::vector<Result> fresh(steps);
    int decodes = 0;
    for (int i = 0; i < steps; i++) {
        const Op& o = ops[i];
        Prepared& p = prep[i];
        p.data = make_data(s, o.fill, o.words);
        const rc::Hot hot = rc::overlay(c, s, p.data, 12);
        if (o.kind != 3 && o.kind != 2)
            rc::favour(c, hot, ops[i].have);
        if (use_c) {
            capi::Fec q(cx::shape(s));
            c.check(q.f != nullptr, "supported parameters refused");
            cx::CFrags x = cx::encode(c, q, s, p.data);
            p.hs = x.hs;
            p.whole = x.whole;
            if (x.rc != 0 && o.kind != 0) {
                p.usable = false;
                continue;
            }
            capi::Fec q2(cx::shape(s));
            fresh[i] = run_c(q2.f, s, o, p);
        } else {
            std::unique_ptr<Codec> f = make(s);
            f->encode(o.f, p.data, p.frags, p.props);
            if (o.kind != 0) {
                std::unique_ptr<Codec> g = make(s);
                Props none;
                fresh[i] = run(*g, s, o, p, none);
            } else {
                fresh[i].bytes = p.frags;
                for (auto& x : p.props)
                    fresh[i].mk.push_back(marks(x));
            }
        }
        decodes += o.kind != 0;
    }
    // one instance for all of them, twice over; the second life is measured
    for (int life = 0; life < 2; life++) {
        const long before = live_blocks;
        {
            std::unique_ptr<Codec> f;
            std::unique_ptr<capi::Fec> q;
            if (use_c)
                q.reset(new capi::Fec(cx::shape(s)));
            else
                f = make(s);
            Props props;
            for (int pass = 0; pass < 2; pass++)
                for (int i = 0; i < steps; i++) {
                    if (!prep[i].usable)
                        continue;
                    const Result r = use_c ? run_c(q->f, s, ops[i], prep[i]) : run(*f, s, ops[i], prep[i], props);
                    if (!(r == fresh[i]))
                        c.fail("step %d of pass %d differs from a fresh instance", i, pass);
                }
        }
        const long after = live_blocks;
        if (life == 1 && after != before)
            c.fail("%ld blocks stay allocated", after - before);
    }
    if (decodes && steps > 1)
        c.nontrivial();
    c.tag(use_c ? "C API" : FAM_NAMES[fam]);
}
