/* C08: the scalar, SSE and AVX builds agree. The three builds are shared
 * objects loaded side by side. */
#include <cstddef>
#include <cstdint>
#include <quadiron_c.h>
#include "shim.h"
#include "fecgen.h"
#include <dlfcn.h>
#include <sstream>
#include "capi.h"
using namespace fg;

namespace {

std::vector<const Shim*> builds()
{
    static std::vector<const Shim*> v;
    if (v.empty()) {
        std::istringstream is(getenv("PBT_SHIMS") ? getenv("PBT_SHIMS") : "");
        std::string p;
        while (std::getline(is, p, ':')) {
            void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) {
                fprintf(stderr, "%s\n", dlerror());
                exit(2);
            }
            v.push_back(((const Shim* (*)())dlsym(h, "shim"))());
        }
        if (v.size() < 2)
            exit(2);
    }
    return v;
}
const char* const NAMES[] = {"scalar", "SSE", "AVX"};

void cpp(pbt::Ctx& c)
{
    const auto b = builds();
    const Fam fam = (Fam)(int)c.pick({(int)FNT, (int)FNT, (int)NF4, (int)GFP});
    Spec s = draw_field(c, fam, 400);
    draw_shape(c, s, slow(s) ? 20 : (c.one_in(10) ? (c.tier ? 600 : 260) : (c.one_in(3) ? 70 : 24)));
    s.pkt = draw_pkt(c, s);
    c.desc("%s pkt=%zu", show(s).c_str(), s.pkt);
    std::vector<std::unique_ptr<Codec>> f;
    for (auto x : b)
        f.emplace_back(x->make(s));
    const int rounds = fam == NF4 ? 4 : 2;
    for (int r = 0; r < rounds; r++) {
        const size_t words = draw_len(c, s, s.n() > 60 ? 200 : 900);
        const pbt::Fill fill = pbt::Fill::draw(c);
        const Iface i = c.pick(ifaces(s)), o = c.pick(ifaces(s));
        c.desc("| words=%zu fill=%s %s/%s", words, fill.name(), IFACE_NAMES[i], IFACE_NAMES[o]);
        const auto data = make_data(s, fill, words);
        std::vector<std::vector<Bytes>> fr(b.size());
        std::vector<Props> pr(b.size());
        for (size_t x = 0; x < b.size(); x++) {
            f[x]->encode(i, data, fr[x], pr[x]);
            for (int j = 0; j < s.n_outputs(); j++) {
                if (fr[x][j] != fr[0][j])
                    c.fail("fragment %d of the %s build: %s (scalar build)", j, NAMES[x],
                           diff(fr[x][j], fr[0][j], s.ws).c_str());
                if (marks(pr[x][j]) != marks(pr[0][j]))
                    c.fail("marks of fragment %d differ between scalar and %s build", j, NAMES[x]);
            }
        }
        // fragments from several builds, decoded by each of them
        std::vector<Bytes> mix;
        Props mp;
        for (int j = 0; j < s.n_outputs(); j++) {
            const size_t x = c.draw(b.size());
            mix.push_back(fr[x][j]);
            mp.push_back(pr[x][j]);
        }
        const auto have = draw_have(c, s, s.k);
        const std::vector<bool> wanted(s.k, true);
        c.desc("left=%s", bits(have).c_str());
        bool all = s.sys;
        for (int j = 0; j < s.k; j++)
            all &= have[j];
        for (size_t x = 0; x < b.size(); x++) {
            std::vector<Bytes> out;
            if (!f[x]->decode(o, data, mix, have, mp, wanted, out))
                c.fail("the %s build does not decode", NAMES[x]);
            if (!all)
                for (int j = 0; j < s.k; j++)
                    if (out[j] != data[j])
                        c.fail("data fragment %d decoded by the %s build: %s", j, NAMES[x],
                               diff(out[j], data[j], s.ws).c_str());
        }
        if (words && s.n_outputs())
            c.nontrivial();
    }
    c.tag(std::string(FAM_NAMES[fam]) + " u" + std::to_string(s.tbits));
}

void capi_(pbt::Ctx& c)
{
    const auto b = builds();
    capi::Shape s = capi::draw_shape(c, c.one_in(10) ? 260 : 40);
    const size_t words = capi::draw_words(c, s.n() > 60 ? 1100 : 2200);
    const size_t block = words * s.ws;
    const pbt::Fill fill = pbt::Fill::draw(c);
    c.desc("C API ws=%d k=%d m=%d %s words=%zu fill=%s", s.ws, s.k, s.m,
           s.sys ? "sys" : "nonsys", words, fill.name());
    std::vector<capi::Bufs> fr;
    std::vector<QuadironFnt32*> q;
    struct Closer {
        std::vector<QuadironFnt32*>& q;
        std::vector<const Shim*> b;
        ~Closer()
        {
            for (size_t i = 0; i < q.size(); i++)
                b[i]->c_delete(q[i]);
        }
    } closer{q, b};
    int rc0 = 0;
    for (size_t x = 0; x < b.size(); x++) {
        q.push_back(b[x]->c_new(s.ws, s.k, s.m, s.sys));
        c.check(q.back() != nullptr, "supported parameters refused");
        const int hs = b[x]->c_meta(q[x], block);
        fr.push_back(capi::make_bufs(s.n(), hs, block));
        for (int i = 0; i < s.k; i++)
            if (block)
                fill.fill(fr[x][i]->payload(), block, i, s.ws);
        auto p = capi::ptrs(fr[x]);
        std::vector<int> w(s.n_outputs(), 1);
        const int rc = b[x]->c_encode(q[x], p.data(), p.data() + s.k, w.data(), block);
        if (x == 0)
            rc0 = rc;
        if (rc != rc0)
            c.fail("encode: %d from the scalar and %d from the %s build", rc0, rc, NAMES[x]);
        if (rc)
            continue;
        // (systematic data headers are not wanted outputs, but are written too)
        for (int i = 0; i < s.n(); i++)
            if (fr[x][i]->copy() != fr[0][i]->copy())
                c.fail("fragment %d differs between the scalar and the %s build", i, NAMES[x]);
    }
    if (rc0 || s.m < 1)
        return;
    const auto ref = capi::snap(fr[0]);
    // lose some, rebuild one with one build and the rest of the data with another
    const auto miss = capi::draw_losses(c, s.n(), s.k, (int)c.range(1, s.m));
    std::vector<int> lost;
    for (int i = 0; i < s.n(); i++)
        if (miss[i])
            lost.push_back(i);
    const int dst = c.pick(lost);
    for (size_t x = 0; x < b.size(); x++) {
        for (int i : lost)
            fr[x][i]->scribble(i);
        auto p = capi::ptrs(fr[x]);
        std::vector<int> ms = miss;
        if (b[x]->c_reconstruct(q[x], p.data(), p.data() + s.k, ms.data(), dst, block) != 0)
            c.fail("rebuild of %d fails with the %s build", dst, NAMES[x]);
        if (fr[x][dst]->copy()
            != std::vector<uint8_t>(ref.begin() + dst * fr[x][dst]->size(),
                                    ref.begin() + (dst + 1) * fr[x][dst]->size()))
            c.fail("fragment %d rebuilt by the %s build is not the encoded one", dst, NAMES[x]);
        ms[dst] = 0;
        const size_t y = c.draw(b.size());
        if (b[y]->c_decode(q[y], p.data(), p.data() + s.k, ms.data(), block) != 0)
            c.fail("decode fails with the %s build", NAMES[y]);
        for (int i = 0; i < s.k; i++) {
            const auto d = fill.make(block, i, s.ws);
            if (block && memcmp(d.data(), fr[x][i]->payload(), block))
                c.fail("data %d, rebuilt by the %s and decoded by the %s build, differs", i, NAMES[x], NAMES[y]);
        }
    }
    if (words)
        c.nontrivial();
    c.tag("C API");
}

} // namespace

void property(pbt::Ctx& c)
{
    if (c.one_in(4))
        capi_(c);
    else
        cpp(c);
}
