/* Fragments and marks of the C interface in the form used for C++ codecs. */
#ifndef CAPIX_H
#define CAPIX_H
#include "capi.h"
#include "refcode.h"

namespace cx {
using namespace fg;

struct CFrags {
    int rc = 0;
    int hs = 0;
    std::vector<Bytes> out; // payloads of the outputs
    std::vector<std::map<off_t, uint32_t>> mk;
    std::vector<Bytes> whole; // all n fragments, with headers
};

static inline capi::Shape shape(const Spec& s)
{
    capi::Shape h;
    h.ws = s.ws;
    h.k = s.k;
    h.m = s.m;
    h.sys = s.sys;
    return h;
}

/// parse a header: magic, count, locations, zero padding
static inline std::map<off_t, uint32_t> header(pbt::Ctx& c, const uint8_t* h, int hs, int frag)
{
    std::map<off_t, uint32_t> m;
    if (capi::be32(h) != capi::MAGIC)
        c.fail("fragment %d: no magic number in the header", frag);
    const uint32_t n = capi::be32(h + 4);
    if (n > capi::capacity(hs))
        c.fail("fragment %d: header says %u marks", frag, n);
    for (uint32_t i = 0; i < n; i++)
        m[capi::be32(h + 8 + 4 * i)] = 1;
    if (m.size() != n)
        c.fail("fragment %d: %u marks but %zu positions", frag, n, m.size());
    for (int i = 8 + 4 * n; i < hs; i++)
        if (h[i])
            c.fail("fragment %d: header byte %d is %d, not zero", frag, i, h[i]);
    return m;
}

static inline CFrags encode(pbt::Ctx& c, capi::Fec& f, const Spec& s, const std::vector<Bytes>& data)
{
    CFrags r;
    const size_t block = data[0].size();
    r.hs = quadiron_fnt32_get_metadata_size(f.f, block);
    if (r.hs != (int)(block / 65536 + 16) * 4)
        c.fail("header of %d bytes for blocks of %zu bytes", r.hs, block);
    capi::Bufs b = capi::make_bufs(s.n(), r.hs, block);
    for (int i = 0; i < s.n(); i++)
        b[i]->scribble(i + 5);
    for (int i = 0; i < s.k; i++)
        if (block)
            memcpy(b[i]->payload(), data[i].data(), block);
    auto p = capi::ptrs(b);
    std::vector<int> w(s.n_outputs(), 1);
    r.rc = quadiron_fnt32_encode(f.f, p.data(), p.data() + s.k, w.data(), block);
    capi::check_guards(c, b, "encode");
    if (r.rc != 0)
        return r;
    for (int i = 0; i < s.n(); i++) {
        r.whole.push_back(b[i]->copy());
        auto m = header(c, b[i]->ptr(), r.hs, i);
        if (s.sys && i < s.k) {
            if (!m.empty())
                c.fail("systematic data fragment %d has marks", i);
            if (block && memcmp(b[i]->payload(), data[i].data(), block))
                c.fail("encode changed systematic data fragment %d", i);
            continue;
        }
        r.mk.push_back(m);
        r.out.push_back(Bytes(b[i]->payload(), b[i]->payload() + block));
    }
    return r;
}

/// decode from the fragments that are left; checks the data
static inline void decode(pbt::Ctx& c, capi::Fec& f, const Spec& s, const CFrags& fr,
                          const std::vector<bool>& have, const std::vector<Bytes>& data)
{
    const size_t block = data[0].size();
    capi::Bufs b = capi::make_bufs(s.n(), fr.hs, block);
    std::vector<int> miss(s.n());
    for (int i = 0; i < s.n(); i++) {
        miss[i] = !have[i];
        if (have[i])
            b[i]->set(fr.whole[i]);
        else
            b[i]->scribble(i * 31 + 1);
    }
    auto p = capi::ptrs(b);
    const int rc = quadiron_fnt32_decode(f.f, p.data(), p.data() + s.k, miss.data(), block);
    capi::check_guards(c, b, "decode");
    if (rc != 0)
        c.fail("C API decode returns %d", rc);
    for (int i = 0; i < s.k; i++)
        if (block && memcmp(b[i]->payload(), data[i].data(), block))
            c.fail("C API decode, data %d: %s", i,
                   diff(Bytes(b[i]->payload(), b[i]->payload() + block), data[i], s.ws).c_str());
}

} // namespace cx
#endif
