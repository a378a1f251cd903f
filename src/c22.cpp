/* C22: packing words into symbols and unpacking them. */
#include "gfx.h"
#include "vec_cast.h"
using gx::u128;
namespace vec = quadiron::vec;

namespace {
/// n buffers of exactly `bytes` bytes, 32-byte aligned, with guards
struct Bufs {
    std::vector<std::vector<uint8_t>> raw;
    std::vector<uint8_t*> p;
    size_t bytes;
    static const size_t G = 64;
    Bufs(int n, size_t bytes, uint8_t fill) : raw(n), p(n), bytes(bytes)
    {
        for (int i = 0; i < n; i++) {
            raw[i].assign(bytes + 2 * G + 32, fill);
            uintptr_t a = (uintptr_t)raw[i].data() + G;
            p[i] = (uint8_t*)((a + 31) / 32 * 32);
        }
    }
    template <typename T>
    std::vector<T*> as() const
    {
        std::vector<T*> v;
        for (auto q : p)
            v.push_back((T*)q);
        return v;
    }
    /// nothing beyond the first `used` bytes of buffer i differs from `fill`
    bool guard(int i, size_t used, uint8_t fill) const
    {
        for (const uint8_t* q = raw[i].data(); q < p[i]; q++)
            if (*q != fill)
                return false;
        for (const uint8_t* q = p[i] + used; q < raw[i].data() + raw[i].size(); q++)
            if (*q != fill)
                return false;
        return true;
    }
};

template <typename Ts, typename Td>
void run(pbt::Ctx& c, size_t ws)
{
    const bool many = c.one_in(40);
    const int bufs = 1 + (int)c.draw(many ? 700 : 5);
    const int n = c.one_in(4) ? (int)c.draw(bufs + 1) : bufs; // only the first n are asked for
    const size_t len = c.sized(0, many ? 20 : c.one_in(400) ? 70000 : 600);
    const pbt::Fill fill = pbt::Fill::draw(c);
    c.tag("word " + std::to_string(ws) + " in " + std::to_string(sizeof(Td)));
    c.desc("pack %d of %d buffers, %zu words of %zu bytes (from %zu-byte elements) into "
           "%zu-byte symbols, %s",
        n, bufs, len, ws, sizeof(Ts), sizeof(Td), fill.name());
    Bufs src(bufs, len * ws, 0x5a), dst(bufs, len * sizeof(Td), 0xc3);
    for (int i = 0; i < bufs; i++)
        fill.fill(src.p[i], len * ws, i, (int)ws);
    const Bufs src0(src);
    std::vector<std::vector<uint8_t>> copy;
    for (int i = 0; i < bufs; i++)
        copy.push_back(std::vector<uint8_t>(src.p[i], src.p[i] + len * ws));
    vec::pack<Ts, Td>(src.as<Ts>(), dst.as<Td>(), n, len, ws);
    for (int i = 0; i < bufs; i++) {
        if (memcmp(src.p[i], copy[i].data(), len * ws))
            c.fail("pack changed its source buffer %d", i);
        if (!dst.guard(i, i < n ? len * sizeof(Td) : 0, 0xc3))
            c.fail("pack wrote outside destination buffer %d", i);
        if (i >= n)
            continue;
        for (size_t j = 0; j < len; j++) {
            const u128 want = ref::load(src.p[i] + j * ws, (int)ws);
            const u128 got = ref::load(dst.p[i] + j * sizeof(Td), sizeof(Td));
            if (got != want)
                c.fail("symbol %zu of buffer %d is %s, its word is %s", j, i, GS(got), GS(want));
        }
    }
    // back
    Bufs out(bufs, len * ws, 0x77);
    vec::unpack<Td, Ts>(dst.as<Td>(), out.as<Ts>(), n, len, ws);
    for (int i = 0; i < bufs; i++) {
        if (!out.guard(i, i < n ? len * ws : 0, 0x77))
            c.fail("unpack wrote outside destination buffer %d", i);
        if (i < n && memcmp(out.p[i], copy[i].data(), len * ws))
            c.fail("buffer %d is not the same after pack and unpack", i);
    }
    // wider symbols: only the word part is kept, other buffers unaffected
    if (n > 0 && len > 0 && ws < sizeof(Td)) {
        const size_t j = c.draw(len);
        const int i = (int)c.draw(n);
        dst.p[i][j * sizeof(Td) + ws] ^= 1 + c.draw(255);
        vec::unpack<Td, Ts>(dst.as<Td>(), out.as<Ts>(), n, len, ws);
        c.check(!memcmp(out.p[i], copy[i].data(), len * ws),
            "unpack uses more than a word of the symbol");
    }
    c.nontrivial(n > 0 && len > 0);
}

template <typename Td>
void casts(pbt::Ctx& c)
{
    c.tag("cast");
    const int n = 1 + (int)c.draw(c.one_in(10) ? 700 : 6);
    const size_t size = c.sized(1, 60);
    c.desc("cast_mem_of_vecp of %d buffers of %zu", n, size);
    vec::Buffers<Td> b(n, size);
    auto* m = vec::cast_mem_of_vecp<Td, uint8_t>(&b);
    std::unique_ptr<std::vector<uint8_t*>> own(m);
    c.check((int)m->size() == n, "not one pointer per buffer");
    for (int i = 0; i < n; i++)
        c.check((void*)m->at(i) == (void*)b.get(i), "a pointer does not point to its buffer");
    c.nontrivial();
}
template <typename Td>
void symbol(pbt::Ctx& c)
{
    std::vector<int> ws;
    for (int w = 1; w <= (int)sizeof(Td); w *= 2)
        ws.push_back(w);
    const size_t w = c.pick(ws);
    if (c.one_in(12))
        return casts<Td>(c);
    switch (c.draw(4)) {
    case 1:
        if (w >= 2 && w % 2 == 0)
            return run<uint16_t, Td>(c, w);
        break;
    case 2:
        if (w >= 4)
            return run<uint32_t, Td>(c, w);
        break;
    default:
        break;
    }
    run<uint8_t, Td>(c, w);
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.draw(4)) {
    case 0:
        return symbol<uint16_t>(c);
    case 1:
        return symbol<uint32_t>(c);
    case 2:
        return symbol<uint64_t>(c);
    default:
        return symbol<u128>(c);
    }
}
