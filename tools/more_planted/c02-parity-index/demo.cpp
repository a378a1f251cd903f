
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
#include <random>
#include "quadiron_c.h"
typedef std::vector<uint8_t> Bytes;
struct Code {
    QuadironFnt32* h; int k, m; bool sys; size_t bs; int meta;
    std::vector<Bytes> frag; std::vector<uint8_t*> d, p;
    Code(int ws, int k, int m, bool sys, size_t bs) : k(k), m(m), sys(sys), bs(bs) {
        h = quadiron_fnt32_new(ws, k, m, sys);
        meta = quadiron_fnt32_get_metadata_size(h, bs);
        frag.assign(k + m, Bytes(bs + meta, 0xA5));
        for (int i = 0; i < k; i++) d.push_back(frag[i].data());
        for (int i = 0; i < m; i++) p.push_back(frag[k + i].data());
    }
    ~Code() { quadiron_fnt32_delete(h); }
    void data(std::vector<Bytes> const& in) {
        for (int i = 0; i < k; i++) memcpy(frag[i].data() + meta, in[i].data(), bs);
    }
    int encode() { std::vector<int> w(k + m, 1); return quadiron_fnt32_encode(h, d.data(), p.data(), w.data(), bs); }
    int decode(std::vector<int> miss) { return quadiron_fnt32_decode(h, d.data(), p.data(), miss.data(), bs); }
    int rebuild(std::vector<int> miss, int dst) { return quadiron_fnt32_reconstruct(h, d.data(), p.data(), miss.data(), dst, bs); }
    bool same(std::vector<Bytes> const& in) {
        for (int i = 0; i < k; i++) if (memcmp(frag[i].data() + meta, in[i].data(), bs)) return false;
        return true;
    }
};
static std::vector<Bytes> rnd(int k, size_t bs, unsigned seed) {
    std::mt19937 g(seed); std::vector<Bytes> r(k, Bytes(bs));
    for (auto& b : r) for (auto& c : b) c = g();
    return r;
}

int main() {
    Code c(2, 3, 5, true, 512);
    c.data(rnd(3, 512, 1));
    if (c.encode()) return 2;
    auto all = c.frag;
    for (unsigned d = 0; d < 8; d++) {
        c.frag = all; c.d.clear(); c.p.clear();
        for (int i = 0; i < 3; i++) c.d.push_back(c.frag[i].data());
        for (int i = 0; i < 5; i++) c.p.push_back(c.frag[3 + i].data());
        std::vector<int> miss(8, 0);
        miss[d] = 1;
        c.frag[d].assign(c.frag[d].size(), 0x5A);
        if (c.rebuild(miss, d)) return 3;
        if (c.frag != all) { puts("different"); return 1; }
    }
    return 0;
}
