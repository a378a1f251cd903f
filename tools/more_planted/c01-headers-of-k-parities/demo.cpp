
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
#include <random>
#include "quadiron_c.h"
typedef std::vector<uint8_t> Bytes;
struct Code {
    QuadironFnt32* h; int k, m; bool sys; size_t bs; int meta;
    std::vector<Bytes> frag; std::vector<uint8_t*> d, p;
    Code(int ws, int k, int m, bool sys, size_t bs) : k(k), m(m), sys(sys), bs(bs) {
        h = quadiron_fnt32_new(ws, k, m, sys);
        meta = quadiron_fnt32_get_metadata_size(h, bs);
        frag.assign(k + m, Bytes(bs + meta, 0xA5));
        for (int i = 0; i < k; i++) d.push_back(frag[i].data());
        for (int i = 0; i < m; i++) p.push_back(frag[k + i].data());
    }
    ~Code() { quadiron_fnt32_delete(h); }
    void data(std::vector<Bytes> const& in) {
        for (int i = 0; i < k; i++) memcpy(frag[i].data() + meta, in[i].data(), bs);
    }
    int encode() { std::vector<int> w(k + m, 1); return quadiron_fnt32_encode(h, d.data(), p.data(), w.data(), bs); }
    int decode(std::vector<int> miss) { return quadiron_fnt32_decode(h, d.data(), p.data(), miss.data(), bs); }
    int rebuild(std::vector<int> miss, int dst) { return quadiron_fnt32_reconstruct(h, d.data(), p.data(), miss.data(), dst, bs); }
    bool same(std::vector<Bytes> const& in) {
        for (int i = 0; i < k; i++) if (memcmp(frag[i].data() + meta, in[i].data(), bs)) return false;
        return true;
    }
};
static std::vector<Bytes> rnd(int k, size_t bs, unsigned seed) {
    std::mt19937 g(seed); std::vector<Bytes> r(k, Bytes(bs));
    for (auto& b : r) for (auto& c : b) c = g();
    return r;
}

int main() {
    // 1-byte words: the value 256 shows up in the parities
    for (unsigned s = 0; s < 40; s++) {
        Code c(1, 3, 5, true, 3000);
        auto in = rnd(3, 3000, s);
        c.data(in);
        if (c.encode() != 0) continue;
        for (int i : {0, 1}) memset(c.frag[i].data(), 0, c.frag[i].size());
        if (c.decode({1, 1, 0, 1, 1, 1, 0, 0}) != 0) { puts("decode failed"); return 1; }
        if (!c.same(in)) { puts("wrong data"); return 1; }
    }
    return 0;
}
