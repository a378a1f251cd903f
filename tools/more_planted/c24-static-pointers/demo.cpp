
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
#include <random>
#include "quadiron_c.h"
typedef std::vector<uint8_t> Bytes;
struct Code {
    QuadironFnt32* h; int k, m; bool sys; size_t bs; int meta;
    std::vector<Bytes> frag; std::vector<uint8_t*> d, p;
    Code(int ws, int k, int m, bool sys, size_t bs) : k(k), m(m), sys(sys), bs(bs) {
        h = quadiron_fnt32_new(ws, k, m, sys);
        meta = quadiron_fnt32_get_metadata_size(h, bs);
        frag.assign(k + m, Bytes(bs + meta, 0xA5));
        for (int i = 0; i < k; i++) d.push_back(frag[i].data());
        for (int i = 0; i < m; i++) p.push_back(frag[k + i].data());
    }
    ~Code() { quadiron_fnt32_delete(h); }
    void data(std::vector<Bytes> const& in) {
        for (int i = 0; i < k; i++) memcpy(frag[i].data() + meta, in[i].data(), bs);
    }
    int encode() { std::vector<int> w(k + m, 1); return quadiron_fnt32_encode(h, d.data(), p.data(), w.data(), bs); }
    int decode(std::vector<int> miss) { return quadiron_fnt32_decode(h, d.data(), p.data(), miss.data(), bs); }
    int rebuild(std::vector<int> miss, int dst) { return quadiron_fnt32_reconstruct(h, d.data(), p.data(), miss.data(), dst, bs); }
    bool same(std::vector<Bytes> const& in) {
        for (int i = 0; i < k; i++) if (memcmp(frag[i].data() + meta, in[i].data(), bs)) return false;
        return true;
    }
};
static std::vector<Bytes> rnd(int k, size_t bs, unsigned seed) {
    std::mt19937 g(seed); std::vector<Bytes> r(k, Bytes(bs));
    for (auto& b : r) for (auto& c : b) c = g();
    return r;
}

#include <thread>
#include <atomic>
int main() {
    const size_t bs = 4096; std::atomic<int> bad{0};
    std::vector<std::thread> th;
    for (int t = 0; t < 4; t++) th.emplace_back([&, t] {
        Code ref(2, 5, 2, true, bs), c(2, 5, 2, true, bs);
        (void)ref;
        std::vector<Bytes> want;
        for (int rep = 0; rep < 400 && !bad; rep++) {
            auto in = rnd(5, bs, 100 * t + rep);
            c.data(in);
            if (c.encode() != 0) { bad = 1; break; }
            for (int i = 0; i < 2; i++) memset(c.frag[i].data(), 0, c.frag[i].size());
            if (c.decode({1, 1, 0, 0, 0, 0, 0}) != 0 || !c.same(in)) bad = 1;
        }
    });
    for (auto& x : th) x.join();
    if (bad) puts("wrong data with several threads");
    return bad;
}
