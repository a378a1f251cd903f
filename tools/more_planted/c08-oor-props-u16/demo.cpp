#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    // 257: symbols out of range are common
    const unsigned k = 2, m = 2, words = 400;
    fec::RsFnt<uint16_t> f(fec::FecType::NON_SYSTEMATIC, 1, k, m, 20);
    std::vector<std::vector<uint8_t>> d(k, std::vector<uint8_t>(words)), o(4, std::vector<uint8_t>(words));
    for (unsigned i = 0; i < words; i++) { d[0][i] = i * 7; d[1][i] = i * 13 + i / 50; }
    std::vector<uint8_t*> dp, op;
    for (auto& x : d) dp.push_back(x.data());
    for (auto& x : o) op.push_back(x.data());
    std::vector<Properties> p(4);
    std::vector<bool> w(4, true);
    f.encode_blocks_vertical(dp, op, p, w, words);
    std::vector<bool> want(2, true);
    for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) {
        std::vector<int> miss(4, 1);
        miss[a] = miss[b] = 0;
        auto g = d;
        std::vector<uint8_t*> gp = {g[0].data(), g[1].data()};
        for (auto& x : g) x.assign(words, 0);
        CHECK(f.decode_blocks_vertical(gp, op, p, miss, want, words));
        CHECK(g == d);
    }
    return 0;
}
