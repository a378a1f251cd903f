
#include "quadiron.h"
#include <cstdio>
#include <random>
#include <sstream>
#include <algorithm>
using namespace quadiron;
int main() {
    const size_t pkt = 16, bytes = 64; const int k = 4, m = 4;
    for (unsigned seed = 0; seed < 200; seed++) {
        fec::RsFnt<uint16_t> f(fec::FecType::NON_SYSTEMATIC, 1, k, m, pkt);
        std::mt19937 g(seed);
        std::vector<std::vector<uint8_t>> d(k, std::vector<uint8_t>(bytes)), o(f.n_outputs, std::vector<uint8_t>(bytes)), r = d;
        for (auto& v : d) for (auto& c : v) c = g();
        std::vector<uint8_t*> dp, op, rp;
        for (auto& v : d) dp.push_back(v.data());
        for (auto& v : o) op.push_back(v.data());
        for (auto& v : r) rp.push_back(v.data());
        std::vector<Properties> props(f.n_outputs), again(f.n_outputs);
        std::vector<bool> wanted(f.n_outputs, true), wd(k, true);
        f.encode_blocks_vertical(dp, op, props, wanted, bytes);
        // the marks are kept as a text whose lines are in another order
        for (unsigned i = 0; i < f.n_outputs; i++) {
            auto map = props[i].get_map();
            std::reverse(map.begin(), map.end());
            std::stringstream t;
            for (auto& e : map) t << e.first << " = " << e.second << "\n";
            t >> again[i];
        }
        std::vector<int> miss(f.code_len, 0); for (int i = 0; i < m; i++) miss[i] = 1;
        if (!f.decode_blocks_vertical(rp, op, again, miss, wd, bytes)) return 1;
        if (r != d) { puts("wrong data"); return 1; }
    }
    return 0;
}
