
#include "quadiron.h"
#include <cstdio>
#include <cstring>
using namespace quadiron;
int main() {
    const size_t pkt = 9, bytes = 18; const int k = 2, m = 2;
    for (auto type : {fec::FecType::SYSTEMATIC, fec::FecType::NON_SYSTEMATIC}) {
        fec::RsFnt<uint32_t> f(type, 2, k, m, pkt);
        const bool sys = type == fec::FecType::SYSTEMATIC;
        std::vector<std::vector<uint8_t>> d(k, std::vector<uint8_t>(bytes, 0)), o(f.n_outputs, std::vector<uint8_t>(bytes)), r(k, std::vector<uint8_t>(bytes, 1));
        std::vector<uint8_t*> dp, op, rp;
        for (auto& v : d) dp.push_back(v.data());
        for (auto& v : o) op.push_back(v.data());
        for (auto& v : r) rp.push_back(v.data());
        std::vector<Properties> props(f.n_outputs);
        std::vector<bool> wanted(f.n_outputs, true), wd(k, true);
        f.encode_blocks_vertical(dp, op, props, wanted, bytes);
        for (auto& v : o) for (auto c : v) if (c) { puts("parity of zeros is not zero"); return 1; }
        std::vector<int> miss(f.code_len, 0); miss[0] = miss[1] = 1;
        if (!f.decode_blocks_vertical(rp, op, props, miss, wd, bytes)) return 1;
        (void)sys;
        if (r != d) { puts("wrong data"); return 1; }
    }
    return 0;
}
