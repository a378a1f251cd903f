
#include "quadiron.h"
#include <cstdio>
#include <cstring>
using namespace quadiron;
int main() {
    uint64_t w[4] = {1, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL};
    __uint128_t out[4];
    std::vector<uint8_t*> s{reinterpret_cast<uint8_t*>(w)}; std::vector<__uint128_t*> d{out};
    vec::pack<uint8_t, __uint128_t>(s, d, 1, 4, 8);
    for (int i = 0; i < 4; i++) if (out[i] != w[i]) { printf("word %d\n", i); return 1; }
    uint64_t o64[4]; std::vector<uint64_t*> d64{o64};
    vec::pack<uint8_t, uint64_t>(s, d64, 1, 4, 8);
    return memcmp(w, o64, sizeof w) ? 1 : 0;
}
