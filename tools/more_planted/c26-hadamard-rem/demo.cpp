
#include "quadiron.h"
#include <cstdio>
using namespace quadiron;
int main() {
    auto gf = gf::alloc<gf::Field<__uint128_t>, gf::NF4<__uint128_t>>(4);
    auto lane = [](__uint128_t v, int i) { return uint32_t(v >> (32 * i)); };
    for (int n : {1, 2, 3, 4, 5}) for (uint32_t a : {0u, 1u, 2u, 65535u, 65536u}) for (uint32_t b : {0u, 1u, 3u, 65535u, 65536u}) {
        vec::Vector<__uint128_t> x(*gf, n), y(*gf, n);
        for (int i = 0; i < n; i++) { x.set(i, gf->replicate(a)); y.set(i, gf->replicate(b)); }
        x.hadamard_mul(&y);
        for (int i = 0; i < n; i++) for (int l = 0; l < 4; l++)
            if (lane(x.get(i), l) != uint64_t(a) * b % 65537) { printf("%u * %u at %d of %d\n", a, b, i, n); return 1; }
    }
    return 0;
}
