
#include "quadiron.h"
#include "fft_add.h"
#include <cstdio>
#include <random>
using namespace quadiron;
int main() {
    auto gf = gf::alloc<gf::Field<uint32_t>, gf::BinExtension<uint32_t>>(8);
    fft::Additive<uint32_t> f(*gf, 5);
    std::mt19937 g(3);
    for (int t = 2; t < 9; t++) for (int len = 1; len <= 32; len++) {
        vec::Vector<uint32_t> in(*gf, len), a(*gf, 32), b(*gf, 32);
        for (int i = 0; i < len; i++) in.set(i, g() & 255);
        for (int i = 0; i < 32; i++) { a.set(i, 0); b.set(i, g() & 255); }
        f.taylor_expand(a, in, 32, t);
        f.taylor_expand(b, in, 32, t);
        for (int i = 0; i < 32; i++) if (a.get(i) != b.get(i)) { printf("t %d len %d\n", t, len); return 1; }
    }
    return 0;
}
