#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    auto f(gf::create<gf::Prime<uint32_t>>(257));
    vec::Poly<uint32_t> p(f, 8);
    p.zero_fill();
    p.set(0, 2); p.set(3, 7);
    CHECK(p.eval(1) == 9);
    CHECK(p.eval(2) == 58);
    CHECK(p.eval(0) == 2);
    return 0;
}
