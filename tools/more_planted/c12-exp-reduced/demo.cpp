#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    auto f = gf::create<gf::Prime<uint32_t>>(65537);
    CHECK(f.exp(3, 65536) == 1);
    CHECK(f.exp(0, 65536) == 0);
    CHECK(f.exp(0, 5) == 0);
    return 0;
}
