#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    auto f = gf::create<gf::BinExtension<uint64_t>>(32);
    CHECK(f.mul(0x80000000u, 2) == 0x8d);
    return 0;
}
