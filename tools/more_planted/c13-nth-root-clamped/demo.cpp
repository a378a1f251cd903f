#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    auto f = gf::create<gf::Prime<uint32_t>>(257);
    CHECK(f.get_order(f.get_nth_root(384)) == 128);
    CHECK(f.get_order(f.get_nth_root(512)) == 256);
    CHECK(f.get_order(f.get_nth_root(64)) == 64);
    return 0;
}
