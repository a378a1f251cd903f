#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    auto f = gf::create<gf::Prime<uint32_t>>(65537);
    vec::Buffers<uint32_t> a(1, 16), b(1, 16);
    for (int i = 0; i < 16; i++) { a.get(0)[i] = 65536 - i; b.get(0)[i] = 65535; }
    f.hadamard_mul(16, b.get(0), a.get(0));
    for (int i = 0; i < 16; i++) CHECK(b.get(0)[i] == (uint32_t)(i + 1) * 2);
    for (int i = 0; i < 16; i++) { a.get(0)[i] = 65536; b.get(0)[i] = 65536; }
    f.hadamard_mul(16, b.get(0), a.get(0));
    for (int i = 0; i < 16; i++) CHECK(b.get(0)[i] == 1);
    return 0;
}
