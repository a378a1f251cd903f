#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    CHECK(arith::jacobi<uint32_t>(-1, 3) == -1);
    CHECK(arith::jacobi<uint32_t>(-1, 7) == -1);
    CHECK(arith::jacobi<uint32_t>(-1, 5) == 1);
    return 0;
}
