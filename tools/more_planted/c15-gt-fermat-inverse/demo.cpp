#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

template <typename F>
static int run(uint32_t q, int n) {
    auto f = gf::create<gf::Prime<uint32_t>>(q);
    fft::GoodThomas<uint32_t> gt(f, n);
    fft::Naive<uint32_t> na(f, n, f.get_nth_root(n));
    vec::Vector<uint32_t> in(f, n), a(f, n), b(f, n);
    for (int i = 0; i < n; i++) in.set(i, (i * i + 3) % q);
    gt.fft(a, in); na.fft(b, in);
    for (int i = 0; i < n; i++) CHECK(a.get(i) == b.get(i));
    return 0;
}
int main() {
    CHECK(run<int>(31, 15) == 0);
    CHECK(run<int>(37, 12) == 0);
    CHECK(run<int>(37, 36) == 0);
    CHECK(run<int>(73, 18) == 0);
    CHECK(run<int>(101, 50) == 0);
    return 0;
}
