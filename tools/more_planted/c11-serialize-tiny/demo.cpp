#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_add.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <vector>
#include <thread>
using namespace quadiron;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); return 1; } } while (0)

int main() {
    for (unsigned n = 0; n < 6; n++) {
        Properties p;
        p.add(1, OOR_MARK);
        std::vector<uint32_t> buf(64, 0xABABABAB);
        int r = p.fnt_serialize(buf.data(), n);
        CHECK(r == (n >= 3 ? 0 : -1));
        for (unsigned i = n; i < 64; i++) CHECK(buf[i] == 0xABABABAB);
    }
    return 0;
}
