
#include "quadiron.h"
#include <cstdio>
using namespace quadiron;
int main() {
    auto gf = gf::alloc<gf::Field<uint32_t>, gf::Prime<uint32_t>>(65537u);
    for (int sl = 1; sl < 12; sl++) for (int off = 0; off < sl; off++) for (int n = 1; n < 12; n++) {
        vec::Vector<uint32_t> s(*gf, sl), d(*gf, 20);
        for (int i = 0; i < sl; i++) s.set(i, 100 + i);
        for (int i = 0; i < 20; i++) d.set(i, 7000 + i);
        d.copy(&s, n, 5, off);
        for (int i = 0; i < 20; i++) {
            uint32_t w = (i < 5 || i >= 5 + n) ? 7000 + i : (off + i - 5 < sl ? 100 + off + i - 5 : 0);
            if (d.get(i) != w) { printf("copy %d of %d from %d: item %d\n", n, sl, off, i); return 1; }
        }
    }
    return 0;
}
