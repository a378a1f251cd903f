#include <cstdint>
#include <cstddef>
#include "quadiron_c.h"
#include <cstdio>
#include <vector>
int main() {
    const int k = 2, m = 2; const size_t block = 64;
    auto f = quadiron_fnt32_new(2, k, m, 0);
    size_t h = quadiron_fnt32_get_metadata_size(f, block);
    std::vector<std::vector<uint8_t>> b(k + m, std::vector<uint8_t>(h + block, 7));
    uint8_t *d[] = {b[0].data(), b[1].data()}, *p[] = {b[2].data(), b[3].data()};
    int want[] = {1, 1, 1, 1};
    if (quadiron_fnt32_encode(f, d, p, want, block) != 0) return 2;
    auto good = b;
    int miss[] = {0, 0, 1, 1};
    b[2].assign(h + block, 0xaa);
    b[3].assign(h + block, 0xbb);
    auto other = b[3];
    if (quadiron_fnt32_reconstruct(f, d, p, miss, 2, block) != 0) return 3;
    quadiron_fnt32_delete(f);
    if (b[2] != good[2]) return 4;
    if (b[3] != other) { puts("a fragment that was not asked for changed"); return 1; }
    return 0;
}
