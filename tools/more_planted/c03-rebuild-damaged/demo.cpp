#include <cstdint>
#include <cstddef>
#include "quadiron_c.h"
#include <cstdio>
#include <vector>
int main() {
    const int k = 2, m = 2; const size_t block = 64;
    auto f = quadiron_fnt32_new(2, k, m, 0);
    size_t h = quadiron_fnt32_get_metadata_size(f, block);
    std::vector<std::vector<uint8_t>> b(k + m, std::vector<uint8_t>(h + block, 7));
    uint8_t *d[] = {b[0].data(), b[1].data()}, *p[] = {b[2].data(), b[3].data()};
    int want[] = {1, 1, 1, 1};
    if (quadiron_fnt32_encode(f, d, p, want, block) != 0) return 2;
    int miss[] = {1, 1, 0, 0};
    if (quadiron_fnt32_reconstruct(f, d, p, miss, 0, block) != 0) return 3;
    b[3][0] ^= 1;
    int rc = quadiron_fnt32_reconstruct(f, d, p, miss, 0, block);
    quadiron_fnt32_delete(f);
    if (rc == 0) { puts("a damaged fragment was used"); return 1; }
    return 0;
}
