
#include "quadiron.h"
#include <cstdio>
int main() {
    quadiron::Properties p; p.add(3, quadiron::OOR_MARK); p.add(70000, quadiron::OOR_MARK);
    uint32_t w[16];
    if (p.fnt_serialize(w, 16) != 0) return 1;
    quadiron::Properties ok;
    if (ok.fnt_deserialize(w, 16) != 0 || ok.get_map() != p.get_map()) return 1;
    for (int bit = 0; bit < 32; bit++) {
        uint32_t v[16]; for (int i = 0; i < 16; i++) v[i] = w[i];
        v[0] ^= 1u << bit;
        quadiron::Properties q;
        if (q.fnt_deserialize(v, 16) != -1) { printf("bit %d of the magic number ignored\n", bit); return 1; }
    }
    return 0;
}
