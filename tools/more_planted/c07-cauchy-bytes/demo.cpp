
#include "quadiron.h"
#include <cstdio>
#include <sstream>
using namespace quadiron;
int main() {
    const int k = 3, m = 300;
    fec::RsGf2n<uint32_t> f(2, k, m, fec::RsMatrixType::CAUCHY);
    for (int a = 0; a < 44; a++) {
        uint16_t d[3] = {uint16_t(1000 + a), 7, 40000};
        std::vector<std::stringstream> si(k), so(m), rd(k);
        std::vector<std::istream*> in, none(k, nullptr), pin(m, nullptr); std::vector<std::ostream*> out, rec;
        for (int i = 0; i < k; i++) { si[i].write(reinterpret_cast<char*>(&d[i]), 2); in.push_back(&si[i]); rec.push_back(&rd[i]); }
        for (auto& s : so) out.push_back(&s);
        std::vector<Properties> props(m);
        f.encode_streams_horizontal(in, out, props);
        pin[a] = &so[a]; pin[100] = &so[100]; pin[256 + a] = &so[256 + a];
        try {
            if (!f.decode_streams_horizontal(none, pin, props, rec)) return 1;
        } catch (std::exception const& e) { puts(e.what()); return 1; }
        for (int i = 0; i < k; i++) {
            uint16_t v = 0; rd[i].read(reinterpret_cast<char*>(&v), 2);
            if (v != d[i]) { puts("wrong data"); return 1; }
        }
    }
    return 0;
}
