
#include "quadiron.h"
#include <cstdio>
#include <sstream>
#include <random>
using namespace quadiron;
// decode with one instance that has served other patterns, for every pair of patterns
int main() {
    const int k = 3, m = 3;
    std::mt19937 g(1);
    for (auto type : {fec::RsMatrixType::VANDERMONDE, fec::RsMatrixType::CAUCHY}) {
        fec::RsGf2n<uint32_t> f(1, k, m, type);
        for (int rep = 0; rep < 20000; rep++) {
            uint8_t d[3]; std::string frag[6];
            std::vector<std::stringstream> si(k), so(m), rd(k), s(k + m);
            std::vector<std::istream*> in; std::vector<std::ostream*> out, rec;
            for (int i = 0; i < k; i++) { d[i] = g(); si[i].put(d[i]); frag[i] = std::string(1, char(d[i])); in.push_back(&si[i]); rec.push_back(&rd[i]); }
            for (auto& x : so) out.push_back(&x);
            std::vector<Properties> props(m);
            f.encode_streams_horizontal(in, out, props);
            for (int i = 0; i < m; i++) frag[k + i] = so[i].str();
            std::vector<std::istream*> di(k, nullptr), pi(m, nullptr);
            int left = k;
            while (left) { int i = g() % (k + m); auto& p = i < k ? di[i] : pi[i - k]; if (p) continue; s[i].str(frag[i]); p = &s[i]; left--; }
            bool clear = di[0] && di[1] && di[2];
            if (!f.decode_streams_horizontal(di, pi, props, rec)) return 1;
            if (clear) continue;
            for (int i = 0; i < k; i++) if (rd[i].str() != std::string(1, char(d[i]))) { puts("wrong data"); return 1; }
        }
    }
    return 0;
}
