
#include "quadiron.h"
#include <cstdio>
#include <cstring>
#include <random>
#include <sstream>
#include <algorithm>
using namespace quadiron;
typedef std::vector<std::vector<uint8_t>> Frags;
template <class F> struct Blk {
    F& f; size_t bytes; Frags d, o, r; std::vector<Properties> props;
    Blk(F& f, size_t bytes, unsigned seed) : f(f), bytes(bytes), d(f.n_data, std::vector<uint8_t>(bytes)), o(f.n_outputs, std::vector<uint8_t>(bytes)), r(d), props(f.n_outputs) {
        std::mt19937 g(seed);
        for (auto& v : d) for (auto& c : v) c = g();
    }
    static std::vector<uint8_t*> ptr(Frags& x) { std::vector<uint8_t*> p; for (auto& v : x) p.push_back(v.data()); return p; }
    void enc() { auto a = ptr(d), b = ptr(o); std::vector<bool> w(f.n_outputs, true); f.encode_blocks_vertical(a, b, props, w, bytes); }
    bool dec(std::vector<int> miss) {
        for (unsigned i = 0; i < f.n_data; i++) r[i] = (f.type == fec::FecType::SYSTEMATIC && !miss[i]) ? d[i] : std::vector<uint8_t>(bytes, 0x5A);
        auto a = ptr(r), b = ptr(o); std::vector<bool> w(f.n_data, true);
        return f.decode_blocks_vertical(a, b, props, miss, w, bytes);
    }
};

int main() {
    for (unsigned seed = 0; seed < 300; seed++) {
        fec::RsFnt<uint16_t> f(fec::FecType::SYSTEMATIC, 1, 3, 3, 64);
        Blk<fec::RsFnt<uint16_t>> b(f, 64 + 20, seed);
        b.enc();
        for (auto& p : b.props) for (auto& e : p.get_map())
            if (e.first >= b.bytes) { printf("mark at %zu of %zu symbols\n", e.first, b.bytes); return 1; }
    }
    return 0;
}
