
#include "misc.h"
#include <cstdio>
#include <sstream>
#include <vector>
int main() {
    std::vector<unsigned char> b(200);
    for (size_t i = 0; i < b.size(); i++) b[i] = i * 37;
    for (size_t n = 0; n <= b.size(); n++) {
        std::ostringstream os; quadiron::hex_dump(os, b.data(), n, true);
        // every line is as wide as the others: the text starts at the same column
        std::istringstream is(os.str()); std::string l; size_t left = n;
        while (std::getline(is, l)) {
            size_t c = left < 32 ? left : 32; left -= c;
            if (l.size() < 96 || l.substr(96, 3) != " | " || l.size() != 99 + c) { printf("%zu bytes: [%s]\n", n, l.c_str()); return 1; }
        }
        if (left) return 1;
    }
    return 0;
}
