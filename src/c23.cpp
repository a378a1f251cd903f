/* C23: decimal form of 128-bit integers and hex dump. */
#include <cstddef>
#include <cstdint>
#include <iomanip>
#include <quadiron.h>
#include <quadiron_c.h>
#include <iostream>
#include "pbt.h"
typedef unsigned __int128 u128;
typedef __int128 i128;

namespace {
u128 draw128(pbt::Ctx& c)
{
    switch (c.weighted({2, 4, 2, 2, 1})) {
    case 0:
        return c.range(0, 20);
    case 1: {
        u128 v = (u128)c.draw(0) << 64 | c.draw(0);
        return v >> c.draw(128);
    }
    case 2:
        return ((u128)1 << c.draw(128)) + (u128)c.range(0, 2) - 1;
    case 3: { // around a power of ten
        u128 v = 1;
        for (int i = (int)c.draw(39); i > 0; i--)
            v *= 10;
        return v * (1 + c.draw(3)) + (u128)c.range(0, 2) - 1;
    }
    default:
        return ~(u128)0 - c.range(0, 3);
    }
}
/// decimal digits by repeated doubling of a digit array (no 128-bit division)
std::string decimal(u128 v)
{
    std::vector<int> d(1, 0); // least significant first
    for (int b = 127; b >= 0; b--) {
        int carry = (int)((v >> b) & 1);
        for (auto& x : d) {
            x = 2 * x + carry;
            carry = x / 10;
            x %= 10;
        }
        if (carry)
            d.push_back(carry);
    }
    std::string s;
    for (size_t i = d.size(); i-- > 0;)
        s += (char)('0' + d[i]);
    return s;
}
void integers(pbt::Ctx& c)
{
    c.tag("128-bit output");
    std::ostringstream os;
    std::string want;
    const int m = 1 + c.draw(3);
    for (int i = 0; i < m; i++) {
        const u128 v = draw128(c);
        if (c.coin()) {
            using std::operator<<;
            std::operator<<(os, v);
            want += decimal(v);
        } else {
            const i128 s = (i128)v;
            std::operator<<(os, s);
            want += s < 0 ? "-" + decimal((u128)0 - v) : decimal(v);
        }
        os << ' ';
        want += ' ';
    }
    c.desc("print %s", want.c_str());
    if (os.str() != want)
        c.fail("printed %s, expected %s", os.str().c_str(), want.c_str());
    c.check(os.good(), "the stream is left in a failed state");
    // a stream that already failed stays untouched
    if (c.one_in(4)) {
        std::ostringstream bad;
        bad.setstate(std::ios_base::failbit);
        std::operator<<(bad, draw128(c));
        c.check(bad.str().empty(), "printed to a failed stream");
    }
    c.nontrivial();
}
/// redirects a stream for the duration of a scope
struct Redirect {
    std::ostream& os;
    std::ostringstream text;
    std::streambuf* old;
    explicit Redirect(std::ostream& o) : os(o), old(o.rdbuf(text.rdbuf())) {}
    ~Redirect()
    {
        os.rdbuf(old);
    }
};
void dump(pbt::Ctx& c)
{
    c.tag("hex dump");
    const size_t len = c.sized(0, 300);
    const bool text = c.coin();
    std::vector<uint8_t> b(len);
    const pbt::Fill f = pbt::Fill::draw(c);
    f.fill(b.data(), len, 0, 1);
    if (c.coin())
        for (auto& x : b) // mostly printable
            x = 0x20 + x % 0x60;
    c.desc("hex_dump of %zu bytes (%s), text=%d", len, f.name(), text);
    std::vector<uint8_t> copy(b);
    std::ostringstream os;
    const bool fmt = c.coin();
    if (fmt) {
        os << std::setfill('*') << std::oct << std::uppercase;
        os.flags(os.flags() & ~std::ios_base::uppercase);
    }
    const auto flags = os.flags();
    const char fill = os.fill();
    std::ostream& r = quadiron::hex_dump(os, b.data(), len, text);
    c.check(&r == &os, "another stream is returned");
    c.check(b == copy, "the buffer was changed");
    c.check(os.flags() == flags && os.fill() == fill, "the format of the stream was changed");
    // 32 bytes a line, two digits and a space each, then the printable form
    std::string want;
    for (size_t o = 0; o < len; o += 32) {
        const size_t m = std::min<size_t>(32, len - o);
        std::string t;
        for (size_t i = 0; i < m; i++) {
            char h[4];
            snprintf(h, sizeof h, "%02x ", b[o + i]);
            want += h;
            t += b[o + i] >= 0x20 && b[o + i] < 0x7f ? (char)b[o + i] : '.';
        }
        if (text) {
            for (size_t i = m; i < 32; i++)
                want += "   ";
            want += " | " + t;
        }
        want += "\n";
    }
    if (os.str() != want)
        c.fail("dump is\n%sexpected\n%s", os.str().c_str(), want.c_str());
    if (text && c.coin()) { // the C interface prints to the standard error
        Redirect e(std::cerr);
        quadiron_hex_dump(b.data(), len);
        if (e.text.str() != want)
            c.fail("C dump is\n%sexpected\n%s", e.text.str().c_str(), want.c_str());
    }
    std::ostringstream none;
    quadiron::hex_dump(none, nullptr, len, text);
    c.check(none.str().empty(), "a null buffer printed something");
    c.nontrivial(len > 0);
}
/// a buffer that accepts `room` characters and then fails
struct Full : std::streambuf {
    std::string got;
    size_t room;
    explicit Full(size_t r) : room(r) {}
    int_type overflow(int_type ch) override
    {
        if (got.size() >= room)
            return traits_type::eof();
        got += (char)ch;
        return ch;
    }
};
/// the numbers of a text, in order
std::vector<std::string> numbers(const std::string& s)
{
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) {
        if (s[i] < '0' || s[i] > '9') {
            i++;
            continue;
        }
        size_t j = i;
        while (j < s.size() && s[j] >= '0' && s[j] <= '9')
            j++;
        v.push_back(s.substr(i, j - i));
        i = j;
    }
    return v;
}
template <typename T>
void containers(pbt::Ctx& c, const char* type)
{
    namespace qv = quadiron::vec;
    c.tag("containers");
    // a prime field that the type can hold
    const T q = sizeof(T) == 2 ? (T)257 : sizeof(T) == 4 ? (T)65537 : (T)4294967291ull;
    auto gf = quadiron::gf::create<quadiron::gf::Prime<T>>(q);
    std::vector<std::string> want;
    std::string text;
    auto value = [&] {
        const T v = c.one_in(4) ? (T)0 : (T)(c.draw(0) % (uint64_t)q);
        return v;
    };
    const char* what = "";
    switch (c.draw(4)) {
    case 0: {
        what = "vector";
        const int n = (int)c.sized(0, 20);
        qv::Vector<T> v(gf, n);
        for (int i = 0; i < n; i++) {
            const T x = value();
            v.set(i, x);
            want.push_back(decimal(x));
        }
        Redirect r(std::cout);
        v.dump();
        text = r.text.str();
        break;
    }
    case 1: {
        what = "polynomial";
        const int n = 1 + (int)c.sized(0, 20);
        qv::Poly<T> v(gf, n);
        v.zero_fill();
        std::vector<T> m(n);
        for (int i = 0; i < n; i++) {
            m[i] = value();
            v.set(i, m[i]);
        }
        int deg = n - 1;
        while (deg >= 0 && m[deg] == 0)
            deg--;
        for (int i = 0; i <= deg; i++) {
            want.push_back(decimal(m[i]));
            want.push_back(decimal(i));
        }
        Redirect r(std::cout);
        v.dump();
        text = r.text.str();
        break;
    }
    case 2: {
        what = "matrix";
        const int rows = 1 + (int)c.draw(6), cols = 1 + (int)c.draw(6);
        qv::Matrix<T> v(gf, rows, cols);
        std::vector<std::vector<T>> m(rows, std::vector<T>(cols));
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
                v.set(i, j, m[i][j] = value());
        const bool one = c.coin();
        const int row = (int)c.draw(rows);
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
                if (!one || i == row)
                    want.push_back(decimal(m[i][j]));
        Redirect r(std::cout);
        if (one)
            v.dump_row(row);
        else
            v.dump();
        text = r.text.str();
        break;
    }
    default: {
        what = "buffers";
        const int n = 1 + (int)c.draw(5);
        const size_t size = c.sized(0, 12);
        c.desc("dump of %d buffers of %zu %s", n, size, type);
        qv::Buffers<T> v(n, size);
        for (int i = 0; i < n; i++) {
            want.push_back(decimal(i));
            for (size_t j = 0; j < size; j++) {
                const T x = value();
                v.get(i)[j] = x;
                want.push_back(decimal(x));
            }
        }
        Redirect r(std::cout);
        v.dump();
        text = r.text.str();
    }
    }
    c.desc("dump of a %s of %s with %zu numbers", what, type, want.size());
    if (numbers(text) != want) {
        std::string w;
        for (auto& x : want)
            w += x + " ";
        c.fail("the dump is %s, the numbers should be %s", text.c_str(), w.c_str());
    }
    c.nontrivial(!want.empty());
}
void full_stream(pbt::Ctx& c)
{
    c.tag("full stream");
    const u128 v = draw128(c);
    const bool sign = c.coin();
    const i128 s = (i128)v;
    const std::string want = !sign ? decimal(v) : s < 0 ? "-" + decimal((u128)0 - v) : decimal(v);
    const size_t room = c.draw(want.size() + 2);
    Full buf(room);
    std::ostream os(&buf);
    if (sign)
        std::operator<<(os, s);
    else
        std::operator<<(os, v);
    c.desc("print %s to a stream with room for %zu characters", want.c_str(), room);
    if (os.bad() != (room < want.size()))
        c.fail("badbit is %d after %zu of %zu characters", os.bad(), buf.got.size(), want.size());
    c.check(want.compare(0, buf.got.size(), buf.got) == 0, "something else was printed");
    c.nontrivial(room < want.size());
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({4, 4, 1, 3})) {
    case 0:
        dump(c);
        break;
    case 1:
        integers(c);
        break;
    case 2:
        full_stream(c);
        break;
    default:
        switch (c.draw(4)) {
        case 0:
            containers<uint16_t>(c, "uint16_t");
            break;
        case 1:
            containers<uint32_t>(c, "uint32_t");
            break;
        case 2:
            containers<uint64_t>(c, "uint64_t");
            break;
        default:
            containers<__uint128_t>(c, "uint128_t");
        }
    }
}
