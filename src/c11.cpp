/* C11: marks of a fragment (Properties): model-based operation sequences,
 * binary header and text forms. */
#include <cstddef>
#include <cstdint>
#include <property.h>
#include "fecgen.h"
using quadiron::Properties;

namespace {
typedef std::vector<std::pair<size_t, uint32_t>> Model;
const uint32_t MAGIC = 0x464E5431;

uint32_t be(uint32_t v)
{
    return __builtin_bswap32(v);
}
size_t draw_loc(pbt::Ctx& c)
{
    switch (c.weighted({4, 3, 1, 1})) {
    case 0:
        return c.range(0, 40);
    case 1:
        return c.range(0, 70000);
    case 2:
        return 0xffffffffu - c.range(0, 3);
    default:
        return c.draw(0x100000000ULL);
    }
}
void same(pbt::Ctx& c, const Properties& p, const Model& m, const char* when)
{
    const auto& g = p.get_map();
    if (Model(g.begin(), g.end()) != m)
        c.fail("%s: %zu entries, model has %zu (or they differ)", when, g.size(), m.size());
}

/// exactly sized words on the heap, with a guard after them (unless ASAN)
struct Words {
    uint32_t* p;
    size_t n;
    explicit Words(size_t n) : p((uint32_t*)malloc(4 * n + 32)), n(n)
    {
        p = (uint32_t*)realloc(p, 4 * n + GUARD);
        memset(p, 0xee, 4 * n + GUARD);
    }
    ~Words()
    {
        free(p);
    }
    bool guard() const
    {
        for (size_t i = 0; i < GUARD; i++)
            if (((uint8_t*)(p + n))[i] != 0xee)
                return false;
        return true;
    }
#ifdef __SANITIZE_ADDRESS__
    static const size_t GUARD = 0;
#else
    static const size_t GUARD = 32;
#endif
};

void serialize(pbt::Ctx& c, Properties& p, const Model& m)
{
    size_t cap;
    switch (c.weighted({3, 2, 2})) {
    case 0:
        cap = m.size() + 2 + c.range(0, 20);
        break;
    case 1:
        cap = m.size() + c.range(0, 3);
        break;
    default:
        cap = c.range(0, m.size() + 2);
    }
    Words w(cap);
    const int rc = p.fnt_serialize(w.p, cap);
    c.check(w.guard(), "fnt_serialize wrote beyond the header");
    if (m.size() + 2 > cap) {
        if (rc == 0)
            c.fail("serialized %zu marks into %zu words", m.size(), cap);
        c.tag("does not fit");
        return;
    }
    if (rc != 0)
        c.fail("%zu marks refused although there are %zu words", m.size(), cap);
    std::vector<uint32_t> e(cap, 0);
    e[0] = be(MAGIC);
    e[1] = be(m.size());
    for (size_t i = 0; i < m.size(); i++)
        e[2 + i] = be(m[i].first);
    for (size_t i = 0; i < cap; i++)
        if (w.p[i] != e[i])
            c.fail("header word %zu is %08x instead of %08x", i, be(w.p[i]), be(e[i]));
    same(c, p, m, "after serialize");
    Properties q;
    if (q.fnt_deserialize(w.p, cap) != 0)
        c.fail("own header refused");
    Model r;
    for (auto& x : m)
        r.push_back({x.first, 1});
    same(c, q, r, "read back");
    c.tag("header round trip");
    if (!m.empty())
        c.nontrivial();
}

void text(pbt::Ctx& c, const Properties& p, const Model& m)
{
    std::ostringstream os;
    os << p;
    std::string want;
    for (auto& x : m)
        want += std::to_string(x.first) + " = " + std::to_string(x.second) + "\n";
    if (os.str() != want)
        c.fail("text form: %.100s", os.str().c_str());
    std::istringstream is(os.str());
    Properties q;
    is >> q;
    same(c, q, m, "text read back");
    if (!m.empty())
        c.nontrivial();
    c.tag("text round trip");
}

/// generated text with blanks, comments and sometimes an error
void odd_text(pbt::Ctx& c)
{
    static const char* const sp[] = {"", " ", "  ", "\t", " \t ", "\v", "\f"};
    auto blank = [&]() { return std::string(sp[c.draw(7)]); };
    Model m;
    std::string t;
    bool bad = false;
    const int n = c.range(0, 12);
    for (int i = 0; i < n; i++) {
        switch (c.weighted({8, 1, 1, 1, 1})) {
        case 0: {
            const size_t l = draw_loc(c);
            const uint32_t v = c.one_in(4) ? (uint32_t)c.draw(0x100000000ULL) : c.range(0, 3);
            t += blank() + std::to_string(l) + blank() + "=" + blank() + std::to_string(v) + blank();
            if (c.one_in(5))
                t += "\r";
            m.push_back({l, v});
            break;
        }
        case 1:
            t += blank();
            break;
        case 2:
            t += blank() + "# 12 = 1";
            break;
        case 3:
            t += blank() + "; x";
            break;
        default:
            t += blank() + "= 1"; // no key: skipped
        }
        t += "\n";
    }
    if (c.coin()) {
        static const char* const err[] = {"12", "12 =", "12 = ", "x = 1", "1 = x", "12x = 1", "1 = 1x",
                                          "-1 = 1", "1 = -1", "1 = 4294967296", "1 2 = 1", "1 = 1 2",
                                          "0x10 = 1", "99999999999999999999999 = 1", "1 == 1", "1 = 1 # c"};
        const int e = c.draw(16);
        t += std::string(err[e]) + "\n";
        bad = true;
        c.desc("| bad line '%s'", err[e]);
    }
    c.desc("| text of %zu bytes", t.size());
    std::istringstream is(t);
    Properties q;
    bool thrown = false;
    try {
        is >> q;
    } catch (const std::exception&) {
        thrown = true;
    }
    if (bad && !thrown)
        c.fail("malformed text accepted");
    if (!bad && thrown)
        c.fail("well-formed text refused");
    same(c, q, m, "text");
    c.nontrivial();
    c.tag(bad ? "malformed text" : "text with blanks and comments");
}

void odd_header(pbt::Ctx& c)
{
    const size_t n = c.range(0, 40);
    Words w(n);
    pbt::Prng r(c.seed64());
    for (size_t i = 0; i < n; i++)
        w.p[i] = be(r.below(3) ? (uint32_t)r.below(5000) : (uint32_t)r.next());
    if (n > 0 && !c.one_in(5))
        w.p[0] = be(MAGIC);
    else if (n > 0 && c.coin())
        w.p[0] = c.pick({MAGIC, be(MAGIC + 1), be(MAGIC ^ 0x80000000u)});
    uint32_t cnt = 0;
    if (n > 1) {
        switch (c.weighted({3, 3, 2})) {
        case 0:
            cnt = c.range(0, n);
            break;
        case 1:
            cnt = n - 2 + c.range(0, 3) - 1;
            break;
        default:
            cnt = c.pick({0xffffffffu, 0xfffffffeu, 0xfffffffdu, 0x80000000u, 0x7fffffffu, 0x3fffffffu,
                          0x40000000u, 0x10000u, 0x01000000u});
        }
        w.p[1] = be(cnt);
    }
    const bool ok = n >= 2 && w.p[0] == be(MAGIC) && cnt <= n - 2;
    c.desc("header of %zu words, count %u", n, cnt);
    Properties q;
    const int rc = q.fnt_deserialize(w.p, n);
    if (ok != (rc == 0))
        c.fail("header %s although it is %s", rc == 0 ? "accepted" : "refused", ok ? "good" : "bad");
    Model m;
    if (ok)
        for (size_t i = 0; i < cnt; i++)
            m.push_back({be(w.p[2 + i]), 1});
    same(c, q, m, "header");
    c.nontrivial();
    c.tag(ok ? "good header" : "bad header");
}
/// a decoder finds every mark, whatever the order they were added in, also
/// when they come from their stored form
void decode(pbt::Ctx& c)
{
    fg::Spec s;
    s.fam = fg::FNT;
    s.ws = 1;
    s.tbits = c.pick({16, 32});
    s.sys = c.coin();
    s.k = c.range(1, 4);
    s.m = c.range(1, 4);
    s.pkt = fg::draw_pkt(c, s);
    const size_t words = c.sized(1, 1500);
    const pbt::Fill fill = pbt::Fill::draw(c);
    const auto data = fg::make_data(s, fill, words);
    std::unique_ptr<fg::Codec> f = fg::make(s);
    std::vector<fg::Bytes> frags, out;
    fg::Props props;
    const fg::Iface i = c.pick(fg::ifaces(s)), o = c.pick(fg::ifaces(s));
    f->encode(i, data, frags, props);
    const auto have = fg::draw_have(c, s, s.k);
    bool all = s.sys, several = false;
    for (int j = 0; j < s.k; j++)
        all &= have[j];
    pbt::Prng r(c.seed64());
    const int how = c.range(0, 4);
    for (size_t j = 0; j < props.size(); j++) {
        auto& p = props[j];
        several |= have[(s.sys ? s.k : 0) + j] && p.get_map().size() > 1;
        if (how < 3) { // any order, or the reverse one
            auto v = p.get_map();
            p.clear();
            while (!v.empty()) {
                const size_t x = how == 0 ? v.size() - 1 : r.below(v.size());
                p.add(v[x].first, v[x].second);
                v.erase(v.begin() + x);
            }
        } else if (how == 3) {
            Words w(p.get_map().size() + 2);
            if (p.fnt_serialize(w.p, w.n) != 0)
                c.fail("marks do not fit");
            p.clear();
            if (p.fnt_deserialize(w.p, w.n) != 0)
                c.fail("own header refused");
        } else {
            std::stringstream t;
            t << p;
            p.clear();
            t >> p;
        }
    }
    c.desc("%s pkt=%zu words=%zu fill=%s %s/%s order %d left=%s", fg::show(s).c_str(), s.pkt, words,
           fill.name(), fg::IFACE_NAMES[i], fg::IFACE_NAMES[o], how, fg::bits(have).c_str());
    if (!f->decode(o, data, frags, have, props, std::vector<bool>(s.k, true), out))
        c.fail("decode fails");
    for (int j = 0; j < s.k && !all; j++)
        if (out[j] != data[j])
            c.fail("data %d: %s", j, fg::diff(out[j], data[j], s.ws).c_str());
    if (several && !all) {
        c.nontrivial();
        c.tag("decode with several marks");
    }
}
} // namespace

void property(pbt::Ctx& c)
{
    const int what = c.weighted({12, 5, 5, 2});
    if (what == 3)
        return decode(c);
    if (what == 1)
        return odd_text(c);
    if (what == 2)
        return odd_header(c);
    Properties p;
    Model m;
    const int steps = c.range(1, 30);
    c.desc("%d operations", steps);
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({12, 1, 2, 4, 2, 2})) {
        case 0: {
            const size_t l = draw_loc(c);
            const uint32_t v = c.one_in(4) ? (uint32_t)c.draw(0x100000000ULL) : 1;
            const int n = c.one_in(300) ? (int)c.range(200, 2500) : c.one_in(10) ? 40 : 1;
            for (int i = 0; i < n; i++) {
                p.add(l + i < 0x100000000ULL ? l + i : l, v);
                m.push_back({l + i < 0x100000000ULL ? l + i : l, v});
            }
            break;
        }
        case 1:
            p.clear();
            m.clear();
            c.tag("clear");
            break;
        case 2:
            p.sort();
            std::sort(m.begin(), m.end());
            c.tag("sort");
            break;
        case 3: {
            const size_t i = c.range(0, m.size() + 2);
            const size_t l = i < m.size() && c.coin() ? m[i].first : draw_loc(c);
            const bool in = i < m.size();
            if (p.location(i) != (in ? m[i].first : 0) || p.marker(i) != (in ? m[i].second : 0))
                c.fail("entry %zu of %zu", i, m.size());
            if (p.is_marked(i, l) != (in && m[i].first == l))
                c.fail("is_marked(%zu, %zu)", i, l);
            const size_t lo = c.coin() ? l : draw_loc(c), hi = c.coin() ? l : lo + c.range(0, 2000);
            if (p.in_range(i, lo, hi) != (in && m[i].first >= lo && m[i].first < hi))
                c.fail("in_range(%zu, %zu, %zu)", i, lo, hi);
            break;
        }
        case 4:
            serialize(c, p, m);
            break;
        default:
            text(c, p, m);
        }
        same(c, p, m, "operation");
    }
    // a copy is independent
    Properties q = p;
    q.add(1, 1);
    same(c, p, m, "after changing a copy");
    serialize(c, p, m);
    text(c, p, m);
}
