/* C18: vectors, slices, views, zero-extended vectors and lists of buffers
 * against a model in which each of them is a list of numbered cells. */
#include "gfx.h"
using gx::u128;
using gx::Alg;
namespace gf = quadiron::gf;
namespace vec = quadiron::vec;

namespace {

/// harness-owned memory with guard elements around it
template <typename T>
struct Mem {
    std::vector<T> raw;
    size_t n;
    static const size_t G = 8;
    explicit Mem(size_t n) : raw(n + 2 * G, (T)0xa5), n(n) {}
    T* p()
    {
        return raw.data() + G;
    }
    bool guard() const
    {
        for (size_t i = 0; i < G; i++)
            if (raw[i] != (T)0xa5 || raw[G + n + i] != (T)0xa5)
                return false;
        return true;
    }
};

// ---------------------------------------------------------------- vectors
template <typename T>
struct Vectors {
    pbt::Ctx& c;
    const gf::Field<T>& f;
    const Alg& A;
    pbt::Prng g;
    int edge;
    int longest = 40;

    enum Kind { OWN, WRAP, SLICE, VIEW, ZEXT };
    struct Obj {
        Kind kind;
        std::unique_ptr<vec::Vector<T>> v;
        int n = 0;
        std::vector<int> mem; // cells of the memory (contiguous kinds)
        Obj* base = nullptr;
        int off = 0, step = 1, N = 0; // views and slices
        bool dead = false;
        bool held = false; // a view or an extension refers to it
        bool flat() const
        {
            return kind <= SLICE;
        }
        int id(int i) const // -1: a virtual zero
        {
            if (flat())
                return mem[i];
            if (kind == VIEW)
                return base->id((off + step * i) % N);
            return i < base->n ? base->id(i) : -1;
        }
    };
    std::vector<std::unique_ptr<Mem<T>>> mems;
    std::vector<u128> val; // model value of each cell
    std::vector<T*> at;    // where the cell is
    std::vector<std::unique_ptr<Obj>> objs;

    Vectors(pbt::Ctx& c, const gf::Field<T>& f, const Alg& A)
        : c(c), f(f), A(A), g(c.seed64()), edge(1 + (int)c.draw(6))
    {
    }
    ~Vectors()
    {
        while (!objs.empty())
            objs.pop_back();
    }
    T value()
    {
        return (T)(g.below(edge) ? A.edge(g) : A.random(g));
    }
    u128 get(const Obj& o, int i) const
    {
        const int k = o.id(i);
        return k < 0 ? 0 : val[k];
    }
    std::vector<int> cells(T* p, int n)
    {
        std::vector<int> r;
        for (int i = 0; i < n; i++) {
            r.push_back((int)val.size());
            val.push_back((u128)p[i]);
            at.push_back(p + i);
        }
        return r;
    }
    Obj& add(Kind k, vec::Vector<T>* v, int n)
    {
        objs.emplace_back(new Obj);
        Obj& o = *objs.back();
        o.kind = k;
        o.v.reset(v);
        o.n = n;
        return o;
    }
    Obj* find(bool (*ok)(const Obj&))
    {
        std::vector<Obj*> l;
        for (auto& o : objs)
            if (!o->dead && ok(*o))
                l.push_back(o.get());
        return l.empty() ? nullptr : l[c.draw(l.size())];
    }
    static bool any(const Obj&)
    {
        return true;
    }
    static bool is_flat(const Obj& o)
    {
        return o.flat();
    }
    static bool is_view(const Obj& o)
    {
        return o.kind == VIEW;
    }
    static bool is_slice(const Obj& o)
    {
        return o.kind == SLICE;
    }
    static bool is_plain(const Obj& o)
    {
        return o.kind <= WRAP;
    }
    static bool nonempty(const Obj& o)
    {
        return o.n > 0;
    }
    static bool writable(const Obj& o)
    {
        return o.kind != ZEXT && o.n > 0;
    }
    int name(const Obj* o) const
    {
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].get() == o)
                return (int)i;
        return -1;
    }
    /// a copy source: flat and disjoint from (or the same as) the written range
    Obj* source(const std::vector<int>& dst, bool same_ok, int min_n, int max_n, bool by_mem)
    {
        std::vector<Obj*> l;
        for (auto& o : objs) {
            if (o->dead || !o->flat())
                continue;
            const int n = by_mem ? (int)o->mem.size() : o->n;
            if (n < min_n || n > max_n)
                continue;
            bool cross = false;
            std::set<int> s(dst.begin(), dst.end());
            for (int k : o->mem)
                cross |= s.count(k) > 0;
            if (cross && !(same_ok && std::vector<int>(o->mem.begin(), o->mem.begin() + o->n) == dst))
                continue;
            l.push_back(o.get());
        }
        return l.empty() ? nullptr : l[c.draw(l.size())];
    }

    void create(bool first)
    {
        const int k = first ? 0 : c.weighted({3, 3, 5, 4, 3, 2, 1});
        switch (k) {
        case 0: {
            const int n = (int)c.sized(0, longest) + first;
            auto* v = new vec::Vector<T>(f, n);
            for (int i = 0; i < n; i++)
                v->get_mem()[i] = value();
            Obj& o = add(OWN, v, n);
            o.mem = cells(v->get_mem(), n);
            c.desc(" #%zu=own(%d)", objs.size() - 1, n);
            break;
        }
        case 1: {
            const int n = (int)c.sized(0, longest);
            const int more = c.one_in(3) ? (int)c.draw(5) : 0;
            mems.emplace_back(new Mem<T>(n + more));
            T* p = mems.back()->p();
            for (int i = 0; i < n + more; i++)
                p[i] = value();
            Obj& o = add(WRAP, new vec::Vector<T>(f, n, p, n + more), n);
            o.mem = cells(p, n + more);
            c.desc(" #%zu=wrap(%d+%d)", objs.size() - 1, n, more);
            break;
        }
        case 2: {
            Obj* b = find([](const Obj& o) { return o.flat() && o.n > 0 && (int)o.mem.size() == o.n; });
            if (!b)
                return;
            const int off = (int)c.draw(b->n);
            const int n = (int)c.range(0, b->n - off + (c.one_in(4) ? 3 : 0));
            Obj& o = add(SLICE, new vec::Slice<T>(b->v.get(), n, off), std::min(n, b->n - off));
            o.base = b;
            o.off = off;
            o.N = b->n;
            o.mem.assign(b->mem.begin() + off, b->mem.begin() + off + o.n);
            c.desc(" #%zu=slice(#%d,%d,%d)", objs.size() - 1, name(b), n, off);
            c.tag("slice");
            break;
        }
        case 3: {
            Obj* b = find(nonempty);
            if (!b || (b->kind == ZEXT))
                return;
            const int n = (int)c.range(0, b->n), off = (int)c.draw(b->n + 2), step = (int)c.draw(b->n + 3);
            Obj& o = add(VIEW, new vec::View<T>(b->v.get(), n, off, step), n);
            o.base = b;
            b->held = true;
            o.off = off;
            o.step = step;
            o.N = b->n;
            c.desc(" #%zu=view(#%d,%d,%d,%d)", objs.size() - 1, name(b), n, off, step);
            c.tag("view");
            break;
        }
        case 4: {
            Obj* b = find(any);
            if (!b || b->kind == ZEXT)
                return;
            const int n = b->n + (int)c.draw(8);
            Obj& o = add(ZEXT, new vec::ZeroExtended<T>(*b->v, n), n);
            o.base = b;
            b->held = true;
            c.desc(" #%zu=zext(#%d,%d)", objs.size() - 1, name(b), n);
            c.tag("zero-extended");
            break;
        }
        case 5: { // copy of a vector
            Obj* b = find(is_plain);
            if (!b)
                return;
            vec::Vector<T>* v = new vec::Vector<T>(*b->v);
            const Kind kind = b->kind;
            const int n = b->n;
            const std::vector<int> m = b->mem;
            Obj& o = add(kind, v, n);
            if (kind == OWN) {
                if (v->get_mem() == at_or_null(m))
                    c.fail("a copy shares the memory it should own");
                o.mem = cells(v->get_mem(), n);
                for (int i = 0; i < n; i++)
                    val[o.mem[i]] = val[m[i]];
            } else
                o.mem = m;
            c.desc(" #%zu=copy(#%d)", objs.size() - 1, name(b));
            c.tag("copied");
            break;
        }
        default: { // moved
            Obj* b = find([](const Obj& o) { return o.kind <= WRAP && !o.held; });
            if (!b)
                return;
            Obj& o = add(b->kind, new vec::Vector<T>(std::move(*b->v)), b->n);
            o.mem = b->mem;
            b->dead = true;
            c.desc(" #%zu=moved(#%d)", objs.size() - 1, name(b));
            c.tag("moved");
        }
        }
    }
    T* at_or_null(const std::vector<int>& m)
    {
        return m.empty() ? (T*)1 : at[m[0]];
    }
    void store(int cell, u128 v)
    {
        if (cell >= 0)
            val[cell] = v;
    }

    void step()
    {
        const int k = c.weighted({6, 2, 2, 3, 2, 4, 3, 3, 6, 2, 2, 2, 1, 3, 2, 2, 2, 2});
        switch (k) {
        case 0: { // set
            Obj* o = find(writable);
            if (!o)
                return;
            const int i = (int)c.draw(o->n);
            const T v = value();
            c.desc(" #%d[%d]=%s", name(o), i, GS(v));
            o->v->set(i, v);
            store(o->id(i), v);
            break;
        }
        case 1: {
            Obj* o = find(writable);
            if (!o)
                return;
            c.desc(" #%d.zero_fill", name(o));
            o->v->zero_fill();
            for (int i = 0; i < o->n; i++)
                store(o->id(i), 0);
            break;
        }
        case 2: {
            Obj* o = find(is_flat);
            if (!o)
                return;
            const T v = value();
            c.desc(" #%d.fill", name(o));
            o->v->fill(v);
            for (int i = 0; i < o->n; i++)
                store(o->id(i), v);
            break;
        }
        case 3: {
            Obj* o = find(writable);
            if (!o)
                return;
            const T v = value();
            c.desc(" #%d.mul_scalar(%s)", name(o), GS(v));
            o->v->mul_scalar(v);
            for (int i = 0; i < o->n; i++)
                store(o->id(i), A.mul(get(*o, i), v));
            break;
        }
        case 4: {
            Obj* o = find(is_flat);
            if (!o)
                return;
            const T v = value();
            c.desc(" #%d.mul_beta(%s)", name(o), GS(v));
            o->v->mul_beta(v);
            u128 p = v;
            for (int i = 1; i < o->n; i++, p = A.mul(p, v))
                store(o->id(i), A.mul(get(*o, i), p));
            break;
        }
        case 5:
        case 6: {
            Obj* o = find(is_flat);
            if (!o)
                return;
            std::vector<int> dst(o->mem.begin(), o->mem.begin() + o->n);
            Obj* s = source(dst, true, o->n, o->n, false);
            if (!s)
                return;
            c.desc(" #%d.%s(#%d)", name(o), k == 5 ? "hadamard_mul" : "add", name(s));
            c.tag(k == 5 ? "hadamard_mul" : "add");
            if (k == 5)
                o->v->hadamard_mul(s->v.get());
            else
                o->v->add(s->v.get());
            for (int i = 0; i < o->n; i++) {
                const u128 a = get(*o, i), b = get(*s, i);
                store(o->id(i), k == 5 ? A.mul(a, b) : A.add(a, b));
            }
            break;
        }
        case 7: { // add at an offset
            Obj* o = find(is_flat);
            if (!o)
                return;
            std::vector<int> dst(o->mem.begin(), o->mem.begin() + o->n);
            Obj* s = source(dst, false, 0, o->n, false);
            if (!s)
                return;
            const int how = (int)c.draw(4);
            int off = how == 1 ? 0 : (int)c.draw(o->n - s->n + 1), len = s->n;
            if (how == 3)
                len = (int)c.draw(s->n + 1), off = (int)c.draw(o->n - len + 1);
            c.desc(" #%d.add%s(#%d,%d,%d)", name(o), how ? "_mutual" : "", name(s), off, len);
            c.tag("add at an offset");
            switch (how) {
            case 0:
                o->v->add(s->v.get(), off);
                break;
            case 1:
                o->v->add_mutual(s->v.get());
                break;
            case 2:
                o->v->add_mutual(s->v.get(), off);
                break;
            default:
                o->v->add_mutual(s->v.get(), off, len);
            }
            for (int i = 0; i < len; i++)
                store(o->id(off + i), A.add(get(*o, off + i), get(*s, i)));
            break;
        }
        case 8: { // copy
            Obj* o = find(is_flat);
            if (!o)
                return;
            const int ml = (int)o->mem.size();
            const int how = (int)c.draw(4);
            Obj* s = nullptr;
            // zero-extended vectors too, where the length is given
            if (how == 1 && c.one_in(3)) {
                s = find([](const Obj& x) {
                    return x.kind == ZEXT && x.base->flat() && (int)x.base->mem.size() == x.base->n;
                });
                if (!s)
                    return;
                std::set<int> w(o->mem.begin(), o->mem.end());
                for (int id : s->base->mem)
                    if (w.count(id))
                        return;
                const int n = (int)c.draw(std::min(ml, s->n) + 1);
                c.desc(" #%d.copy(zext #%d,%d)", name(o), name(s), n);
                c.tag("copy of a zero-extended vector");
                o->v->copy(s->v.get(), n);
                for (int i = 0; i < n; i++)
                    val[o->mem[i]] = get(*s, i);
                break;
            }
            s = source(o->mem, false, 0, how ? 1 << 20 : ml, true);
            if (!s)
                return;
            const int sl = (int)s->mem.size();
            int n = sl, doff = 0, soff = 0;
            if (how)
                n = (int)c.draw(ml + 1);
            if (how >= 2)
                doff = (int)c.draw(ml - n + 1);
            if (how == 3)
                soff = (int)c.draw(sl + 1);
            c.desc(" #%d.copy%d(#%d,%d,%d,%d)", name(o), how, name(s), n, doff, soff);
            c.tag("copy");
            switch (how) {
            case 0:
                o->v->copy(s->v.get());
                break;
            case 1:
                o->v->copy(s->v.get(), n);
                break;
            case 2:
                o->v->copy(s->v.get(), n, doff);
                break;
            default:
                o->v->copy(s->v.get(), n, doff, soff);
            }
            for (int i = 0; i < n; i++)
                val[o->mem[doff + i]] = soff + i < sl ? val[s->mem[soff + i]] : 0;
            break;
        }
        case 9: {
            Obj* o = find(is_flat);
            if (!o)
                return;
            c.desc(" #%d.neg", name(o));
            o->v->neg();
            for (int i = 0; i < o->n; i++)
                store(o->id(i), A.sub(0, get(*o, i)));
            break;
        }
        case 10: {
            Obj* o = find(is_flat);
            if (!o)
                return;
            c.desc(" #%d.sort", name(o));
            o->v->sort();
            std::vector<u128> s;
            for (int i = 0; i < o->n; i++)
                s.push_back(get(*o, i));
            std::sort(s.begin(), s.end());
            for (int i = 0; i < o->n; i++)
                store(o->id(i), s[i]);
            break;
        }
        case 11: {
            Obj* o = find([](const Obj& x) { return x.flat() && x.n > 0; });
            if (!o)
                return;
            const int i = (int)c.draw(o->n), j = (int)c.draw(o->n);
            c.desc(" #%d.swap(%d,%d)", name(o), i, j);
            o->v->swap(i, j);
            std::swap(val[o->id(i)], val[o->id(j)]);
            break;
        }
        case 12: {
            Obj* o = find(writable);
            if (!o)
                return;
            c.desc(" #%d.rand", name(o));
            o->v->rand();
            for (int i = 0; i < o->n; i++) {
                const u128 v = o->v->get(i);
                bool ok = true;
                if (A.lanes)
                    for (int l = 0; l < A.lanes; l++)
                        ok &= (uint32_t)(v >> (32 * l)) < A.r.p;
                else
                    ok = v <= A.r.max();
                if (!ok)
                    c.fail("rand: %s is not an element", GS(v));
                store(o->id(i), v);
            }
            break;
        }
        case 13: { // another range of the same vector
            Obj* o = find(is_slice);
            if (!o)
                return;
            if (o->held)
                return;
            const int off = (int)c.draw(o->N - o->n + 1);
            c.desc(" #%d.set_map(%d)", name(o), off);
            c.tag("slice moved");
            static_cast<vec::Slice<T>&>(*o->v).set_map(off);
            // cells of the memory in which the slice moves
            const std::vector<int>& m = origin(o);
            o->mem.assign(m.begin() + off, m.begin() + off + o->n);
            o->off = off;
            break;
        }
        case 14: {
            Obj* o = find(is_view);
            if (!o)
                return;
            o->off = (int)c.draw(o->N + 2);
            o->step = (int)c.draw(o->N + 3);
            c.desc(" #%d.set_map(%d,%d)", name(o), o->off, o->step);
            static_cast<vec::View<T>&>(*o->v).set_map(o->off, o->step);
            break;
        }
        case 15: {
            Obj* o = find(is_view);
            if (!o || o->held)
                return;
            o->n = (int)c.draw(o->N + 1);
            c.desc(" #%d.set_len(%d)", name(o), o->n);
            static_cast<vec::View<T>&>(*o->v).set_len(o->n);
            break;
        }
        case 16: {
            Obj* o = find(is_view);
            if (!o || o->held)
                return;
            std::vector<Obj*> l;
            for (auto& x : objs)
                if (!x->dead && x->kind <= VIEW && x->n >= o->n && x->n > 0 && !depends(x.get(), o))
                    l.push_back(x.get());
            if (l.empty())
                return;
            Obj* b = l[c.draw(l.size())];
            c.desc(" #%d.set_vec(#%d)", name(o), name(b));
            static_cast<vec::View<T>&>(*o->v).set_vec(b->v.get());
            b->held = true;
            o->base = b;
            o->N = b->n;
            break;
        }
        default: { // exchange two vectors
            Obj* a = find([](const Obj& x) { return x.kind <= WRAP && !x.held; });
            Obj* b = find([](const Obj& x) { return x.kind <= WRAP && !x.held; });
            if (!a || !b || a == b)
                return;
            c.desc(" swap(#%d,#%d)", name(a), name(b));
            c.tag("swapped");
            swap(*a->v, *b->v);
            std::swap(a->kind, b->kind);
            std::swap(a->n, b->n);
            std::swap(a->mem, b->mem);
        }
        }
    }
    bool depends(const Obj* x, const Obj* on) const
    {
        for (; x; x = x->kind == VIEW || x->kind == ZEXT ? x->base : nullptr)
            if (x == on)
                return true;
        return false;
    }
    /// the memory that held the vector a slice was taken from
    std::vector<int> origin(const Obj* o) const
    {
        // cells of one memory are numbered in order
        std::vector<int> m;
        const int first = slice_first.at(o);
        for (int i = 0; i < o->N; i++)
            m.push_back(first + i);
        return m;
    }
    std::map<const Obj*, int> slice_first;

    void verify(const char* when)
    {
        for (size_t i = 0; i < val.size(); i++)
            if (*at[i] != (T)val[i])
                c.fail("%s: cell %zu holds %s instead of %s", when, i, GS(*at[i]), GS(val[i]));
        for (auto& m : mems)
            if (!m->guard())
                c.fail("%s: memory outside was changed", when);
        for (auto& o : objs) {
            if (o->dead)
                continue;
            if (o->v->get_n() != o->n)
                c.fail("%s: get_n() of #%d is %d instead of %d", when, name(o.get()), o->v->get_n(), o->n);
            if (o->flat() && (o->v->get_mem_len() != (int)o->mem.size()))
                c.fail("%s: get_mem_len() of #%d is %d instead of %zu", when, name(o.get()),
                    o->v->get_mem_len(), o->mem.size());
            if (o->kind == SLICE && static_cast<vec::Slice<T>&>(*o->v).get_offset() != o->off)
                c.fail("%s: get_offset() of #%d is %d instead of %d", when, name(o.get()),
                    static_cast<vec::Slice<T>&>(*o->v).get_offset(), o->off);
            for (int i = 0; i < o->n; i++)
                if (o->v->get(i) != (T)get(*o, i))
                    c.fail("%s: #%d[%d] is %s instead of %s", when, name(o.get()), i,
                        GS(o->v->get(i)), GS(get(*o, i)));
        }
        if (objs.size() >= 2) {
            Obj* a = find(any);
            Obj* b = find(any);
            bool eq = a->n == b->n;
            for (int i = 0; eq && i < a->n; i++)
                eq = (T)get(*a, i) == (T)get(*b, i);
            if ((*a->v == *b->v) != eq)
                c.fail("%s: #%d == #%d is %d", when, name(a), name(b), !eq);
        }
    }
    void run()
    {
        longest = c.one_in(60) ? 1200 : 40;
        const int steps = 3 + (int)c.draw(14);
        for (int s = 0; s < steps; s++) {
            if (s == 0 || (objs.size() < 7 && c.draw(3) == 0)) {
                create(s == 0);
                for (auto& o : objs)
                    if (o->kind == SLICE && !slice_first.count(o.get()))
                        slice_first[o.get()] = o->base->mem[0];
            } else
                step();
            verify("after the last operation");
        }
        if (val.size() > 1)
            c.nontrivial();
    }
};

// ---------------------------------------------------------------- buffers
template <typename T>
struct Lists {
    pbt::Ctx& c;
    pbt::Prng g;
    int most = 20;
    quadiron::simd::AlignedAllocator<T> alloc;
    struct Cell {
        T* p;
        std::vector<T> v;
        bool pad;
    };
    enum Kind { FULL, NONE, SLICE, COMBINED, SHUFFLED };
    struct Obj {
        Kind kind;
        std::unique_ptr<vec::Buffers<T>> b;
        size_t size;
        std::vector<int> ids;
    };
    std::vector<Cell> cells;
    std::vector<std::unique_ptr<Mem<T>>> mems;
    std::vector<std::unique_ptr<Obj>> objs;

    explicit Lists(pbt::Ctx& c) : c(c), g(c.seed64()) {}
    ~Lists()
    {
        while (!objs.empty())
            objs.pop_back();
    }
    T value()
    {
        return g.below(3) ? (T)((u128)g.next() << 64 | g.next()) : (T)g.below(3);
    }
    void randomise(T* p, size_t n)
    {
        for (size_t i = 0; i < n; i++)
            p[i] = value();
    }
    int cell(T* p, size_t size, bool pad = false)
    {
        cells.push_back({p, std::vector<T>(p, p + size), pad});
        return (int)cells.size() - 1;
    }
    Obj& add(Kind k, vec::Buffers<T>* b, size_t size)
    {
        objs.emplace_back(new Obj{k, std::unique_ptr<vec::Buffers<T>>(b), size, {}});
        return *objs.back();
    }
    Obj* any()
    {
        return objs[c.draw(objs.size())].get();
    }
    int name(const Obj* o) const
    {
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].get() == o)
                return (int)i;
        return -1;
    }
    T* fresh(size_t size)
    {
        mems.emplace_back(new Mem<T>(size));
        randomise(mems.back()->p(), size);
        return mems.back()->p();
    }
    bool writable(const Obj& o) const
    {
        for (int k : o.ids)
            if (cells[k].pad)
                return false;
        return true;
    }
    void pointers(Obj& o, const char* what)
    {
        const std::vector<T*>& m = o.b->get_mem();
        if (m.size() != o.ids.size())
            c.fail("%s: get_mem() has %zu buffers instead of %zu", what, m.size(), o.ids.size());
        for (size_t i = 0; i < o.ids.size(); i++)
            if (m[i] != cells[o.ids[i]].p)
                c.fail("%s: buffer %zu is not the one it denotes", what, i);
    }
    /// a list that shares some buffers and pads the others with zeros
    void adopt(Obj& o, const std::vector<int>& ids)
    {
        const std::vector<T*>& m = o.b->get_mem();
        if (m.size() != ids.size())
            c.fail("#%d: get_mem() has %zu buffers instead of %zu", name(&o), m.size(), ids.size());
        for (size_t i = 0; i < ids.size(); i++) {
            if (ids[i] >= 0) {
                o.ids.push_back(ids[i]);
                continue;
            }
            for (auto& x : cells)
                if (!x.pad && x.p == m[i])
                    c.fail("#%d: buffer %zu is shared instead of zero", name(&o), i);
            for (size_t j = 0; j < o.size; j++)
                if (m[i][j] != 0)
                    c.fail("#%d: buffer %zu is not zero", name(&o), i);
            o.ids.push_back(cell(m[i], o.size, true));
        }
    }
    void create(bool first, size_t size)
    {
        switch (first ? 0 : c.weighted({2, 2, 3, 4, 3, 4})) {
        case 0: {
            const int n = (int)c.sized(1, most);
            Obj& o = add(FULL, new vec::Buffers<T>(n, size), size);
            for (int i = 0; i < n; i++) {
                randomise(o.b->get(i), size);
                o.ids.push_back(cell(o.b->get(i), size));
            }
            c.desc(" #%zu=full(%d)", objs.size() - 1, n);
            break;
        }
        case 1: {
            const int n = (int)c.sized(1, most);
            std::vector<T*> m;
            std::vector<int> ids;
            for (int i = 0; i < n; i++) {
                m.push_back(fresh(size));
                ids.push_back(cell(m.back(), size));
            }
            Obj& o = add(NONE, new vec::Buffers<T>(n, size, m), size);
            o.ids = ids;
            c.desc(" #%zu=wrap(%d)", objs.size() - 1, n);
            c.tag("wrapped");
            break;
        }
        case 2: {
            Obj* s = any();
            const int vn = (int)s->ids.size();
            const int n = c.coin() ? 0 : 1 + (int)c.draw(vn + 4);
            Obj& o = add(FULL, n ? new vec::Buffers<T>(*s->b, n) : new vec::Buffers<T>(*s->b), s->size);
            c.desc(" #%zu=copy(#%d,%d)", objs.size() - 1, name(s), n);
            c.tag("copied");
            const int m = n ? n : vn;
            if ((int)o.b->get_mem().size() != m)
                c.fail("copy: %zu buffers instead of %d", o.b->get_mem().size(), m);
            for (int i = 0; i < m; i++) {
                T* p = o.b->get(i);
                for (auto& x : cells)
                    if (x.p == p)
                        c.fail("a copy shares buffer %d", i);
                const int id = cell(p, s->size);
                cells[id].v = i < vn ? cells[s->ids[i]].v : std::vector<T>(s->size, 0);
                o.ids.push_back(id);
            }
            break;
        }
        case 3: {
            Obj* s = any();
            const int vn = (int)s->ids.size();
            const int begin = (int)c.draw(vn);
            const int end = (int)c.range(begin + 1, vn + (c.one_in(3) ? 5 : 0));
            Obj& o = add(SLICE, new vec::Buffers<T>(*s->b, begin, end), s->size);
            c.desc(" #%zu=slice(#%d,%d,%d)", objs.size() - 1, name(s), begin, end);
            c.tag(end > vn ? "slice beyond the end" : "slice");
            std::vector<int> ids;
            for (int i = begin; i < end; i++)
                ids.push_back(i < vn ? s->ids[i] : -1);
            adopt(o, ids);
            break;
        }
        case 4: {
            Obj *a = any(), *b = any();
            if (a->size != b->size || a->ids.size() + b->ids.size() > 60)
                return;
            Obj& o = add(COMBINED, new vec::Buffers<T>(*a->b, *b->b), a->size);
            c.desc(" #%zu=concat(#%d,#%d)", objs.size() - 1, name(a), name(b));
            c.tag("concatenated");
            o.ids = a->ids;
            o.ids.insert(o.ids.end(), b->ids.begin(), b->ids.end());
            break;
        }
        default: {
            Obj* s = any();
            const int vn = (int)s->ids.size();
            const int ml = 1 + (int)c.draw(vn);
            const int n = ml + (c.coin() ? 0 : (int)c.draw(6));
            const std::vector<int> perm = c.permutation(n);
            const auto& d = gx::prime_field<T>(257);
            vec::Vector<T> map(*d.f, ml);
            std::vector<int> ids(n, -1);
            for (int i = 0; i < ml; i++) {
                map.set(i, (T)perm[i]);
                ids[perm[i]] = s->ids[i];
            }
            Obj& o = add(SHUFFLED, new vec::Buffers<T>(*s->b, map, (unsigned)n), s->size);
            c.desc(" #%zu=shuffle(#%d,%d->%d)", objs.size() - 1, name(s), ml, n);
            c.tag("shuffled");
            adopt(o, ids);
        }
        }
    }
    bool shared(int id, const Obj* but) const
    {
        for (auto& o : objs)
            for (size_t i = 0; i < o->ids.size(); i++)
                if (o->ids[i] == id && o.get() != but)
                    return true;
        return false;
    }
    void step()
    {
        Obj* o = any();
        const int n = (int)o->ids.size();
        switch (c.weighted({4, 3, 3, 2, 4, 3, 2, 3})) {
        case 0: { // write elements
            const int i = (int)c.draw(n);
            if (cells[o->ids[i]].pad)
                return;
            c.desc(" #%d[%d] written", name(o), i);
            randomise(o->b->get(i), o->size);
            std::copy_n(o->b->get(i), o->size, cells[o->ids[i]].v.begin());
            break;
        }
        case 1: {
            const int i = (int)c.draw(n);
            if (cells[o->ids[i]].pad)
                return;
            const T v = value();
            c.desc(" #%d.fill(%d)", name(o), i);
            o->b->fill(i, v);
            std::fill_n(cells[o->ids[i]].v.begin(), o->size, v);
            break;
        }
        case 2: {
            const int i = (int)c.draw(n);
            if (cells[o->ids[i]].pad)
                return;
            T* p = fresh(o->size);
            c.desc(" #%d.copy(%d)", name(o), i);
            o->b->copy(i, p);
            std::copy_n(p, o->size, cells[o->ids[i]].v.begin());
            break;
        }
        case 3:
            c.desc(" #%d.zero_fill", name(o));
            o->b->zero_fill();
            for (int k : o->ids)
                std::fill_n(cells[k].v.begin(), o->size, (T)0);
            break;
        case 4: {
            if (!writable(*o))
                return;
            std::vector<Obj*> l;
            for (auto& x : objs)
                if ((int)x->ids.size() == n && x->size <= o->size)
                    l.push_back(x.get());
            Obj* s = l[c.draw(l.size())];
            c.desc(" #%d.copy(#%d)", name(o), name(s));
            c.tag("copy of a list");
            o->b->copy(*s->b);
            for (int i = 0; i < n; i++) {
                const std::vector<T> v = cells[s->ids[i]].v;
                std::copy_n(v.begin(), s->size, cells[o->ids[i]].v.begin());
            }
            break;
        }
        case 5: {
            const int i = (int)c.draw(n), j = (int)c.draw(n);
            c.desc(" #%d.swap(%d,%d)", name(o), i, j);
            o->b->swap(i, j);
            std::swap(o->ids[i], o->ids[j]);
            break;
        }
        case 6: {
            if (n % 2)
                return;
            std::vector<int> ev, od;
            for (int i = 0; i < n; i += 2) {
                ev.push_back(o->ids[i]);
                od.push_back(o->ids[i + 1]);
            }
            c.tag("even and odd");
            if (c.coin()) {
                c.desc(" #%d.separate_even_odd", name(o));
                o->b->separate_even_odd();
                ev.insert(ev.end(), od.begin(), od.end());
                o->ids = ev;
            } else {
                c.desc(" #%d.separate_even_odd(#%zu,#%zu)", name(o), objs.size(), objs.size() + 1);
                const std::vector<T*> none(n / 2, nullptr);
                const size_t size = o->size;
                vec::Buffers<T>& b = *o->b;
                Obj& e = add(NONE, new vec::Buffers<T>(n / 2, size, none), size);
                Obj& d = add(NONE, new vec::Buffers<T>(n / 2, size, none), size);
                b.separate_even_odd(*e.b, *d.b);
                e.ids = ev;
                d.ids = od;
            }
            break;
        }
        default: {
            const int i = (int)c.draw(n);
            if (o->kind == FULL) {
                // the list owns the memory that it is given
                const int old = o->ids[i];
                int times = 0;
                for (int k : o->ids)
                    times += k == old;
                if (shared(old, o) || times != 1)
                    return;
                const bool same = c.one_in(4);
                T* p = same ? cells[old].p : alloc.allocate(o->size);
                if (!same)
                    randomise(p, o->size);
                c.desc(" #%d.set(%d) owned", name(o), i);
                c.tag("owned buffer replaced");
                o->b->set(i, p);
                if (!same) {
                    cells[old].p = p;
                    cells[old].v.assign(p, p + o->size);
                }
            } else {
                T* p = fresh(o->size);
                c.desc(" #%d.set(%d)", name(o), i);
                c.tag("buffer replaced");
                o->b->set(i, p);
                o->ids[i] = cell(p, o->size);
            }
        }
        }
    }
    void verify()
    {
        for (size_t i = 0; i < cells.size(); i++)
            for (size_t j = 0; j < cells[i].v.size(); j++)
                if (cells[i].p[j] != cells[i].v[j])
                    c.fail("buffer %zu holds %s instead of %s at %zu", i, GS(cells[i].p[j]),
                        GS(cells[i].v[j]), j);
        for (auto& m : mems)
            if (!m->guard())
                c.fail("memory outside was changed");
        for (auto& o : objs) {
            const std::string nm = "#" + std::to_string(name(o.get()));
            pointers(*o, nm.c_str());
            if (o->b->get_n() != (int)o->ids.size() || o->b->get_size() != o->size)
                c.fail("%s: %d buffers of %zu instead of %zu of %zu", nm.c_str(), o->b->get_n(),
                    o->b->get_size(), o->ids.size(), o->size);
            if (o->b->get_mem_len() != (int)(o->ids.size() * o->size))
                c.fail("%s: get_mem_len() is %d instead of %zu", nm.c_str(), o->b->get_mem_len(),
                    o->ids.size() * o->size);
            const vec::Buffers<T>& k = *o->b;
            for (size_t i = 0; i < o->ids.size(); i++)
                if (k.get((int)i) != cells[o->ids[i]].p || o->b->get((int)i) != cells[o->ids[i]].p)
                    c.fail("%s: get(%zu) is not the buffer it denotes", nm.c_str(), i);
        }
        Obj *a = any(), *b = any();
        bool eq = a->ids.size() == b->ids.size() && a->size == b->size;
        for (size_t i = 0; eq && i < a->ids.size(); i++)
            eq = std::equal(cells[a->ids[i]].v.begin(), cells[a->ids[i]].v.begin() + a->size,
                cells[b->ids[i]].v.begin());
        if ((*a->b == *b->b) != eq)
            c.fail("#%d == #%d is %d", name(a), name(b), !eq);
    }
    void run()
    {
        most = c.one_in(60) ? 700 : 20;
        const size_t size = (size_t)c.sized(1, most > 20 ? 6 : c.one_in(100) ? 600 : 40);
        const size_t size2 = c.one_in(4) ? (size_t)c.sized(1, 40) : size;
        c.desc("lists of buffers of %zu or %zu x %zu bits:", size, size2, sizeof(T) * 8);
        const int steps = 3 + (int)c.draw(12);
        for (int s = 0; s < steps; s++) {
            if (s == 0 || (objs.size() < 8 && c.draw(5) < 2))
                create(s == 0, c.coin() ? size : size2);
            else
                step();
            verify();
        }
        c.nontrivial();
        c.tag("lists of buffers");
    }
};

template <typename T>
const gf::Field<T>* packed(int)
{
    return nullptr;
}
template <>
const gf::Field<uint64_t>* packed(int n)
{
    return &gx::nf4<uint64_t>(n);
}
template <>
const gf::Field<__uint128_t>* packed(int n)
{
    return &gx::nf4<__uint128_t>(n);
}
template <typename T>
void run(pbt::Ctx& c)
{
    if (c.draw(5) < 2)
        return Lists<T>(c).run();
    Alg A;
    const gf::Field<T>* f;
    if (sizeof(T) >= 8 && c.one_in(6)) {
        A.lanes = sizeof(T) == 16 && c.coin() ? 4 : 2;
        A.r = gx::Ref::prime(65537);
        f = packed<T>(A.lanes);
    } else if (c.draw(5) < 3) {
        const bool fermat = c.coin();
        const auto& d = fermat ? gx::prime_field<T>(sizeof(T) == 2 ? 257 : 65537) : gx::draw_prime_field<T>(c);
        A.r = d.r;
        f = d.f.get();
    } else {
        const auto& d = gx::draw_binary<T>(c);
        A.r = d.r;
        f = d.f.get();
    }
    c.desc("vectors over %s (%zu-bit symbols):",
        A.lanes ? ("NF4(" + std::to_string(A.lanes) + ")").c_str() : A.r.name().c_str(), sizeof(T) * 8);
    c.tag(A.lanes ? "NF4" : A.r.n ? "binary" : "prime");
    Vectors<T>(c, *f, A).run();
}
} // namespace

void property(pbt::Ctx& c)
{
    switch (c.weighted({4, 4, 3, 2})) {
    case 0:
        return run<uint16_t>(c);
    case 1:
        return run<uint32_t>(c);
    case 2:
        return run<uint64_t>(c);
    default:
        return run<__uint128_t>(c);
    }
}
