/* C24: threads with their own instances do not disturb each other. */
#include "capix.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
using namespace fg;

namespace {

struct Job {
    Spec s;
    bool use_c;
    Iface enc, dec;
    size_t words;
    pbt::Fill fill;
    std::vector<bool> have;
    int dst;
    int repeat;
    int yields;
};

struct Outcome {
    std::vector<Bytes> bytes;
    std::vector<std::map<off_t, uint32_t>> mk;
    std::string error;
    bool operator==(const Outcome& o) const
    {
        return bytes == o.bytes && mk == o.mk && error == o.error;
    }
};

void pause(int y, uint64_t& st)
{
    st = pbt::mix64(st);
    for (int i = (int)(st % (y + 1)); i > 0; i--)
        sched_yield();
}

Outcome run(const Job& j)
{
    Outcome r;
    const Spec& s = j.s;
    uint64_t st = j.fill.seed;
    try {
        const auto data = make_data(s, j.fill, j.words);
        if (!j.use_c) {
            std::unique_ptr<Codec> f = make(s);
            for (int t = 0; t < j.repeat; t++) {
                pause(j.yields, st);
                std::vector<Bytes> fr, out;
                Props p;
                f->encode(j.enc, data, fr, p);
                pause(j.yields, st);
                const bool ok = f->decode(j.dec, data, fr, j.have, p, std::vector<bool>(s.k, true), out);
                if (t == 0) {
                    r.bytes = fr;
                    for (auto& x : p)
                        r.mk.push_back(marks(x));
                }
                if (fr != std::vector<Bytes>(r.bytes.begin(), r.bytes.begin() + fr.size()))
                    r.error = "encode differs from the first time";
                bool all = s.sys;
                for (int i = 0; i < s.k; i++)
                    all &= j.have[i];
                if (!ok || (!all && out != data))
                    r.error = "decode does not give the data";
            }
            return r;
        }
        for (int t = 0; t < j.repeat; t++) {
            pause(j.yields, st);
            capi::Fec q(cx::shape(s));
            pbt::Ctx c; // only used to report
            cx::CFrags x = cx::encode(c, q, s, data);
            if (x.rc != 0) {
                // too many marks for the header
                r.mk.push_back({{0, 2}});
                return r;
            }
            if (t == 0)
                r.bytes = x.whole;
            if (x.whole != r.bytes)
                r.error = "encode differs from the first time";
            pause(j.yields, st);
            cx::decode(c, q, s, x, j.have, data);
            if (!j.have[j.dst]) {
                std::vector<Bytes> b = x.whole;
                std::vector<uint8_t*> p;
                std::vector<int> miss(s.n());
                for (int i = 0; i < s.n(); i++) {
                    miss[i] = !j.have[i];
                    if (miss[i])
                        b[i].assign(b[i].size(), 0xc3);
                    p.push_back(b[i].data());
                }
                if (quadiron_fnt32_reconstruct(q.f, p.data(), p.data() + s.k, miss.data(), j.dst, data[0].size())
                    || b[j.dst] != x.whole[j.dst])
                    r.error = "rebuilt fragment differs";
            }
        }
    } catch (const std::exception& e) {
        r.error = e.what();
    }
    return r;
}

} // namespace

void property(pbt::Ctx& c)
{
    const int nt = c.range(2, c.tier ? 8 : 5);
    std::vector<Job> jobs;
    for (int i = 0; i < nt; i++) {
        if (i > 0 && c.one_in(3)) { // same code and job as another thread
            jobs.push_back(jobs[c.draw(jobs.size())]);
            continue;
        }
        Job j;
        j.use_c = c.one_in(3);
        const Fam fam = j.use_c ? FNT : (Fam)(int)c.weighted({4, 2, 1, 1, 1, 2, 1});
        do
            j.s = draw_field(c, fam, 0);
        while (fam == NF4 && j.s.ws >= 4 && !c.one_in(4));
        draw_shape(c, j.s, 14);
        j.s.pkt = draw_pkt(c, j.s);
        j.enc = c.pick(ifaces(j.s));
        j.dec = c.pick(ifaces(j.s));
        j.words = c.range(1, j.use_c ? 1500 : (j.s.tbits == 128 ? 10 : 80));
        j.fill = pbt::Fill::draw(c);
        j.fill.mode = 2;
        j.have = draw_have(c, j.s, j.s.k);
        j.dst = c.draw(j.s.n());
        j.repeat = c.range(1, 4);
        j.yields = c.pick({0, 0, 3, 20});
        c.desc("[%s%s words=%zu x%d]", j.use_c ? "C " : "", show(j.s).c_str(), j.words, j.repeat);
        jobs.push_back(j);
    }
    std::vector<Outcome> got(nt);
    {
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, nt);
        std::vector<std::thread> th;
        for (int i = 0; i < nt; i++)
            th.emplace_back([&, i]() {
                pthread_barrier_wait(&bar);
                got[i] = run(jobs[i]);
            });
        for (auto& t : th)
            t.join();
        pthread_barrier_destroy(&bar);
    }
    for (int i = 0; i < nt; i++) {
        const Outcome alone = run(jobs[i]);
        if (!alone.error.empty())
            c.fail("thread %d, run alone: %s", i, alone.error.c_str());
        if (!(alone == got[i]))
            c.fail("thread %d: %s", i, got[i].error.empty() ? "other fragments than alone" : got[i].error.c_str());
    }
    c.tag(std::to_string(nt) + " threads");
    c.nontrivial();
}
