/* A small property-based testing engine over "choice sequences".
 *
 * A property is a function `void property(pbt::Ctx& c)`: it draws every random
 * decision through `c`, runs the code under test, compares with its oracle and
 * calls `c.fail(...)` (or crashes, or never ends) when the property is broken.
 * The sequence of drawn numbers is the test case: it is recorded in a shared
 * memory file while the case runs (so it survives a crash), it can be replayed,
 * and it is what the shrinker minimises.
 *
 * Modes of the resulting binary:
 *   run --seed S --start I --stride W --cases N --state F --out F [--budget s]
 *   replay --choices F
 *   shrink --choices F --out F [--budget s]
 * Exit codes of run/replay: 0 held, 10 property failed, 77 case used up its CPU
 * time; a signal means that the code under test crashed.
 */
#ifndef PBT_H
#define PBT_H

#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

/* Deterministic generator used for bulk content (seeded by one choice). */
struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed) : s(mix64(seed ^ 0x5bf03635)) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n)
    {
        return n ? next() % n : next();
    }
};

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override
    {
        return msg.c_str();
    }
};
struct Discard : std::exception {
};

struct Shared {
    uint64_t magic;
    int64_t case_idx;
    uint64_t n;
    uint64_t overflow;
    char desc[1024];
    char msg[2048];
    uint64_t choices[1];
};
static const uint64_t SHARED_CAP = 1 << 15;
static const size_t SHARED_SIZE = sizeof(Shared) + SHARED_CAP * 8;

class Ctx {
  public:
    Shared* sh = nullptr;
    bool nontriv = false;
    bool replaying = false;
    bool verbose = false;
    std::vector<uint64_t> in;
    std::vector<uint64_t> out;
    std::map<std::string, uint64_t>* tags = nullptr;
    std::string description;
    std::set<std::string> case_tags;
    int tier = 0; // 0 quick, 1 thorough

    Ctx() : rng(0) {}

    void start_random(uint64_t seed)
    {
        rng = Prng(seed);
        replaying = false;
        reset();
    }
    void start_replay(const std::vector<uint64_t>& choices)
    {
        in = choices;
        replaying = true;
        reset();
    }
    void start_bytes(const uint8_t* data, size_t size)
    {
        bytes = data;
        bytes_left = size;
        from_bytes = true;
        reset();
    }

    /* ---- choices ---- */
    /// uniform in [0, n); n == 0 means the full 64-bit range
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (from_bytes) {
            v = take_bytes(n);
        } else if (replaying) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
        } else {
            v = rng.next();
        }
        if (n)
            v = v % n;
        out.push_back(v);
        if (sh) {
            if (sh->n < SHARED_CAP)
                sh->choices[sh->n++] = v;
            else
                sh->overflow = 1;
        }
        return v;
    }
    /// inclusive range; small values are the simple ones
    int64_t range(int64_t lo, int64_t hi)
    {
        if (hi <= lo)
            return lo;
        return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
    }
    bool coin()
    {
        return draw(2) != 0;
    }
    /// true once in `den` (the simple outcome is false)
    bool one_in(uint64_t den)
    {
        return draw(den) == den - 1;
    }
    uint64_t seed64()
    {
        return draw(0);
    }
    template <typename V>
    typename V::value_type pick(const V& v)
    {
        return v[draw(v.size())];
    }
    template <typename X>
    X pick(std::initializer_list<X> l)
    {
        return *(l.begin() + draw(l.size()));
    }
    /// index drawn with the given weights
    int weighted(std::initializer_list<int> w)
    {
        int sum = 0;
        for (int x : w)
            sum += x;
        int64_t v = draw(sum);
        int i = 0;
        for (int x : w) {
            if (v < x)
                return i;
            v -= x;
            i++;
        }
        return 0;
    }
    /// range biased towards small values, boundaries and round numbers
    int64_t sized(int64_t lo, int64_t hi)
    {
        if (hi <= lo)
            return lo;
        const int64_t span = hi - lo;
        switch (weighted({4, 4, 2, 1, 1})) {
        case 0:
            return lo + (int64_t)draw(std::min<int64_t>(span, 8) + 1);
        case 1: {
            // log-uniform
            int bits = 1;
            while (bits < 62 && (1LL << bits) <= span)
                bits++;
            int b = 1 + (int)draw(bits);
            int64_t m = std::min<int64_t>(span, (1LL << b) - 1);
            return lo + (int64_t)draw(m + 1);
        }
        case 2:
            return lo + (int64_t)draw(span + 1);
        case 3: {
            // around a power of two
            int bits = 1;
            while (bits < 62 && (1LL << bits) <= hi)
                bits++;
            int64_t v = (1LL << draw(bits)) + (int64_t)draw(3) - 1;
            return std::min(hi, std::max(lo, v));
        }
        default:
            return hi - (int64_t)draw(std::min<int64_t>(span, 3) + 1);
        }
    }
    /// `m` distinct indices below `n`, sorted
    std::vector<int> subset(int n, int m)
    {
        std::vector<int> idx(n);
        for (int i = 0; i < n; i++)
            idx[i] = i;
        for (int i = 0; i < m; i++) {
            int j = i + (int)draw(n - i);
            std::swap(idx[i], idx[j]);
        }
        idx.resize(m);
        std::sort(idx.begin(), idx.end());
        return idx;
    }
    std::vector<int> permutation(int n)
    {
        std::vector<int> idx(n);
        for (int i = 0; i < n; i++)
            idx[i] = i;
        for (int i = 0; i + 1 < n; i++)
            std::swap(idx[i], idx[i + (int)draw(n - i)]);
        return idx;
    }

    /* ---- reporting ---- */
    __attribute__((format(printf, 2, 3), noreturn)) void
    fail(const char* fmt, ...)
    {
        char b[1800];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof(b), fmt, ap);
        va_end(ap);
        throw Failure(b);
    }
    void check(bool ok, const char* what)
    {
        if (!ok)
            throw Failure(what);
    }
    [[noreturn]] void discard()
    {
        throw Discard();
    }
    /// marks the case as exercising the property (see the stated rule)
    void nontrivial(bool b = true)
    {
        if (b)
            nontriv = true;
    }
    void tag(const std::string& t)
    {
        case_tags.insert(t);
    }
    __attribute__((format(printf, 2, 3))) void desc(const char* fmt, ...)
    {
        char b[700];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof(b), fmt, ap);
        va_end(ap);
        if (!description.empty())
            description += " ";
        description += b;
        if (sh) {
            strncpy(sh->desc, description.c_str(), sizeof(sh->desc) - 1);
        }
    }
    uint64_t hash() const
    {
        uint64_t h = 1469598103934665603ULL;
        for (uint64_t v : out)
            h = mix64(h ^ v);
        return h;
    }

  private:
    Prng rng;
    size_t pos = 0;
    const uint8_t* bytes = nullptr;
    size_t bytes_left = 0;
    bool from_bytes = false;

    uint64_t take_bytes(uint64_t n)
    {
        int w = 8;
        if (n && n <= 0x100)
            w = 1;
        else if (n && n <= 0x10000)
            w = 2;
        else if (n && n <= 0x100000000ULL)
            w = 4;
        uint64_t v = 0;
        for (int i = 0; i < w && bytes_left > 0; i++) {
            v |= (uint64_t)*bytes++ << (8 * i);
            bytes_left--;
        }
        return v;
    }
    void reset()
    {
        pos = 0;
        out.clear();
        description.clear();
        case_tags.clear();
        nontriv = false;
        if (sh) {
            sh->n = 0;
            sh->overflow = 0;
            sh->desc[0] = 0;
            sh->msg[0] = 0;
        }
    }
};

/* Content generator: bytes described by (mode, seed). */
static const char* const FILL_NAMES[] =
    {"zeros", "ramp", "random", "ones", "sparse", "edge", "small", "runs"};
struct Fill {
    int mode = 0;
    uint64_t seed = 0;
    static Fill draw(Ctx& c)
    {
        Fill f;
        f.mode = c.weighted({1, 2, 8, 1, 3, 3, 2, 2});
        f.seed = c.seed64();
        return f;
    }
    const char* name() const
    {
        return FILL_NAMES[mode];
    }
    /// fill `len` bytes; `stream` distinguishes several buffers of one case
    void fill(uint8_t* p, size_t len, uint64_t stream, int word = 2) const
    {
        Prng r(seed ^ mix64(stream + 77));
        switch (mode) {
        case 0:
            memset(p, 0, len);
            break;
        case 1:
            for (size_t i = 0; i < len; i++)
                p[i] = (uint8_t)(1 + i + stream * 7);
            break;
        case 2:
            for (size_t i = 0; i < len; i++)
                p[i] = (uint8_t)(r.next() >> 24);
            break;
        case 3:
            memset(p, 0xff, len);
            break;
        case 4:
            memset(p, 0, len);
            for (size_t i = 0; i < 1 + len / 64; i++)
                if (len)
                    p[r.below(len)] = (uint8_t)r.next();
            break;
        case 5: // word values at the edges of the range
            for (size_t i = 0; i < len; i += word) {
                static const uint64_t e[] =
                    {0, 1, ~0ULL, ~1ULL, 2, 0x8080808080808080ULL, ~2ULL, 3};
                uint64_t v = e[r.below(8)];
                if (r.below(8) == 0)
                    v = 1ULL << r.below(8 * (word > 8 ? 8 : word));
                for (int b = 0; b < word && i + b < len; b++)
                    p[i + b] = (uint8_t)(v >> (8 * (b & 7)));
            }
            break;
        case 6: // small words
            for (size_t i = 0; i < len; i += word) {
                memset(p + i, 0, std::min<size_t>(word, len - i));
                p[i] = (uint8_t)r.below(4);
            }
            break;
        default: // runs of one word value
            for (size_t i = 0; i < len;) {
                uint64_t v = r.below(3) ? r.next() : ~0ULL;
                size_t n = word * (1 + r.below(40));
                for (size_t j = 0; j < n && i < len; j++, i++)
                    p[i] = (uint8_t)(v >> (8 * (j % word % 8)));
            }
        }
    }
    std::vector<uint8_t> make(size_t len, uint64_t stream, int word = 2) const
    {
        std::vector<uint8_t> v(len);
        fill(v.data(), len, stream, word);
        return v;
    }
};

static inline std::string hex(const uint8_t* p, size_t n, size_t max = 24)
{
    std::string s;
    char b[4];
    for (size_t i = 0; i < n && i < max; i++) {
        snprintf(b, sizeof(b), "%02x", p[i]);
        s += b;
    }
    if (n > max)
        s += "...";
    return s;
}

} // namespace pbt

/* Defined by each check. */
void property(pbt::Ctx& c);

namespace pbt {

static inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Shared* map_state(const char* file)
{
    void* p;
    if (file) {
        int fd = open(file, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, SHARED_SIZE) != 0) {
            perror(file);
            exit(2);
        }
        p = mmap(
            nullptr, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else {
        p = mmap(
            nullptr,
            SHARED_SIZE,
            PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS,
            -1,
            0);
    }
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    memset(p, 0, SHARED_SIZE);
    Shared* s = (Shared*)p;
    s->magic = 0x3148434254425050ULL;
    s->case_idx = -1;
    return s;
}

static void on_cpu_limit(int)
{
    static const char m[] = "pbt: case exceeded its CPU time\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(77);
}
static void arm(double cpu_s)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = (time_t)cpu_s;
    it.it_value.tv_usec = (suseconds_t)((cpu_s - (time_t)cpu_s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

/// 0 held, 1 failed, 2 discarded
static int run_case(Ctx& c, std::string* msg)
{
    try {
        property(c);
        return 0;
    } catch (const Discard&) {
        return 2;
    } catch (const Failure& f) {
        *msg = f.msg;
    } catch (const std::exception& e) {
        *msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        *msg = "unexpected exception";
    }
    if (c.sh) {
        strncpy(c.sh->msg, msg->c_str(), sizeof(c.sh->msg) - 1);
    }
    return 1;
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += (char)ch;
        } else if (ch < 0x20 || ch >= 0x7f) {
            snprintf(b, sizeof(b), "\\u%04x", ch);
            r += b;
        } else {
            r += (char)ch;
        }
    }
    return r + "\"";
}

static std::vector<uint64_t> read_choices(const char* f)
{
    std::vector<uint64_t> v;
    std::ifstream is(f);
    uint64_t x;
    while (is >> x)
        v.push_back(x);
    return v;
}

static int
attempt(Shared* sh, const std::vector<uint64_t>& ch, double cpu_s, int tier)
{
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        signal(SIGPROF, on_cpu_limit);
        arm(cpu_s);
        Ctx c;
        c.sh = sh;
        c.tier = tier;
        c.start_replay(ch);
        std::string msg;
        int r = run_case(c, &msg);
        _exit(r == 1 ? 10 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st))
        return 1;
    int code = WEXITSTATUS(st);
    return code != 0;
}

static int shrink_main(
    const char* file,
    const char* outf,
    double budget,
    double cpu_s,
    int tier)
{
    Shared* sh = map_state(nullptr);
    std::vector<uint64_t> best = read_choices(file);
    const double t0 = now();
    auto better = [](const std::vector<uint64_t>& a,
                     const std::vector<uint64_t>& b) {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    };
    auto consider = [&](const std::vector<uint64_t>& cand) {
        if (now() - t0 > budget)
            return false;
        if (!attempt(sh, cand, cpu_s, tier))
            return false;
        std::vector<uint64_t> got(
            sh->choices, sh->choices + std::min(sh->n, SHARED_CAP));
        if (sh->overflow)
            return false;
        // drop trailing zeros: a missing choice reads as zero
        while (!got.empty() && got.back() == 0)
            got.pop_back();
        if (better(got, best)) {
            best = got;
            return true;
        }
        return false;
    };
    if (!attempt(sh, best, cpu_s, tier)) {
        fprintf(stderr, "shrink: does not reproduce\n");
        return 3;
    }
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1;
             len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                std::vector<uint64_t> cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (consider(cand)) {
                    progress = true;
                    continue;
                }
                bool nz = false;
                cand = best;
                for (size_t j = i; j < i + len; j++) {
                    nz |= cand[j] != 0;
                    cand[j] = 0;
                }
                if (nz && consider(cand))
                    progress = true;
                i += len;
                if (now() - t0 > budget)
                    break;
            }
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo) {
                uint64_t hi = best[i];
                std::vector<uint64_t> cand = best;
                cand[i] = lo + (hi - lo) / 2;
                if (cand[i] == hi)
                    break;
                if (consider(cand)) {
                    progress = true;
                } else {
                    lo = cand[i] + 1;
                }
                if (now() - t0 > budget)
                    break;
            }
        }
    }
    attempt(sh, best, cpu_s, tier);
    std::ofstream os(outf);
    for (uint64_t v : best)
        os << v << "\n";
    os.close();
    printf(
        "{\"n\": %zu, \"desc\": %s, \"msg\": %s}\n",
        best.size(),
        jstr(sh->desc).c_str(),
        jstr(sh->msg).c_str());
    return 0;
}

static int main_(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2)
        opt[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, double d) {
        return opt.count(k) ? atof(opt[k].c_str()) : d;
    };
    const double cpu_s = num("--case-cpu", 60);
    const int tier = opt.count("--tier") && opt["--tier"] == "thorough";

    if (mode == "shrink")
        return shrink_main(
            opt["--choices"].c_str(),
            opt["--out"].c_str(),
            num("--budget", 30),
            cpu_s,
            tier);

    signal(SIGPROF, on_cpu_limit);
    Ctx c;
    c.tier = tier;
    c.sh = map_state(
        opt.count("--state") ? opt["--state"].c_str() : nullptr);
    std::string msg;

    if (mode == "replay") {
        c.verbose = true;
        c.start_replay(read_choices(opt["--choices"].c_str()));
        arm(cpu_s * 3);
        int r = run_case(c, &msg);
        printf("case: %s\n", c.description.c_str());
        if (r == 1) {
            printf("FAILED: %s\n", msg.c_str());
            return 10;
        }
        printf(r == 2 ? "discarded\n" : "held\n");
        return 0;
    }
    if (mode != "run") {
        fprintf(stderr, "usage: run|replay|shrink ...\n");
        return 2;
    }

    const uint64_t seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
    const int64_t start = (int64_t)num("--start", 0);
    const int64_t stride = (int64_t)num("--stride", 1);
    const int64_t cases = (int64_t)num("--cases", 100);
    const double budget = num("--budget", 1e9);
    const double t0 = now();

    std::map<std::string, uint64_t> tags;
    std::set<uint64_t> nt;
    std::vector<std::string> samples;
    uint64_t evals = 0, discards = 0, nontriv = 0;
    int rc = 0;
    int64_t i;
    for (i = start; i < cases; i += stride) {
        if (now() - t0 > budget)
            break;
        c.sh->case_idx = i;
        c.start_random(mix64(seed * 1000003 + mix64(i)));
        arm(cpu_s);
        int r = run_case(c, &msg);
        arm(0);
        evals++;
        if (r == 2) {
            discards++;
            continue;
        }
        for (auto& t : c.case_tags)
            tags[t]++;
        if (c.nontriv) {
            nontriv++;
            nt.insert(c.hash());
            if (samples.size() < 3 || (samples.size() < 6 && i % 7 == 0))
                samples.push_back(c.description);
        }
        if (r == 1) {
            rc = 10;
            break;
        }
    }
    c.sh->case_idx = rc ? i : -2;
    std::ofstream os(opt["--out"].c_str());
    os << "{\"evaluations\": " << evals << ", \"discards\": " << discards
       << ", \"nontrivial\": " << nontriv << ", \"complete\": "
       << (rc == 0 && i >= cases ? "true" : "false") << ", \"tags\": {";
    bool first = true;
    for (auto& t : tags) {
        os << (first ? "" : ", ") << jstr(t.first) << ": " << t.second;
        first = false;
    }
    os << "}, \"samples\": [";
    first = true;
    for (auto& s : samples) {
        os << (first ? "" : ", ") << jstr(s);
        first = false;
    }
    os << "], \"failed\": " << (rc ? "true" : "false")
       << ", \"msg\": " << jstr(rc ? msg : "")
       << ", \"desc\": " << jstr(rc ? c.description : "") << ", \"hashes\": [";
    first = true;
    for (uint64_t h : nt) {
        os << (first ? "" : ",") << h;
        first = false;
    }
    os << "]}\n";
    return rc;
}

} // namespace pbt

#ifdef PBT_FUZZ
/* Coverage-guided mode: the input bytes are the choices. */
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static pbt::Shared* sh = pbt::map_state(getenv("PBT_STATE"));
    static int tier = 1;
    pbt::Ctx c;
    c.tier = tier;
    c.sh = sh;
    c.start_bytes(data, size);
    std::string msg;
    int r = pbt::run_case(c, &msg);
    if (r == 1) {
        fprintf(stderr, "FAILED: %s\ncase: %s\n", msg.c_str(), c.description.c_str());
        abort();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    return pbt::main_(argc, argv);
}
#endif

#endif
