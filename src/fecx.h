/* Uniform access to all codecs of the library. */
#ifndef FECX_H
#define FECX_H
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <property.h>

namespace fx {

typedef std::vector<uint8_t> Bytes;
using quadiron::Properties;

enum Fam { FNT, NF4, GFP, GF2N_V, GF2N_C, GF2N_FFT, GF2N_ADD };
static const char* const FAM_NAMES[] =
    {"fnt", "nf4", "gfp-fft", "gf2n-v", "gf2n-c", "gf2n-fft", "gf2n-add"};
/// word by word, packet streams, memory blocks
enum Iface { H, V, B };
static const char* const IFACE_NAMES[] = {"word", "stream", "block"};

struct Spec {
    Fam fam = FNT;
    int tbits = 32; // size of the symbol type
    int ws = 2; // bytes per word
    bool sys = false;
    int k = 1, m = 1;
    size_t pkt = 8;
    int n() const
    {
        return k + m;
    }
    int n_outputs() const
    {
        return sys ? m : k + m;
    }
};

class Codec {
  public:
    Spec s;
    virtual ~Codec() = default;
    /// `wanted` only applies to blocks
    virtual void encode(
        Iface f,
        const std::vector<Bytes>& data,
        std::vector<Bytes>& out,
        std::vector<Properties>& props,
        const std::vector<bool>* wanted = nullptr) = 0;
    /** `have` has n_data + n_parities entries. `data` is used by systematic
     * codes only. Outputs that are not wanted keep their content. */
    virtual bool decode(
        Iface f,
        const std::vector<Bytes>& data,
        const std::vector<Bytes>& frags,
        const std::vector<bool>& have,
        std::vector<Properties> props,
        const std::vector<bool>& wanted,
        std::vector<Bytes>& out) = 0;
    /// length of the underlying codeword
    virtual unsigned length() = 0;
};

std::unique_ptr<Codec> make_fnt(const Spec&) __attribute__((weak));
std::unique_ptr<Codec> make_nf4(const Spec&) __attribute__((weak));
std::unique_ptr<Codec> make_gfp(const Spec&) __attribute__((weak));
std::unique_ptr<Codec> make_gf2n(const Spec&) __attribute__((weak));
std::unique_ptr<Codec> make_gf2n_fft(const Spec&) __attribute__((weak));
std::unique_ptr<Codec> make_gf2n_add(const Spec&) __attribute__((weak));

static inline std::unique_ptr<Codec> make(const Spec& s)
{
    switch (s.fam) {
    case FNT:
        return make_fnt(s);
    case NF4:
        return make_nf4(s);
    case GFP:
        return make_gfp(s);
    case GF2N_V:
    case GF2N_C:
        return make_gf2n(s);
    case GF2N_FFT:
        return make_gf2n_fft(s);
    default:
        return make_gf2n_add(s);
    }
}

} // namespace fx

#ifdef FECX_IMPL
#include <cstring>
#include <sstream>
#include <quadiron.h>

namespace fx {

/* Memory block of exactly the given size (so that a sanitizer sees any access
 * beyond it), never null. */
struct Block {
    uint8_t* p;
    size_t n;
    explicit Block(size_t n) : p((uint8_t*)malloc(n ? n : 1)), n(n) {}
    explicit Block(const Bytes& b) : Block(b.size())
    {
        if (n)
            memcpy(p, b.data(), n);
    }
    Block(const Block&) = delete;
    Block& operator=(const Block&) = delete;
    ~Block()
    {
        free(p);
    }
    Bytes bytes() const
    {
        return Bytes(p, p + n);
    }
};

/* A source that cannot be rewound nor measured, and that hands out a few bytes
 * at a time, as a pipe does. */
class Pipe : public std::streambuf {
    Bytes b;
    size_t at = 0, step;
    int_type underflow() override
    {
        if (at == b.size())
            return traits_type::eof();
        const size_t n = std::min(step, b.size() - at);
        char* p = reinterpret_cast<char*>(b.data()) + at;
        setg(p, p, p + n);
        at += n;
        return traits_type::to_int_type(*p);
    }

  public:
    Pipe(const Bytes& b, size_t step) : b(b), step(step) {}
};

/// input stream on the given bytes; `kind` tells which sort of stream
class In {
    std::unique_ptr<std::streambuf> buf;
    std::unique_ptr<std::istream> is;

  public:
    In(const Bytes& b, size_t kind)
    {
        static const char before[] = "header";
        switch (kind % 4) {
        case 0: // at its start
        case 1:
            buf.reset(new std::stringbuf(std::string(b.begin(), b.end()), std::ios::in));
            break;
        case 2: { // something was read from it before
            std::string t(before);
            t.append(b.begin(), b.end());
            buf.reset(new std::stringbuf(t, std::ios::in));
            break;
        }
        default:
            buf.reset(new Pipe(b, 1 + kind / 4 % 37));
        }
        is.reset(new std::istream(buf.get()));
        if (kind % 4 == 2) {
            char t[sizeof(before) - 1];
            is->read(t, sizeof(t));
        }
    }
    std::istream* get()
    {
        return is.get();
    }
};

/// output stream, possibly with something written to it before
class Out {
    std::ostringstream os;
    size_t n = 0;

  public:
    explicit Out(size_t kind)
    {
        if (kind % 2) {
            os << "header";
            n = 6;
        }
    }
    std::ostream* get()
    {
        return &os;
    }
    Bytes bytes() const
    {
        const std::string s = os.str();
        if (s.compare(0, n, std::string("header"), 0, n) != 0)
            throw std::runtime_error("the start of an output stream was overwritten");
        return Bytes(s.begin() + n, s.end());
    }
};

template <typename T>
class Impl : public Codec {
  public:
    std::unique_ptr<quadiron::fec::FecCode<T>> fec;

    Impl(const Spec& sp, quadiron::fec::FecCode<T>* f) : fec(f)
    {
        s = sp;
    }
    unsigned length() override
    {
        return (unsigned)fec->n;
    }
    /// whether memory is given for an unwanted or lost block
    static bool given(size_t len, int i)
    {
        return (len / 2 + i) % 3 != 0;
    }

    void encode(
        Iface f,
        const std::vector<Bytes>& data,
        std::vector<Bytes>& out,
        std::vector<Properties>& props,
        const std::vector<bool>* wanted) override
    {
        const int no = s.n_outputs();
        props.resize(no);
        out.resize(no);
        if (f == B) {
            std::vector<std::unique_ptr<Block>> in, o;
            std::vector<uint8_t*> ip, op;
            for (auto& d : data) {
                in.emplace_back(new Block(d));
                ip.push_back(in.back()->p);
            }
            std::vector<bool> w(no, true);
            if (wanted)
                w = *wanted;
            for (int i = 0; i < no; i++) {
                if (w[i]) {
                    o.emplace_back(new Block(data[0].size()));
                    memset(o.back()->p, 0xd7, o.back()->n);
                    op.push_back(o.back()->p);
                } else if (given(data[0].size(), i)) {
                    o.emplace_back(new Block(data[0].size()));
                    memset(o.back()->p, 0xd8, o.back()->n);
                    op.push_back(o.back()->p);
                } else {
                    o.emplace_back(nullptr);
                    op.push_back(nullptr);
                }
            }
            fec->encode_blocks_vertical(ip, op, props, w, data[0].size());
            for (int i = 0; i < no; i++)
                out[i] = w[i] ? o[i]->bytes() : Bytes();
            for (int i = 0; i < no; i++)
                if (!w[i] && o[i] && o[i]->bytes() != Bytes(data[0].size(), 0xd8))
                    throw std::runtime_error("encode wrote an unwanted block");
            for (size_t i = 0; i < data.size(); i++)
                if (in[i]->bytes() != data[i])
                    throw std::runtime_error("encode changed its input");
            return;
        }
        std::vector<std::unique_ptr<In>> is;
        std::vector<std::unique_ptr<Out>> os;
        std::vector<std::istream*> ip;
        std::vector<std::ostream*> op;
        // the sort of the streams follows from the case
        const size_t kind = data[0].size() / 2 + no + s.k;
        for (auto& d : data) {
            is.emplace_back(new In(d, kind + is.size()));
            ip.push_back(is.back()->get());
        }
        for (int i = 0; i < no; i++) {
            os.emplace_back(new Out(kind + i));
            op.push_back(os.back()->get());
        }
        if (f == V)
            fec->encode_streams_vertical(ip, op, props);
        else
            fec->encode_streams_horizontal(ip, op, props);
        for (int i = 0; i < no; i++)
            out[i] = os[i]->bytes();
    }

    bool decode(
        Iface f,
        const std::vector<Bytes>& data,
        const std::vector<Bytes>& frags,
        const std::vector<bool>& have,
        std::vector<Properties> props,
        const std::vector<bool>& wanted,
        std::vector<Bytes>& out) override
    {
        const int no = s.n_outputs();
        const int first = s.sys ? s.k : 0; // index of frags[0] in `have`
        out.resize(s.k);
        if (f == B) {
            size_t len = 0;
            for (auto& x : frags)
                len = std::max(len, x.size());
            if (s.sys)
                for (auto& x : data)
                    len = std::max(len, x.size());
            std::vector<std::unique_ptr<Block>> d, p;
            std::vector<uint8_t*> dp, pp;
            std::vector<int> missing(s.n());
            for (int i = 0; i < s.n(); i++)
                missing[i] = !have[i];
            for (int i = 0; i < s.k; i++) {
                if (s.sys && have[i])
                    d.emplace_back(new Block(data[i]));
                else if (wanted[i]) {
                    d.emplace_back(new Block(len));
                    memset(d.back()->p, 0x3c, len);
                } else if (given(len, i)) {
                    d.emplace_back(new Block(len));
                    memset(d.back()->p, 0x3d, len);
                } else
                    d.emplace_back(nullptr);
                dp.push_back(d.back() ? d.back()->p : nullptr);
            }
            for (int i = 0; i < no; i++) {
                p.emplace_back(
                    have[first + i] || (frags[i].size() == len && given(len, i + 1))
                        ? new Block(frags[i])
                        : nullptr);
                pp.push_back(p.back() ? p.back()->p : nullptr);
            }
            std::vector<bool> w = wanted;
            const bool ok =
                fec->decode_blocks_vertical(dp, pp, props, missing, w, len);
            for (int i = 0; i < s.k; i++)
                if (d[i] && wanted[i])
                    out[i] = d[i]->bytes();
            for (int i = 0; i < no; i++)
                if (p[i] && p[i]->bytes() != frags[i])
                    throw std::runtime_error("decode changed a fragment");
            for (int i = 0; i < s.k; i++)
                if (d[i] && !wanted[i] &&
                    d[i]->bytes() != (s.sys && have[i] ? data[i] : Bytes(len, 0x3d)))
                    throw std::runtime_error("decode changed unwanted data");
            return ok;
        }
        std::vector<std::unique_ptr<In>> is;
        std::vector<std::unique_ptr<Out>> os;
        std::vector<std::istream*> dp, pp;
        std::vector<std::ostream*> op;
        const size_t kind = (frags.empty() ? 0 : frags[0].size()) / 2 + no;
        for (int i = 0; i < s.k; i++) {
            if (s.sys && have[i]) {
                is.emplace_back(new In(data[i], kind + i));
                dp.push_back(is.back()->get());
            } else {
                dp.push_back(nullptr);
            }
        }
        for (int i = 0; i < no; i++) {
            if (have[first + i]) {
                is.emplace_back(new In(frags[i], kind + i + 1));
                pp.push_back(is.back()->get());
            } else {
                pp.push_back(nullptr);
            }
        }
        for (int i = 0; i < s.k; i++) {
            if (wanted[i]) {
                os.emplace_back(new Out(kind + i + 1));
                op.push_back(os.back()->get());
            } else {
                os.emplace_back(nullptr);
                op.push_back(nullptr);
            }
        }
        const bool ok = f == V
                            ? fec->decode_streams_vertical(dp, pp, props, op)
                            : fec->decode_streams_horizontal(dp, pp, props, op);
        for (int i = 0; i < s.k; i++)
            if (os[i])
                out[i] = os[i]->bytes();
        return ok;
    }
};

} // namespace fx
#endif
#endif
