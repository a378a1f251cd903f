/* Packed Fermat fields and prime fields. */
#define FECX_IMPL
#include "fecx.h"
namespace fx {
using namespace quadiron::fec;
template <typename T>
static std::unique_ptr<Codec> mk(const Spec& s)
{
    return std::unique_ptr<Codec>(
        new Impl<T>(s, new RsNf4<T>(s.ws, s.k, s.m, s.pkt)));
}
template <typename T>
static std::unique_ptr<Codec> mkp(const Spec& s)
{
    return std::unique_ptr<Codec>(
        new Impl<T>(s, new RsGfpFft<T>(s.ws, s.k, s.m)));
}
std::unique_ptr<Codec> make_nf4(const Spec& s)
{
    return s.tbits == 32 ? mk<uint32_t>(s)
                         : (s.tbits == 64 ? mk<uint64_t>(s)
                                          : mk<__uint128_t>(s));
}
std::unique_ptr<Codec> make_gfp(const Spec& s)
{
    return s.tbits == 16 ? mkp<uint16_t>(s)
                         : (s.tbits == 32 ? mkp<uint32_t>(s) : mkp<uint64_t>(s));
}
} // namespace fx
