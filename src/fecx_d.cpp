/* FFT codecs over binary fields. */
#define FECX_IMPL
#include "fecx.h"
namespace fx {
using namespace quadiron::fec;
template <typename T>
static std::unique_ptr<Codec> mk(const Spec& s)
{
    return std::unique_ptr<Codec>(
        new Impl<T>(s, new RsGf2nFft<T>(s.ws, s.k, s.m)));
}
template <typename T>
static std::unique_ptr<Codec> mka(const Spec& s)
{
    return std::unique_ptr<Codec>(
        new Impl<T>(s, new RsGf2nFftAdd<T>(s.ws, s.k, s.m)));
}
std::unique_ptr<Codec> make_gf2n_fft(const Spec& s)
{
    return s.tbits == 32 ? mk<uint32_t>(s)
                         : (s.tbits == 64 ? mk<uint64_t>(s)
                                          : mk<__uint128_t>(s));
}
std::unique_ptr<Codec> make_gf2n_add(const Spec& s)
{
    return s.tbits == 32 ? mka<uint32_t>(s)
                         : (s.tbits == 64 ? mka<uint64_t>(s)
                                          : mka<__uint128_t>(s));
}
} // namespace fx
