/* Matrix codecs over binary fields. */
#define FECX_IMPL
#include "fecx.h"
namespace fx {
using namespace quadiron::fec;
template <typename T>
static std::unique_ptr<Codec> mk(const Spec& s)
{
    return std::unique_ptr<Codec>(new Impl<T>(
        s,
        new RsGf2n<T>(
            s.ws,
            s.k,
            s.m,
            s.fam == GF2N_C ? RsMatrixType::CAUCHY
                            : RsMatrixType::VANDERMONDE)));
}
std::unique_ptr<Codec> make_gf2n(const Spec& s)
{
    return s.tbits == 32 ? mk<uint32_t>(s)
                         : (s.tbits == 64 ? mk<uint64_t>(s)
                                          : mk<__uint128_t>(s));
}
} // namespace fx
