/* Fermat codecs. */
#define FECX_IMPL
#include "fecx.h"
namespace fx {
using namespace quadiron::fec;
template <typename T>
static std::unique_ptr<Codec> mk(const Spec& s)
{
    return std::unique_ptr<Codec>(new Impl<T>(
        s,
        new RsFnt<T>(
            s.sys ? FecType::SYSTEMATIC : FecType::NON_SYSTEMATIC,
            s.ws,
            s.k,
            s.m,
            s.pkt)));
}
std::unique_ptr<Codec> make_fnt(const Spec& s)
{
    return s.tbits == 16 ? mk<uint16_t>(s) : mk<uint32_t>(s);
}
} // namespace fx
