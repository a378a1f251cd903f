/* One build of the library behind a table of functions (see c08.cpp). */
#include "shim.h"
extern "C" __attribute__((visibility("default"))) const Shim* shim()
{
    static const Shim s = {
        [](const fx::Spec& sp) { return fx::make(sp).release(); },
        quadiron_fnt32_new,
        quadiron_fnt32_delete,
        quadiron_fnt32_encode,
        quadiron_fnt32_decode,
        quadiron_fnt32_reconstruct,
        quadiron_fnt32_get_metadata_size,
    };
    return &s;
}
