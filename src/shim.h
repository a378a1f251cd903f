#ifndef SHIM_H
#define SHIM_H
#include <cstddef>
#include <cstdint>
#include <quadiron_c.h>
#include "fecx.h"
struct Shim {
    fx::Codec* (*make)(const fx::Spec&);
    decltype(&quadiron_fnt32_new) c_new;
    decltype(&quadiron_fnt32_delete) c_delete;
    decltype(&quadiron_fnt32_encode) c_encode;
    decltype(&quadiron_fnt32_decode) c_decode;
    decltype(&quadiron_fnt32_reconstruct) c_reconstruct;
    decltype(&quadiron_fnt32_get_metadata_size) c_meta;
};
#endif
