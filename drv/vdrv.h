// Verification drivers: they only build the argument structures of the real functions from scalar arguments.
#pragma once
#include "mli_types.h"
#include "mli_config.h"
#include <stdint.h>
#include <string.h>
#define DIMS(p) int32_t p##s0, int32_t p##s1, int32_t p##s2, int32_t p##s3, int32_t p##m0, int32_t p##m1, int32_t p##m2, int32_t p##m3
#define USE(p) p##s0, p##s1, p##s2, p##s3, p##m0, p##m1, p##m2, p##m3
static inline mli_tensor mkT(const void *p, mli_element_type et, unsigned rank, DIMS()) {
    mli_tensor t;
    t.data.capacity = 0x7fffffff;
    t.data.mem.pi8 = (int8_t *)p;
    t.mem_stride[0] = m0; t.mem_stride[1] = m1; t.mem_stride[2] = m2; t.mem_stride[3] = m3;
    t.shape[0] = s0; t.shape[1] = s1; t.shape[2] = s2; t.shape[3] = s3;
    t.rank = rank;
    t.el_type = et;
    return t;
}
