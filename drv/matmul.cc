#include "vdrv.h"
#include <stdint.h>
#include <string.h>
#include <assert.h>
#include "mli_types.hpp"
#include "mli_krn_matmul_ref.hpp"
using namespace snps_arc::metaware::mli;
extern "C" void v_matmul(const int8_t *a, int32_t h, int32_t k, int32_t am0, int32_t ao, const int8_t *b, int32_t n, int32_t bm0, int32_t bo, int32_t *o, int32_t om0, int32_t oo, const int8_t *z) {
    uint32_t sa[2] = {(uint32_t)h, (uint32_t)k}, sb[2] = {(uint32_t)k, (uint32_t)n}, so[2] = {(uint32_t)h, (uint32_t)n};
    int32_t ma[2] = {am0, 1}, mb[2] = {bm0, 1}, mo[2] = {om0, 1};
    Tensor<InternalBuffer, 2> ta(InternalBuffer((uint64_t)a, 1u << 30, 1), sa, ma), tb(InternalBuffer((uint64_t)b, 1u << 30, 1), sb, mb), to(InternalBuffer((uint64_t)o, 1u << 30, 4), so, mo);
    ta.set_offs(ao); tb.set_offs(bo); to.set_offs(oo);
    InternalBuffer p((uint64_t)z, 2, 1);
    mli::krn::ref::MatMul_prepare_and_run<int8_t, int8_t, int32_t>(ta, tb, to, p);
}
