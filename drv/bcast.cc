#define private public
#include "mli_move_broadcast_runtime.cc"
#undef private
#include "vdrv.h"
using namespace snps_arc::metaware::mli;
// broadcast of a rank-R tensor of ES-byte elements; buffers of the size the memory bases stand for
#ifndef BR
#define BR 4
#endif
#ifndef BES
#define BES 1
#endif
extern "C" void v_bcast(const int8_t *a, uint32_t as0, uint32_t as1, uint32_t as2, uint32_t as3, int32_t am0, int32_t am1, int32_t am2, int32_t am3, uint32_t ao,
                        int8_t *o, uint32_t os0, uint32_t os1, uint32_t os2, uint32_t os3, int32_t om0, int32_t om1, int32_t om2, int32_t om3, uint32_t oo) {
    uint32_t s[4] = {as0, as1, as2, as3}, t[4] = {os0, os1, os2, os3}; int32_t m[4] = {am0, am1, am2, am3}, n[4] = {om0, om1, om2, om3};
    Tensor<InternalBuffer, 4> src(InternalBuffer((uint64_t)a + ao, 0x7fffffff, BES), s, m, BR), dst(InternalBuffer((uint64_t)o + oo, 0x7fffffff, BES), t, n, BR);
    alignas(ref::MoveBroadcast) char obj[sizeof(ref::MoveBroadcast)];
    ((ref::MoveBroadcast *)obj)->MoveBroadcastRun<InternalBuffer, 4>(src, dst);
}
