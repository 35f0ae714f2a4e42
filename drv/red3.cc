#include "vdrv.h"
#define private public
#define protected public
#ifndef OPN
#define OPN 0
#define EI int8_t
#define RR 4
#define RX 1
#endif
#if OPN == 0
#include "mli_reduce_sum_compiler.cc"
#include "mli_reduce_sum_runtime.cc"
#define KN ReduceSum
#else
#include "mli_reduce_max_compiler.cc"
#include "mli_reduce_max_runtime.cc"
#define KN ReduceMax
#endif
#undef private
#undef protected
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using namespace snps_arc::metaware::mli;
// reduction along RX of a tensor of rank RR, whole chain.  Memory 0 holds the input, 1 the output
extern "C" int v_red3(const EI *a, DIMS(a), uint32_t ao, EI *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, uint32_t oo) {
    uint32_t s[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3}, t[4] = {s[0], s[1], s[2], s[3]};
    int32_t m[4] = {am0, am1, am2, am3}, n[4] = {om0, om1, om2, om3};
    t[RX] = 1;
    TensorIterator<NoBuffer, 4, 4> ti(Tensor<NoBuffer, 4>(s, m, RR)), to(Tensor<NoBuffer, 4>(t, n, RR));
    ref::CAT(KN, _CS) cs(PlatformDescription(), ti, ReduceOpConfig(RX), to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, sizeof(EI)), OffsetBuffer(oo, 1, 0x7fffffff, sizeof(EI)), OffsetBuffer());
    char priv[sizeof(ref::CAT(KN, PrivateData))];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[2] = {(uint64_t)a, (uint64_t)o};
    ref::KN r(priv, sizeof priv, bases, 2);
    return r.Issue();
}
