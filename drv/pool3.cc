#include "vdrv.h"
#define private public
#define protected public
#ifndef OPN
#define OPN 0
#define EI int8_t
#define EO int8_t
#endif
#if OPN == 0
#include "mli_krn_maxpool_compiler.cc"
#include "mli_krn_maxpool_runtime.cc"
#define KN MaxPool2D
#else
#include "mli_krn_sumpool_compiler.cc"
#include "mli_krn_sumpool_runtime.cc"
#define KN SumPool2D
#endif
#undef private
#undef protected
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using namespace snps_arc::metaware::mli;
// pooling of the 3.0 interface (BHWC), whole chain.  Memory 0 holds the input, 1 the output
extern "C" int v_pool3(const EI *a, int32_t as0, int32_t as1, int32_t as2, int32_t as3, int32_t am0, int32_t am1, int32_t am2, uint32_t ao, EO *o, int32_t oh, int32_t ow, int32_t om0, int32_t om1, int32_t om2, uint32_t oo,
                       int32_t kh, int32_t kw, int32_t sh, int32_t sw, int32_t pt, int32_t pl, int32_t pb, int32_t pr) {
    uint32_t s[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3}, t[4] = {s[0], (uint32_t)oh, (uint32_t)ow, s[3]};
    int32_t m[4] = {am0, am1, am2, 1}, n[4] = {om0, om1, om2, 1};
    TensorIterator<NoBuffer, kPoolRank, kPoolIterRank> ti(Tensor<NoBuffer, kPoolRank>(s, m)), to(Tensor<NoBuffer, kPoolRank>(t, n));
    ref::CAT(KN, _CS) cs(PlatformDescription(), ti, PoolOpConfig(kh, kw, sh, sw, pt, pl, pb, pr), to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, sizeof(EI)), OffsetBuffer(oo, 1, 0x7fffffff, sizeof(EO)), OffsetBuffer());
    char priv[sizeof(ref::Pool2DPrivateData)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[2] = {(uint64_t)a, (uint64_t)o};
    ref::KN r(priv, sizeof priv, bases, 2);
    return r.Issue();
}
