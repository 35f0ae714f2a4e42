#include "vdrv.h"
#define private public
#define protected public
#ifndef OPN
#define OPN 0
#define EI int8_t
#define EO int8_t
#define KIND 0
#endif
#if OPN == 0
#include "mli_krn_add_compiler.cc"
#include "mli_krn_add_runtime.cc"
#define KN Add
#elif OPN == 1
#include "mli_krn_sub_compiler.cc"
#include "mli_krn_sub_runtime.cc"
#define KN Sub
#elif OPN == 2
#include "mli_krn_mul_compiler.cc"
#include "mli_krn_mul_runtime.cc"
#define KN Mul
#elif OPN == 3
#include "mli_krn_min_compiler.cc"
#include "mli_krn_min_runtime.cc"
#define KN Min
#else
#include "mli_krn_max_compiler.cc"
#include "mli_krn_max_runtime.cc"
#define KN Max
#endif
#undef private
#undef protected
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using namespace snps_arc::metaware::mli;
typedef TensorIterator<NoBuffer, kEltwiseRank, kEltwiseIterRank> TI;
// element-wise kernels of the 3.0 interface, whole chain.  KIND 0: both operands are tensors, 1: left operand is one element, 2: right operand is one element
extern "C" int v_elt3(const EI *a, int32_t as0, int32_t as1, int32_t as2, int32_t as3, int32_t am0, int32_t am1, int32_t am2, uint32_t ao,
                      const EI *b, int32_t bm0, int32_t bm1, int32_t bm2, uint32_t bo, EO *o, int32_t om0, int32_t om1, int32_t om2, uint32_t oo) {
    uint32_t s[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3}, one[4] = {1, 1, 1, 1};
    int32_t ma[4] = {am0, am1, am2, 1}, mb[4] = {bm0, bm1, bm2, 1}, mo[4] = {om0, om1, om2, 1}, m1[4] = {1, 1, 1, 1};
    TI ta(Tensor<NoBuffer, 4>(KIND == 1 ? one : s, KIND == 1 ? m1 : ma)), tb(Tensor<NoBuffer, 4>(KIND == 2 ? one : s, KIND == 2 ? m1 : mb)), to(Tensor<NoBuffer, 4>(s, mo));
    ref::CAT(KN, _CS) cs(PlatformDescription(), ta, tb, to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, sizeof(EI)), OffsetBuffer(bo, 1, 0x7fffffff, sizeof(EI)), OffsetBuffer(oo, 2, 0x7fffffff, sizeof(EO)), OffsetBuffer());
    char priv[sizeof(ref::EltwisePrivateData)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[3] = {(uint64_t)a, (uint64_t)b, (uint64_t)o};
    ref::KN r(priv, sizeof(ref::EltwisePrivateData), bases, 3);
    return r.Issue();
}
