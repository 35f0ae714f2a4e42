#include "vdrv.h"
#define private public
#define protected public
#include "mli_krn_clip_compiler.cc"
#include "mli_krn_clip_runtime.cc"
#undef private
#undef protected
using namespace snps_arc::metaware::mli;
#ifndef EI
#define EI int8_t
#define RR 4
#endif
typedef TensorIterator<NoBuffer, kClipRank, kClipIterRank> TI;
extern "C" int v_clip3(const EI *a, DIMS(a), uint32_t ao, EI *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, uint32_t oo, const EI *p, uint32_t po) {
    uint32_t s[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3};
    int32_t ma[4] = {am0, am1, am2, am3}, mo[4] = {om0, om1, om2, om3};
    TI ta(Tensor<NoBuffer, 4>(s, ma, RR)), to(Tensor<NoBuffer, 4>(s, mo, RR));
    ref::Clip_CS cs(PlatformDescription(), ta, to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, sizeof(EI)), OffsetBuffer(oo, 1, 0x7fffffff, sizeof(EI)), OffsetBuffer(po, 2, 0x7fffffff, sizeof(EI)), OffsetBuffer());
    char priv[sizeof(ref::ClipPrivateData)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[3] = {(uint64_t)a, (uint64_t)o, (uint64_t)p};
    ref::Clip r(priv, sizeof(ref::ClipPrivateData), bases, 3);
    return r.Issue();
}
