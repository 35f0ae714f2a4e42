#define private public
#define protected public
#include "mli_krn_rescale_compiler.cc"
#include "mli_krn_rescale_runtime.cc"
#undef private
#undef protected
#include "vdrv.h"
using namespace snps_arc::metaware::mli;
// the whole 3.0 chain: compile-time object -> private data -> run-time object -> Issue.  Memory 0 holds the input, 1 the output, 2 the encoded parameters
#ifndef RI
#define RI int32_t
#define RO int8_t
#define RR 4
#define RX -1
#endif
extern "C" int v_rescale(const RI *a, DIMS(a), uint32_t ao, RO *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, uint32_t oo, const int8_t *p, uint32_t po) {
    uint32_t s[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3}; int32_t m[4] = {am0, am1, am2, am3}, n[4] = {om0, om1, om2, om3}; uint32_t pn[1] = {RX < 0 ? 1u : s[RX < 0 ? 0 : RX]};
    TensorIterator<NoBuffer, kRescaleRank, kRescaleIterRank> ti(Tensor<NoBuffer, kRescaleRank>(s, m, RR)), to(Tensor<NoBuffer, kRescaleRank>(s, n, RR));
    int32_t ord[4], zi[4];
    for (int i = 0; i < 4; i++) { ord[i] = i == RX ? 0 : kSkipIterDim; zi[i] = i == RX ? 0 : 1; }
    Tensor<NoBuffer, kRescaleParamRank> pt(pn);
    TensorIterator<NoBuffer, kRescaleParamRank, kRescaleIterRank> tp = RX < 0 ? TensorIterator<NoBuffer, kRescaleParamRank, kRescaleIterRank>(pt) : TensorIterator<NoBuffer, kRescaleParamRank, kRescaleIterRank>(pt, ti, ord, zi);
    RescaleConfig cfg; cfg.axis = RX;
    ref::Rescale_CS cs(PlatformDescription(), ti, cfg, tp, to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, sizeof(RI)), OffsetBuffer(oo, 1, 0x7fffffff, sizeof(RO)), OffsetBuffer(po, 2, 0x7fffffff, 1), OffsetBuffer());
    char priv[sizeof(ref::RescalePrivateData)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[3] = {(uint64_t)a, (uint64_t)o, (uint64_t)p};
    ref::Rescale r(priv, sizeof(ref::RescalePrivateData), bases, 3);
    return r.Issue();
}
