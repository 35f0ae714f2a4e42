#include "vdrv.h"
#define private public
#define protected public
#include "mli_krn_rescale_compiler.cc"
#include "mli_krn_clip_compiler.cc"
#undef private
#undef protected
using namespace snps_arc::metaware::mli;
#ifndef RI
#define RI int8_t
#define RO int8_t
#endif
extern "C" int v_enc_rescale(const RI *ib, const int16_t *sc, const int8_t *sh, const RO *ob, uint32_t n, int8_t *e) {
    uint32_t pn[1] = {n}, s[4] = {1, 1, 1, n}; TensorIterator<NoBuffer, 4, 4> ti((Tensor<NoBuffer, 4>(s))); TensorIterator<NoBuffer, 1, 4> tp((Tensor<NoBuffer, 1>(pn)));
    RescaleConfig cfg(3); ref::Rescale_CS cs(PlatformDescription(), ti, cfg, tp, ti);
    Buffer eb(e, 0x7fffffff, 1);
    return cs.EncodeParams(Tensor<Buffer, 1>(Buffer((void *)ib, n * sizeof(RI), sizeof(RI)), pn), Tensor<Buffer, 1>(Buffer((void *)sc, n * 2, 2), pn), Tensor<Buffer, 1>(Buffer((void *)sh, n, 1), pn), Tensor<Buffer, 1>(Buffer((void *)ob, n * sizeof(RO), sizeof(RO)), pn), eb);
}
extern "C" int v_enc_clip(int8_t *lo, int8_t *hi, int8_t *e) {
    uint32_t one[1] = {1}; Tensor<Buffer, 1> tl(Buffer(lo, 1, 1), one), th(Buffer(hi, 1, 1), one); Buffer eb(e, 2, 1);
    TensorIterator<NoBuffer, 4, 4> ti; ref::Clip_CS cs(PlatformDescription(), ti, ti);
    return cs.EncodeParams(tl, th, eb);
}
