#include "vdrv.h"
#define private public
#define protected public
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
#include "mli_krn_conv2d_compiler.cc"
#include "mli_krn_conv2d_runtime.cc"
#elif KIND == 1
#include "mli_krn_depthwise_conv2d_compiler.cc"
#include "mli_krn_depthwise_conv2d_runtime.cc"
#elif KIND == 2
#include "mli_krn_transpose_conv_compiler.cc"
#include "mli_krn_transpose_conv_runtime.cc"
#endif
#undef private
#undef protected
using namespace snps_arc::metaware::mli;
// convolution of the 3.0 interface, whole chain. Memories: 0 input, 1 output, 2 weights, 3 input zero point, 4 weight zero points
extern "C" int v_conv3(const int8_t *a, int32_t as0, int32_t as1, int32_t as2, int32_t am0, int32_t am1, uint32_t ao, const int8_t *w, int32_t kh, int32_t kw, int32_t n, int32_t wm0, int32_t wm1, int32_t wm2, uint32_t wo,
                       const int8_t *z, uint32_t zo, const int8_t *wz, int32_t *o, int32_t oh, int32_t ow, int32_t om0, int32_t om1, uint32_t oo, int32_t nb, int32_t amb, int32_t omb,
                       int32_t sh, int32_t sw, int32_t dh, int32_t dw, int32_t pt, int32_t pl, int32_t pb, int32_t pr) {
    uint32_t s[5] = {(uint32_t)(KIND == 1 ? nb : 1), (uint32_t)as0, (uint32_t)as1, 1, (uint32_t)as2}, t[5] = {s[0], (uint32_t)oh, (uint32_t)ow, 1, (uint32_t)(KIND == 1 ? as2 : n)};
    int32_t m[5] = {amb, am0, am1, am1, 1}, k[5] = {omb, om0, om1, om1, 1};
#if KIND == 0
    constexpr unsigned WR = 5;
    uint32_t v[5] = {1, (uint32_t)kh, (uint32_t)kw, (uint32_t)as2, (uint32_t)n}; int32_t q[5] = {1, wm0, wm1, wm2, 1};
    using CS = ref::Conv2d_CS; using RT = ref::Conv2d; using PD = ref::Conv2DPrivateData; Conv2DConfig cfg(sh, sw, pt, pl, pb, pr, dh, dw, 1);
#elif KIND == 2
    constexpr unsigned WR = 5;
    uint32_t v[5] = {1, (uint32_t)kh, (uint32_t)kw, (uint32_t)as2, (uint32_t)n}; int32_t q[5] = {1, wm0, wm1, wm2, 1};
    using CS = ref::TransposeConv2D_CS; using RT = ref::TransposeConv2D; using PD = ref::TransposeConv2DPrivateData; TransposeConv2DConfig cfg(HS, WS, pt, pl, pb, pr);
#else
    constexpr unsigned WR = 3;
    uint32_t v[3] = {(uint32_t)kh, (uint32_t)kw, (uint32_t)as2}; int32_t q[3] = {wm0, wm1, 1};
    using CS = ref::DepthwiseConv2d_CS; using RT = ref::DepthwiseConv2d; using PD = ref::DepthwiseConv2DPrivateData; DwConv2DConfig cfg(sh, sw, pt, pl, pb, pr, dh, dw);
#endif
    TensorIterator<NoBuffer, 5, 5> ti(Tensor<NoBuffer, 5>(s, m)), to(Tensor<NoBuffer, 5>(t, k));
#if KIND == 1
    const int32_t wo3[5] = {-1, 0, 1, -1, 2}, wm3[5] = {1, 1, 1, 1, 0};
    TensorIterator<NoBuffer, 3, 5> tw(Tensor<NoBuffer, 3>(v, q), to, wo3, wm3);
#else
    TensorIterator<NoBuffer, 5, 5> tw(Tensor<NoBuffer, 5>(v, q));
#endif
    uint32_t zs[1] = {v[WR - 1]}, one[1] = {1}; const int32_t ord[5] = {-1, -1, -1, -1, 0}, msk[5] = {1, 1, 1, 1, 0}, all[5] = {1, 1, 1, 1, 1};
    TensorIterator<NoBuffer, 1, 5> tz(Tensor<NoBuffer, 1>(zs), to, ord, msk), tiz(Tensor<NoBuffer, 1>(one), to, ord, all);
    CS cs(PlatformDescription(), ti, tiz, tw, tz, cfg, to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, 1), OffsetBuffer(oo, 1, 0x7fffffff, 4), OffsetBuffer(wo, 2, 0x7fffffff, 1), OffsetBuffer(zo, 3, 1, 1), OffsetBuffer(0, 4, zs[0], 1), OffsetBuffer());
    char priv[sizeof(PD)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[5] = {(uint64_t)a, (uint64_t)o, (uint64_t)w, (uint64_t)z, (uint64_t)wz};
    RT r(priv, sizeof priv, bases, 5);
    return r.Issue();
}
