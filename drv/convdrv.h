#pragma once
#include "vdrv.h"
#ifndef FIXS
#define FIXS
#endif
#define CFG mli_conv2d_cfg c; c.relu.type = (mli_relu_type)relu; c.stride_width = sw; c.stride_height = sh; c.padding_left = pl; c.padding_right = pr; c.padding_top = pt; c.padding_bottom = pb; c.dilation_width = dw; c.dilation_height = dh;
#define CP int32_t sh, int32_t sw, int32_t pt, int32_t pl, int32_t pb, int32_t pr, int32_t dh, int32_t dw
#define D3(p) int32_t p##s0, int32_t p##s1, int32_t p##s2, int32_t p##m0, int32_t p##m1, int32_t p##m2
#define U3(p) p##s0, p##s1, p##s2, 0, p##m0, p##m1, p##m2, 0
// in HWC, weights HWCN (kernel size K: 0 = any), bias N, out HWN
#define ALLR(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2) M(__VA_ARGS__, 3)
// WC: expression for the weights' third dimension, N: for the number of output channels
#define CONV_FX(fn, WC, N, iT, iE, wT, wE, K, RELU) \
extern "C" int v_##fn##_r##RELU(const iT *a, D3(a), int8_t fa, const wT *w, int32_t kh, int32_t kw, int32_t wc_, int32_t n, int32_t wm0, int32_t wm1, int32_t wm2, int32_t wm3, int8_t fw, const wT *b, int8_t fb, \
    iT *o, int32_t oh, int32_t ow, int32_t om0, int32_t om1, int32_t om2, int8_t fo, CP) { \
    const int relu = RELU; if (K) { kh = K; kw = K; } FIXS \
    mli_tensor ti = mkT(a, iE, 3, U3(a)), tw = mkT(w, wE, 4, kh, kw, WC, N, wm0, wm1, wm2, wm3), tb = mkT(b, wE, 1, N, 0, 0, 0, 1, 0, 0, 0), to = mkT(o, iE, 3, oh, ow, N, 0, om0, om1, om2, 0); \
    ti.el_params.fx.frac_bits = fa; tw.el_params.fx.frac_bits = fw; tb.el_params.fx.frac_bits = fb; to.el_params.fx.frac_bits = fo; CFG \
    return mli_krn_##fn(&ti, &tw, &tb, &c, &to); }
#define CONV_SA(fn, WC, N, K, RELU) \
extern "C" int v_##fn##_r##RELU(const int8_t *a, D3(a), int16_t ac, int8_t af, int16_t az, const int8_t *w, int32_t kh, int32_t kw, int32_t wc_, int32_t n, int32_t wm0, int32_t wm1, int32_t wm2, int32_t wm3, const int16_t *wc, const int8_t *wf, const int16_t *wz, \
    const int32_t *b, int8_t *o, int32_t oh, int32_t ow, int32_t om0, int32_t om1, int32_t om2, int16_t oc, int8_t of, int16_t oz, CP) { \
    const int relu = RELU; if (K) { kh = K; kw = K; } FIXS \
    mli_tensor ti = mkT(a, MLI_EL_SA_8, 3, U3(a)), tw = mkT(w, MLI_EL_SA_8, 4, kh, kw, WC, N, wm0, wm1, wm2, wm3), tb = mkT(b, MLI_EL_SA_32, 1, N, 0, 0, 0, 1, 0, 0, 0), to = mkT(o, MLI_EL_SA_8, 3, oh, ow, N, 0, om0, om1, om2, 0); \
    ti.el_params.sa.dim = -1; ti.el_params.sa.scale.mem.i16 = ac; ti.el_params.sa.scale_frac_bits.mem.i8 = af; ti.el_params.sa.zero_point.mem.i16 = az; \
    to.el_params.sa.dim = -1; to.el_params.sa.scale.mem.i16 = oc; to.el_params.sa.scale_frac_bits.mem.i8 = of; to.el_params.sa.zero_point.mem.i16 = oz; \
    tw.el_params.sa.dim = 3; tw.el_params.sa.scale.mem.pi16 = (int16_t *)wc; tw.el_params.sa.scale_frac_bits.mem.pi8 = (int8_t *)wf; tw.el_params.sa.zero_point.mem.pi16 = (int16_t *)wz; CFG \
    return mli_krn_##fn(&ti, &tw, &tb, &c, &to); }
#define ALLK(M, fn, WC, N, KS, K) \
ALLR(M##_FX, fn##_fx16##KS, WC, N, int16_t, MLI_EL_FX_16, int16_t, MLI_EL_FX_16, K) \
ALLR(M##_FX, fn##_fx16_fx8_fx8##KS, WC, N, int16_t, MLI_EL_FX_16, int8_t, MLI_EL_FX_8, K) \
ALLR(M##_SA, fn##_sa8_sa8_sa32##KS, WC, N, K)
