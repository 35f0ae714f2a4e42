#include "vdrv.h"
#include "mli_krn_maxpool_hwc_fx8.cc"
#include "mli_krn_maxpool_hwc_fx16.cc"
#include "mli_krn_maxpool_hwc_sa8.cc"
#include "mli_krn_avepool_hwc_fx8.cc"
#include "mli_krn_avepool_hwc_fx16.cc"
#include "mli_krn_avepool_hwc_sa8.cc"
#include "mli_helpers.cc"
#define D3(p) int32_t p##s0, int32_t p##s1, int32_t p##s2, int32_t p##m0, int32_t p##m1, int32_t p##m2
#define CFG(K) mli_pool_cfg c; c.kernel_height = K ? K : kh; c.kernel_width = K ? K : kw; c.stride_width = sw; c.stride_height = sh; c.padding_left = pl; c.padding_right = pr; c.padding_top = pt; c.padding_bottom = pb;
#define CP int32_t kh, int32_t kw, int32_t sh, int32_t sw, int32_t pt, int32_t pl, int32_t pb, int32_t pr
// in HWC -> out HWC; q = quantisation left in the output tensor
#define T2(et) mli_tensor ti = mkT(a, et, 3, as0, as1, as2, 0, am0, am1, am2, 0), to = mkT(o, et, 3, oh, ow, as2, 0, om0, om1, om2, 0);
#define FX(fn, sfx, et, T, K, KS) \
extern "C" int v_##fn##_##sfx##_k##K(const T *a, D3(a), int8_t fa, T *o, int32_t oh, int32_t ow, int32_t om0, int32_t om1, int32_t om2, int8_t fo, int8_t *q, CP) { \
    T2(et) ti.el_params.fx.frac_bits = fa; to.el_params.fx.frac_bits = fo; CFG(K) int s = mli_krn_##fn##_hwc_##sfx##KS(&ti, &c, &to); q[0] = to.el_params.fx.frac_bits; return s; }
#define SAQ(t, i) t.el_params.sa.scale.mem.i16 = c##i; t.el_params.sa.scale_frac_bits.mem.i8 = f##i; t.el_params.sa.zero_point.mem.i16 = z##i; t.el_params.sa.dim = -1;
#define QP(i) int16_t c##i, int8_t f##i, int16_t z##i
#define SA(fn, K, KS) \
extern "C" int v_##fn##_sa8_k##K(const int8_t *a, D3(a), QP(1), int8_t *o, int32_t oh, int32_t ow, int32_t om0, int32_t om1, int32_t om2, QP(2), int16_t *q, CP) { \
    T2(MLI_EL_SA_8) SAQ(ti, 1) SAQ(to, 2) CFG(K) int s = mli_krn_##fn##_hwc_sa8##KS(&ti, &c, &to); \
    q[0] = to.el_params.sa.scale.mem.i16; q[1] = to.el_params.sa.scale_frac_bits.mem.i8; q[2] = to.el_params.sa.zero_point.mem.i16; return s; }
#define ALL(fn, K, KS) FX(fn, fx8, MLI_EL_FX_8, int8_t, K, KS) FX(fn, fx16, MLI_EL_FX_16, int16_t, K, KS) SA(fn, K, KS)
#define ALLK(fn) ALL(fn, 0,) ALL(fn, 2, _k2x2) ALL(fn, 3, _k3x3)
ALLK(maxpool)
ALLK(avepool)
extern "C" void v_recip(uint32_t div, int16_t *m, int32_t *s) { mli::krn::get_mul_shift_value(div, m, s); }
