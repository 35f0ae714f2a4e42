#include "vdrv.h"
#include "mli_krn_fully_connected.cc"
#include "mli_helpers.cc"
// input of rank R with contiguous layout, weights [in elements][n], bias [n], out [n]
#define IN(R, E) mli_tensor ti = R == 1 ? mkT(a, E, 1, as0, 0, 0, 0, 1, 0, 0, 0) : mkT(a, E, 4, as0, as1, as2, as3, as1 * as2 * as3, as2 * as3, as3, 1);
#define AP int32_t as0, int32_t as1, int32_t as2, int32_t as3
#define NIN(R) (R == 1 ? as0 : as0 * as1 * as2 * as3)
#define FX(sfx, R, iT, iE, wT, wE, RELU) \
extern "C" int v_fc_##sfx##_n##R##_r##RELU(const iT *a, AP, int8_t fa, const wT *w, int32_t n, int32_t wm0, int8_t fw, const wT *b, int8_t fb, iT *o, int8_t fo) { \
    IN(R, iE) mli_tensor tw = mkT(w, wE, 2, NIN(R), n, 0, 0, wm0, 1, 0, 0), tb = mkT(b, wE, 1, n, 0, 0, 0, 1, 0, 0, 0), to = mkT(o, iE, 1, n, 0, 0, 0, 1, 0, 0, 0); \
    ti.el_params.fx.frac_bits = fa; tw.el_params.fx.frac_bits = fw; tb.el_params.fx.frac_bits = fb; to.el_params.fx.frac_bits = fo; \
    mli_fully_connected_cfg c; c.relu.type = (mli_relu_type)RELU; return mli_krn_fully_connected_##sfx(&ti, &tw, &tb, &c, &to); }
// P: weights quantised per tensor (scale wc[0]), otherwise per output channel
#define SA(sfx, R, P, RELU) \
extern "C" int v_fc_##sfx##_n##R##_p##P##_r##RELU(const int8_t *a, AP, int16_t ac, int8_t af, int16_t az, const int8_t *w, int32_t n, int32_t wm0, const int16_t *wc, const int8_t *wf, const int16_t *wz, int16_t pc, int8_t pf, const int32_t *b, int8_t *o, int16_t oc, int8_t of, int16_t oz) { \
    IN(R, MLI_EL_SA_8) mli_tensor tw = mkT(w, MLI_EL_SA_8, 2, NIN(R), n, 0, 0, wm0, 1, 0, 0), tb = mkT(b, MLI_EL_SA_32, 1, n, 0, 0, 0, 1, 0, 0, 0), to = mkT(o, MLI_EL_SA_8, 1, n, 0, 0, 0, 1, 0, 0, 0); \
    ti.el_params.sa.dim = -1; ti.el_params.sa.scale.mem.i16 = ac; ti.el_params.sa.scale_frac_bits.mem.i8 = af; ti.el_params.sa.zero_point.mem.i16 = az; \
    to.el_params.sa.dim = -1; to.el_params.sa.scale.mem.i16 = oc; to.el_params.sa.scale_frac_bits.mem.i8 = of; to.el_params.sa.zero_point.mem.i16 = oz; \
    if (P) { tw.el_params.sa.dim = -1; tw.el_params.sa.scale.mem.i16 = pc; tw.el_params.sa.scale_frac_bits.mem.i8 = pf; tw.el_params.sa.zero_point.mem.i16 = 0; } \
    else { tw.el_params.sa.dim = 1; tw.el_params.sa.scale.mem.pi16 = (int16_t *)wc; tw.el_params.sa.scale_frac_bits.mem.pi8 = (int8_t *)wf; tw.el_params.sa.zero_point.mem.pi16 = (int16_t *)wz; } \
    mli_fully_connected_cfg c; c.relu.type = (mli_relu_type)RELU; return mli_krn_fully_connected_##sfx(&ti, &tw, &tb, &c, &to); }
#define ALLR(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2) M(__VA_ARGS__, 3)
#define ALL(R) ALLR(FX, fx8, R, int8_t, MLI_EL_FX_8, int8_t, MLI_EL_FX_8) ALLR(FX, fx16, R, int16_t, MLI_EL_FX_16, int16_t, MLI_EL_FX_16) ALLR(FX, fx16_fx8_fx8, R, int16_t, MLI_EL_FX_16, int8_t, MLI_EL_FX_8) \
    ALLR(SA, sa8_sa8_sa32, R, 0) ALLR(SA, sa8_sa8_sa32, R, 1) ALLR(SA, sa8_sa8_sa32_ext_bias, R, 0) ALLR(SA, sa8_sa8_sa32_ext_bias, R, 1)
ALL(1)
ALL(4)
