#include "vdrv.h"
#include "mli_krn_relu_fx.cc"
#include "mli_krn_leaky_relu_fx.cc"
#include "mli_krn_prelu.cc"
#include "mli_helpers.cc"
#define SAQ(t, i) t.el_params.sa.scale.mem.i16 = c##i; t.el_params.sa.scale_frac_bits.mem.i8 = f##i; t.el_params.sa.zero_point.mem.i16 = z##i; t.el_params.sa.dim = -1;
#define QP(i) int16_t c##i, int8_t f##i, int16_t z##i
#define OM int32_t om0, int32_t om1, int32_t om2, int32_t om3
#define IO(et, R) mli_tensor ti = mkT(a, et, R, USE(a)), to = mkT(o, et, R, as0, as1, as2, as3, om0, om1, om2, om3);
// ReLU: the output takes over the quantisation of the input; q = that quantisation as left in the output tensor
#define RELU_FX(sfx, et, T, R, K) \
extern "C" int v_relu_##sfx##_k##K##_r##R(const T *a, DIMS(a), int8_t fa, T *o, OM, int8_t *q) { \
    IO(et, R) ti.el_params.fx.frac_bits = fa; mli_relu_cfg c; c.type = (mli_relu_type)K; int s = mli_krn_relu_##sfx(&ti, &c, &to); q[0] = to.el_params.fx.frac_bits; return s; }
#define RELU_SA(R, K) \
extern "C" int v_relu_sa8_k##K##_r##R(const int8_t *a, DIMS(a), QP(1), int8_t *o, OM, int16_t *q) { \
    IO(MLI_EL_SA_8, R) SAQ(ti, 1) mli_relu_cfg c; c.type = (mli_relu_type)K; int s = mli_krn_relu_sa8(&ti, &c, &to); \
    q[0] = to.el_params.sa.scale.mem.i16; q[1] = to.el_params.sa.scale_frac_bits.mem.i8; q[2] = to.el_params.sa.zero_point.mem.i16; return s; }
#define LEAKY_FX(sfx, et, T, R) \
extern "C" int v_leaky_##sfx##_r##R(const T *a, DIMS(a), int8_t fa, T b, int8_t fb, T *o, OM, int8_t fo) { \
    IO(et, R) ti.el_params.fx.frac_bits = fa; to.el_params.fx.frac_bits = fo; mli_tensor ts; memset(&ts, 0, sizeof(ts)); ts.el_type = et; ts.el_params.fx.frac_bits = fb; \
    if (sizeof(T) == 1) ts.data.mem.i8 = b; else ts.data.mem.i16 = b; return mli_krn_leaky_relu_##sfx(&ti, &ts, &to); } \
extern "C" int v_preluall_##sfx##_r##R(const T *a, DIMS(a), int8_t fa, T b, int8_t fb, T *o, OM, int8_t fo) { \
    IO(et, R) ti.el_params.fx.frac_bits = fa; to.el_params.fx.frac_bits = fo; mli_tensor ts; memset(&ts, 0, sizeof(ts)); ts.el_type = et; ts.el_params.fx.frac_bits = fb; mli_prelu_cfg c; c.axis = -1; \
    if (sizeof(T) == 1) ts.data.mem.i8 = b; else ts.data.mem.i16 = b; return mli_krn_prelu_##sfx(&ti, &ts, &c, &to); }
#define LEAKY_SA(R) \
extern "C" int v_leaky_sa8_r##R(const int8_t *a, DIMS(a), QP(1), int8_t b, QP(2), int8_t *o, OM, QP(3)) { \
    IO(MLI_EL_SA_8, R) SAQ(ti, 1) SAQ(to, 3) mli_tensor ts; memset(&ts, 0, sizeof(ts)); ts.el_type = MLI_EL_SA_8; ts.data.mem.i8 = b; SAQ(ts, 2) return mli_krn_leaky_relu_sa8(&ti, &ts, &to); } \
extern "C" int v_preluall_sa8_r##R(const int8_t *a, DIMS(a), QP(1), int8_t b, QP(2), int8_t *o, OM, QP(3)) { \
    IO(MLI_EL_SA_8, R) SAQ(ti, 1) SAQ(to, 3) mli_tensor ts; memset(&ts, 0, sizeof(ts)); ts.el_type = MLI_EL_SA_8; ts.data.mem.i8 = b; SAQ(ts, 2) mli_prelu_cfg c; c.axis = -1; return mli_krn_prelu_sa8(&ti, &ts, &c, &to); }
// PReLU: one slope per index of dimension AX (slope tensor: all other dimensions 1)
#define SLOPE(et, R, AX) mli_tensor ts = mkT(b, et, R, (AX) == 0 ? as0 : 1, (AX) == 1 ? as1 : 1, (AX) == 2 ? as2 : 1, (AX) == 3 ? as3 : 1, 1, 1, 1, 1); mli_prelu_cfg c; c.axis = AX;
#define PRELU_FX(sfx, et, T, R, AX) \
extern "C" int v_prelu_##sfx##_a##AX##_r##R(const T *a, DIMS(a), int8_t fa, const T *b, int8_t fb, T *o, OM, int8_t fo) { \
    IO(et, R) ti.el_params.fx.frac_bits = fa; to.el_params.fx.frac_bits = fo; SLOPE(et, R, AX) ts.el_params.fx.frac_bits = fb; return mli_krn_prelu_##sfx(&ti, &ts, &c, &to); }
#define PRELU_SA(R, AX) \
extern "C" int v_prelu_sa8_a##AX##_r##R(const int8_t *a, DIMS(a), QP(1), const int8_t *b, QP(2), int8_t *o, OM, QP(3)) { \
    IO(MLI_EL_SA_8, R) SAQ(ti, 1) SAQ(to, 3) SLOPE(MLI_EL_SA_8, R, AX) SAQ(ts, 2) return mli_krn_prelu_sa8(&ti, &ts, &c, &to); }
#define RK(R, K) RELU_FX(fx8, MLI_EL_FX_8, int8_t, R, K) RELU_FX(fx16, MLI_EL_FX_16, int16_t, R, K) RELU_SA(R, K)
#define LK(R) LEAKY_FX(fx8, MLI_EL_FX_8, int8_t, R) LEAKY_FX(fx16, MLI_EL_FX_16, int16_t, R) LEAKY_SA(R)
#define PK(R, AX) PRELU_FX(fx8, MLI_EL_FX_8, int8_t, R, AX) PRELU_FX(fx16, MLI_EL_FX_16, int16_t, R, AX) PRELU_SA(R, AX)
#define RR(R) RK(R, 0) RK(R, 1) RK(R, 2) RK(R, 3) LK(R)
RR(1) RR(2) RR(3) RR(4)
PK(1, 0) PK(2, 0) PK(2, 1) PK(3, 0) PK(3, 1) PK(3, 2) PK(4, 0) PK(4, 1) PK(4, 2) PK(4, 3)
