#include "vdrv.h"
#include "mli_krn_eltwise_add_fx.cc"
#include "mli_krn_eltwise_sub_fx.cc"
#include "mli_krn_eltwise_mul_fx.cc"
#include "mli_krn_eltwise_min_fx.cc"
#include "mli_krn_eltwise_max_fx.cc"
// FX operands: vv = tensor,tensor  sv = rank-0 scalar,tensor  vs = tensor,rank-0 scalar  ss  (scalar operands by value)
#define FXT(i, et) t##i.el_params.fx.frac_bits = f##i;
#define SC(t, et, T, v) mli_tensor t; memset(&t, 0, sizeof(t)); t.rank = 0; t.el_type = et; if (sizeof(T) == 1) t.data.mem.i8 = v; else t.data.mem.i16 = v;
#define ENT(op, sfx, et, T, R) \
extern "C" int v_##op##_##sfx##_vv##R(const T *a, DIMS(a), int8_t f1, const T *b, int32_t bm0, int32_t bm1, int32_t bm2, int32_t bm3, int8_t f2, T *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, int8_t f3) { \
    mli_tensor t1 = mkT(a, et, R, USE(a)), t2 = mkT(b, et, R, as0, as1, as2, as3, bm0, bm1, bm2, bm3), t3 = mkT(o, et, R, as0, as1, as2, as3, om0, om1, om2, om3); \
    FXT(1, et) FXT(2, et) FXT(3, et) return mli_krn_eltwise_##op##_##sfx(&t1, &t2, &t3); } \
extern "C" int v_##op##_##sfx##_sv##R(T a, int8_t f1, const T *b, DIMS(b), int8_t f2, T *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, int8_t f3) { \
    SC(t1, et, T, a) mli_tensor t2 = mkT(b, et, R, USE(b)), t3 = mkT(o, et, R, bs0, bs1, bs2, bs3, om0, om1, om2, om3); \
    FXT(1, et) FXT(2, et) FXT(3, et) return mli_krn_eltwise_##op##_##sfx(&t1, &t2, &t3); } \
extern "C" int v_##op##_##sfx##_vs##R(const T *a, DIMS(a), int8_t f1, T b, int8_t f2, T *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, int8_t f3) { \
    SC(t2, et, T, b) mli_tensor t1 = mkT(a, et, R, USE(a)), t3 = mkT(o, et, R, as0, as1, as2, as3, om0, om1, om2, om3); \
    FXT(1, et) FXT(2, et) FXT(3, et) return mli_krn_eltwise_##op##_##sfx(&t1, &t2, &t3); }
#define RANKS(op, sfx, et, T) ENT(op, sfx, et, T, 1) ENT(op, sfx, et, T, 2) ENT(op, sfx, et, T, 3) ENT(op, sfx, et, T, 4)
#define TYPES(op) RANKS(op, fx8, MLI_EL_FX_8, int8_t) RANKS(op, fx16, MLI_EL_FX_16, int16_t)
TYPES(add) TYPES(sub) TYPES(mul) TYPES(min) TYPES(max)
// ---- SA8: per-tensor scale s, scale fractional bits f, zero point z
#define SAT(i) t##i.el_params.sa.scale.mem.i16 = c##i; t##i.el_params.sa.scale_frac_bits.mem.i8 = f##i; t##i.el_params.sa.zero_point.mem.i16 = z##i; t##i.el_params.sa.dim = -1;
#define QP(i) int16_t c##i, int8_t f##i, int16_t z##i
#define ENTS(op, R) \
extern "C" int v_##op##_sa8_vv##R(const int8_t *a, DIMS(a), QP(1), const int8_t *b, int32_t bm0, int32_t bm1, int32_t bm2, int32_t bm3, QP(2), int8_t *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, QP(3)) { \
    mli_tensor t1 = mkT(a, MLI_EL_SA_8, R, USE(a)), t2 = mkT(b, MLI_EL_SA_8, R, as0, as1, as2, as3, bm0, bm1, bm2, bm3), t3 = mkT(o, MLI_EL_SA_8, R, as0, as1, as2, as3, om0, om1, om2, om3); \
    SAT(1) SAT(2) SAT(3) return mli_krn_eltwise_##op##_sa8(&t1, &t2, &t3); } \
extern "C" int v_##op##_sa8_sv##R(int8_t a, QP(1), const int8_t *b, DIMS(b), QP(2), int8_t *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, QP(3)) { \
    SC(t1, MLI_EL_SA_8, int8_t, a) mli_tensor t2 = mkT(b, MLI_EL_SA_8, R, USE(b)), t3 = mkT(o, MLI_EL_SA_8, R, bs0, bs1, bs2, bs3, om0, om1, om2, om3); \
    SAT(1) SAT(2) SAT(3) return mli_krn_eltwise_##op##_sa8(&t1, &t2, &t3); } \
extern "C" int v_##op##_sa8_vs##R(const int8_t *a, DIMS(a), QP(1), int8_t b, QP(2), int8_t *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, QP(3)) { \
    SC(t2, MLI_EL_SA_8, int8_t, b) mli_tensor t1 = mkT(a, MLI_EL_SA_8, R, USE(a)), t3 = mkT(o, MLI_EL_SA_8, R, as0, as1, as2, as3, om0, om1, om2, om3); \
    SAT(1) SAT(2) SAT(3) return mli_krn_eltwise_##op##_sa8(&t1, &t2, &t3); }
#define RANKSS(op) ENTS(op, 1) ENTS(op, 2) ENTS(op, 3) ENTS(op, 4)
RANKSS(add) RANKSS(sub) RANKSS(mul) RANKSS(min) RANKSS(max)
