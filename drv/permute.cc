#include "vdrv.h"
#include "mli_krn_permute.h"
#include "mli_krn_permute_fx.cc"
// PT = type name, element type, C type, rank, permutation
#define PERM(nm, et, T, R, p0, p1, p2, p3) \
extern "C" int v_perm_##nm##_n##R##_##p0##p1##p2##p3(const T *a, DIMS(a), int8_t fa, T *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, int32_t *q) { \
    const uint32_t sh[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3}; \
    mli_tensor t1 = mkT(a, et, R, USE(a)), t2 = mkT(o, et, R, sh[p0], sh[p1], sh[p2], sh[p3], om0, om1, om2, om3); \
    mli_permute_cfg c; c.perm_dim[0] = p0; c.perm_dim[1] = p1; c.perm_dim[2] = p2; c.perm_dim[3] = p3; \
    t1.el_params.fx.frac_bits = fa; int r = mli_krn_permute_##nm(&t1, &c, &t2); q[0] = t2.el_params.fx.frac_bits; return r; }
#define PERMQ(R, p0, p1, p2, p3, X, N) \
extern "C" int v_permq_n##R##_##p0##p1##p2##p3##_x##X##_b##N(const int8_t *a, DIMS(a), int16_t s, int16_t z, int8_t f, int8_t *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, \
        const int16_t *sc, const int16_t *zp, const int8_t *fb, int16_t *dsc, int16_t *dzp, int8_t *dfb, int32_t *q) { \
    const uint32_t sh[4] = {(uint32_t)as0, (uint32_t)as1, (uint32_t)as2, (uint32_t)as3}; const int x = X == 9 ? -1 : X; \
    mli_tensor t1 = mkT(a, MLI_EL_SA_8, R, USE(a)), t2 = mkT(o, MLI_EL_SA_8, R, sh[p0], sh[p1], sh[p2], sh[p3], om0, om1, om2, om3); \
    mli_permute_cfg c; c.perm_dim[0] = p0; c.perm_dim[1] = p1; c.perm_dim[2] = p2; c.perm_dim[3] = p3; \
    t1.el_params.sa.dim = x; t2.el_params.sa.dim = 7; \
    if (x < 0) { t1.el_params.sa.scale.mem.i16 = s; t1.el_params.sa.zero_point.mem.i16 = z; t1.el_params.sa.scale_frac_bits.mem.i8 = f; } \
    else { t1.el_params.sa.scale.mem.pi16 = (int16_t *)sc; t1.el_params.sa.zero_point.mem.pi16 = (int16_t *)zp; t1.el_params.sa.scale_frac_bits.mem.pi8 = (int8_t *)fb; \
        t2.el_params.sa.scale.mem.pi16 = N ? dsc : nullptr; t2.el_params.sa.zero_point.mem.pi16 = N ? dzp : nullptr; t2.el_params.sa.scale_frac_bits.mem.pi8 = N ? dfb : nullptr; } \
    int r = mli_krn_permute_sa8(&t1, &c, &t2); q[0] = t2.el_params.sa.dim; \
    if (x < 0) { q[1] = t2.el_params.sa.scale.mem.i16; q[2] = t2.el_params.sa.zero_point.mem.i16; q[3] = t2.el_params.sa.scale_frac_bits.mem.i8; } \
    else { q[1] = t2.el_params.sa.scale.mem.pi16 == (N ? dsc : sc); q[2] = t2.el_params.sa.zero_point.mem.pi16 == (N ? dzp : zp); q[3] = t2.el_params.sa.scale_frac_bits.mem.pi8 == (N ? dfb : fb); } return r; }
#ifdef PENT
#define VARPP(...) PERM(__VA_ARGS__)
VARPP(PENT)
#endif
#ifdef PQENT
#define VARPQ(...) PERMQ(__VA_ARGS__, 0) PERMQ(__VA_ARGS__, 1)
VARPQ(PQENT)
#endif
