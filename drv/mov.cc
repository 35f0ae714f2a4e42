#include "vdrv.h"
#include "mli_mov_api.cc"
#include "mli_helpers.cc"
// data movement of a rank-R tensor with the dimensions permuted as given; sizes 0 stand for "the rest of the dimension"
// S: 0 = no sizes given, 1 = sizes given; P: 0 = no padding, 1 = padding; D: destination strides 0 = dense, 1 = given in the destination tensor, 2 = given in the configuration
#define Q(p) uint32_t p##0, uint32_t p##1, uint32_t p##2, uint32_t p##3
#define B(p) uint8_t p##0, uint8_t p##1, uint8_t p##2, uint8_t p##3
#define SET(f, p) c.f[0] = p##0; c.f[1] = p##1; c.f[2] = p##2; c.f[3] = p##3;
#define MOV(nm, et, T, R, p0, p1, p2, p3, S, P, D) \
extern "C" int v_mov_##nm##_n##R##_##p0##p1##p2##p3##_s##S##_p##P##_d##D(const T *a, DIMS(a), int8_t fa, Q(of), Q(sz), Q(ss), Q(dof), B(pb), B(pe), T *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, uint32_t *q) { \
    mli_tensor t1 = mkT(a, et, R, USE(a)), t2 = mkT(o, et, R, 0, 0, 0, 0, D == 1 ? om0 : 0, D == 1 ? om1 : 0, D == 1 ? om2 : 0, D == 1 ? om3 : 0); \
    mli_mov_cfg_t c; memset(&c, 0, sizeof c); SET(offset, of) SET(sub_sample_step, ss) SET(dst_offset, dof) \
    if (S) { SET(size, sz) } if (P) { SET(padding_pre, pb) SET(padding_post, pe) } if (D == 2) { SET(dst_mem_stride, om) } \
    c.perm_dim[0] = p0; c.perm_dim[1] = p1; c.perm_dim[2] = p2; c.perm_dim[3] = p3; \
    if (et == MLI_EL_SA_8 || et == MLI_EL_SA_32) { t1.el_params.sa.dim = -1; t1.el_params.sa.scale.mem.i16 = fa; } else t1.el_params.fx.frac_bits = fa; \
    mli_mov_handle_t h; h.state = MLI_MOV_STATE_OPEN; h.dma_ch = 0; h.num_ch = 0; \
    int r = mli_mov_prepare(&h, &t1, &c, &t2); \
    for (int i = 0; i < R; i++) { q[i] = t2.shape[i]; q[4 + i] = t2.mem_stride[i]; } q[8] = t2.rank; q[9] = t2.el_type; q[10] = et == MLI_EL_SA_8 || et == MLI_EL_SA_32 ? (t2.el_params.sa.dim == -1 ? t2.el_params.sa.scale.mem.i16 : 9999) : t2.el_params.fx.frac_bits; return r; }
#define VAR(...) MOV(__VA_ARGS__, 0, 0, 0) MOV(__VA_ARGS__, 0, 0, 1) MOV(__VA_ARGS__, 0, 0, 2) MOV(__VA_ARGS__, 0, 1, 0) MOV(__VA_ARGS__, 0, 1, 1) MOV(__VA_ARGS__, 0, 1, 2) MOV(__VA_ARGS__, 1, 0, 0) MOV(__VA_ARGS__, 1, 0, 1) MOV(__VA_ARGS__, 1, 0, 2) MOV(__VA_ARGS__, 1, 1, 0) MOV(__VA_ARGS__, 1, 1, 1) MOV(__VA_ARGS__, 1, 1, 2)
#ifndef ENT
#define ENT fx16, MLI_EL_FX_16, int16_t, 2, 1, 0, 2, 3
#endif
VAR(ENT)
// per-axis quantisation along dimension X of the source: the destination has its own parameter buffers (N = 1) or none (N = 0)
#ifdef QENT
#define MOVQ(R, p0, p1, p2, p3, X, N) \
extern "C" int v_movq_n##R##_##p0##p1##p2##p3##_x##X##_b##N(const int8_t *a, DIMS(a), Q(of), Q(sz), Q(ss), Q(dof), B(pb), B(pe), int8_t *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, \
        const int16_t *sc, const int16_t *zp, const int8_t *fb, int16_t *dsc, int16_t *dzp, int8_t *dfb, int32_t *q) { \
    mli_tensor t1 = mkT(a, MLI_EL_SA_8, R, USE(a)), t2 = mkT(o, MLI_EL_SA_8, R, 0, 0, 0, 0, om0, om1, om2, om3); \
    mli_mov_cfg_t c; memset(&c, 0, sizeof c); SET(offset, of) SET(sub_sample_step, ss) SET(dst_offset, dof) SET(size, sz) SET(padding_pre, pb) SET(padding_post, pe) \
    c.perm_dim[0] = p0; c.perm_dim[1] = p1; c.perm_dim[2] = p2; c.perm_dim[3] = p3; \
    t1.el_params.sa.dim = X; t1.el_params.sa.scale.mem.pi16 = (int16_t *)sc; t1.el_params.sa.zero_point.mem.pi16 = (int16_t *)zp; t1.el_params.sa.scale_frac_bits.mem.pi8 = (int8_t *)fb; \
    t2.el_params.sa.dim = -1; t2.el_params.sa.scale.mem.pi16 = N ? dsc : nullptr; t2.el_params.sa.zero_point.mem.pi16 = N ? dzp : nullptr; t2.el_params.sa.scale_frac_bits.mem.pi8 = N ? dfb : nullptr; \
    mli_mov_handle_t h; h.state = MLI_MOV_STATE_OPEN; h.dma_ch = 0; h.num_ch = 0; \
    int r = mli_mov_prepare(&h, &t1, &c, &t2); \
    q[0] = t2.el_params.sa.dim; q[1] = t2.el_params.sa.scale.mem.pi16 == (N ? dsc : sc); q[2] = t2.el_params.sa.zero_point.mem.pi16 == (N ? dzp : zp); q[3] = t2.el_params.sa.scale_frac_bits.mem.pi8 == (N ? dfb : fb); return r; }
#define VARQ(...) MOVQ(__VA_ARGS__, 0) MOVQ(__VA_ARGS__, 1)
VARQ(QENT)
#endif
