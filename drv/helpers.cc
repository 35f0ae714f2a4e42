#include "vdrv.h"
#include "mli_helpers.cc"
#ifndef HE
#define HE MLI_EL_SA_8
#define HT int8_t
#define HR 4
#define HX 3
#define HO 4
#define HC 1
#endif
#define SA (HE == MLI_EL_SA_8 || HE == MLI_EL_SA_32)
static void quant(mli_tensor &t, int16_t c, int16_t z, int8_t f, const int16_t *sc, const int16_t *zp, const int8_t *fb) {
    if (!SA) { t.el_params.fx.frac_bits = f; return; }
    t.el_params.sa.dim = HX;
    if (HX < 0) { t.el_params.sa.scale.mem.i16 = c; t.el_params.sa.zero_point.mem.i16 = z; t.el_params.sa.scale_frac_bits.mem.i8 = f; t.el_params.sa.scale.capacity = t.el_params.sa.zero_point.capacity = t.el_params.sa.scale_frac_bits.capacity = 0; }
    else { t.el_params.sa.scale.mem.pi16 = (int16_t *)sc; t.el_params.sa.zero_point.mem.pi16 = (int16_t *)zp; t.el_params.sa.scale_frac_bits.mem.pi8 = (int8_t *)fb; t.el_params.sa.scale.capacity = t.el_params.sa.zero_point.capacity = t.el_params.sa.scale_frac_bits.capacity = 0x7fffffff; }
}
// every field of the produced tensor, quantisation parameters relative to those of the input
static void report(const mli_tensor &o, const HT *a, const int16_t *sc, const int16_t *zp, const int8_t *fb, int64_t *q, bool ms) {
    q[0] = o.data.mem.pi8 - (int8_t *)a; q[1] = o.data.capacity; q[2] = o.rank; q[3] = o.el_type;
    for (int i = 0; i < 4; i++) { q[4 + i] = i < (int)o.rank ? o.shape[i] : 0; if (ms) q[8 + i] = i < (int)o.rank ? o.mem_stride[i] : 0; }
    if (HE == MLI_EL_FP_32) return;
    if (!SA) { q[12] = o.el_params.fx.frac_bits; return; }
    q[12] = o.el_params.sa.dim;
    if (HX < 0) { q[13] = o.el_params.sa.scale.mem.i16; q[14] = o.el_params.sa.zero_point.mem.i16; q[15] = o.el_params.sa.scale_frac_bits.mem.i8; }
#ifdef HDROP
    else { q[13] = o.el_params.sa.scale.mem.i16; q[14] = o.el_params.sa.zero_point.mem.i16; q[15] = o.el_params.sa.scale_frac_bits.mem.i8; q[16] = o.el_params.sa.scale.capacity; q[17] = o.el_params.sa.zero_point.capacity; q[18] = o.el_params.sa.scale_frac_bits.capacity; }
#else
    else { q[13] = (int8_t *)o.el_params.sa.scale.mem.pi16 - (int8_t *)sc; q[14] = (int8_t *)o.el_params.sa.zero_point.mem.pi16 - (int8_t *)zp; q[15] = o.el_params.sa.scale_frac_bits.mem.pi8 - (int8_t *)fb; }
#endif
}
// HO is the requested rank
extern "C" int v_subtensor(const HT *a, DIMS(a), uint32_t cap, int16_t c, int16_t z, int8_t f, const int16_t *sc, const int16_t *zp, const int8_t *fb,
        uint32_t of0, uint32_t of1, uint32_t of2, uint32_t of3, uint32_t sz0, uint32_t sz1, uint32_t sz2, uint32_t sz3, int64_t *q) {
    mli_tensor t = mkT(a, HE, HR, USE(a)), o; t.data.capacity = cap; quant(t, c, z, f, sc, zp, fb);
    mli_sub_tensor_cfg g; g.offset[0] = of0; g.offset[1] = of1; g.offset[2] = of2; g.offset[3] = of3; g.size[0] = sz0; g.size[1] = sz1; g.size[2] = sz2; g.size[3] = sz3; g.sub_tensor_rank = HO;
    int r = mli_hlp_create_subtensor(&t, &g, &o);
    report(o, a, sc, zp, fb, q, true);
    return r;
}
// HC coordinates
extern "C" int v_point(const HT *a, DIMS(a), int16_t c, int16_t z, int8_t f, const int16_t *sc, const int16_t *zp, const int8_t *fb,
        uint32_t of0, uint32_t of1, uint32_t of2, uint32_t of3, uint8_t n, int64_t *q) {
    mli_tensor t = mkT(a, HE, HR, USE(a)), o = mkT(nullptr, MLI_EL_FX_8, 0, 0, 0, 0, 0, 0, 0, 0, 0); quant(t, c, z, f, sc, zp, fb);
    mli_point_to_subtsr_cfg g; g.start_coord[0] = of0; g.start_coord[1] = of1; g.start_coord[2] = of2; g.start_coord[3] = of3; g.coord_num = HC; g.first_out_dim_size = n;
    int r = mli_hlp_point_to_subtensor(&t, &g, &o);
    report(o, a, sc, zp, fb, q, false);
    return r;
}
extern "C" uint32_t v_count(DIMS(a), uint32_t from) { mli_tensor t = mkT(nullptr, HE, HR, USE(a)); return mli_hlp_count_elem_num(&t, from); }
extern "C" uint32_t v_count_at(DIMS(a)) { mli_tensor t = mkT(nullptr, HE, HR, USE(a)); return mli_hlp_count_elem_num(&t, HC); }
extern "C" int v_strides(DIMS(a), int64_t *q) { mli_tensor t = mkT(nullptr, HE, HR, USE(a)); mli_hlp_set_tensor_mem_strides(&t); for (int i = 0; i < HR; i++) q[i] = t.mem_stride[i]; return 0; }
extern "C" int v_params(const HT *a, DIMS(a), int16_t c, int16_t z, int8_t f, const int16_t *sc, const int16_t *zp, const int8_t *fb, uint32_t i, int64_t *q) {
    mli_tensor t = mkT(a, HE, HR, USE(a)); quant(t, c, z, f, sc, zp, fb);
    q[0] = mli_hlp_tensor_scale(&t, i); q[1] = mli_hlp_tensor_scale_shift(&t, i); q[2] = mli_hlp_tensor_zero_offset(&t, i); q[3] = mli_hlp_tensor_element_size(&t); return 0;
}
