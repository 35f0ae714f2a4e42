#include "vdrv.h"
#include "mli_helpers.cc"
// conversion between quantised formats: source A (element type AE, C type AT, quantised axis AX), destination O; rank RK
#ifndef AE
#define AE MLI_EL_SA_8
#define AT int8_t
#define AX -1
#define OE MLI_EL_FX_16
#define OT int16_t
#define OX -1
#define RK 4
#endif
#define QNT(t, q, e, X) if (e == MLI_EL_SA_8 || e == MLI_EL_SA_32) { t.el_params.sa.dim = X; \
    if (X < 0) { t.el_params.sa.scale.mem.i16 = q##c; t.el_params.sa.zero_point.mem.i16 = q##z; t.el_params.sa.scale_frac_bits.mem.i8 = q##f; } \
    else { t.el_params.sa.scale.mem.pi16 = (int16_t *)q##sc; t.el_params.sa.zero_point.mem.pi16 = (int16_t *)q##zp; t.el_params.sa.scale_frac_bits.mem.pi8 = (int8_t *)q##fb; } } else t.el_params.fx.frac_bits = q##f;
extern "C" int v_convert(const AT *a, DIMS(a), OT *o, int32_t om0, int32_t om1, int32_t om2, int32_t om3, int16_t ac, int16_t az, int8_t af, int16_t oc, int16_t oz, int8_t of,
        const int16_t *asc, const int16_t *azp, const int8_t *afb, const int16_t *osc, const int16_t *ozp, const int8_t *ofb) {
    mli_tensor s = mkT(a, AE, RK, USE(a)), d = mkT(o, OE, RK, as0, as1, as2, as3, om0, om1, om2, om3);
    QNT(s, a, AE, AX) QNT(d, o, OE, OX)
    return mli_hlp_convert_tensor(&s, &d);
}
