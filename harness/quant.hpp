// Independent statement of the accumulator output formulas.
#pragma once
#include "tensor.hpp"
static inline int64_t o_ratio(int64_t ic, int64_t ifr, int64_t oc, int64_t ofr, int64_t &rsh) {
    int t = 32 - 32 - o_norm(ic, 32); i128 n = ic * ((i128)1 << -t); int64_t u = (int64_t)(n / oc);
    int k = 16 - o_norm(u, 32); rsh = ifr - t - ofr - k; return (int64_t)o_cast(u, k, 32, 16);
}
static inline i128 o_sa_out(i128 acc, int64_t ratio, int64_t rsh, int64_t wc, int64_t wf, int64_t oz) {
#ifdef FULL_ACCU
    i128 t = o_cast(acc * (ratio * wc), std::min<int64_t>(rsh + wf, 63), 64, 16);
#else
    int64_t m = ratio * wc; int nm = o_norm(m, 32); m = (int64_t)o_asr_rnd((i128)(int32_t)((uint32_t)m << nm), 16, 32);
    int64_t sh = rsh + wf + nm - 16, pre = std::min<int64_t>(std::max<int64_t>(sh - 21, 0), 8);
    i128 a = clampw(o_asr_rnd(acc, pre, 32), 16);
    i128 t = o_cast(a * m, std::min<int64_t>(sh - pre, 63), 64, 16);
#endif
    return clampw(clampw(t + oz, 16), 8);
}
static inline i128 o_sa_bias(int64_t b) {
#ifdef FULL_ACCU
    return b;
#else
    int sh = std::max(16 - o_norm(b, 32), 0); return o_asl(b >> sh, sh, 32);
#endif
}
// limits of a fused ReLU (kind 0 none, 1 ReLU, 2 ReLU1, 3 ReLU6): largest representable value not above 1 or 6, in units of scale*2^-shift
static inline void o_relu(int kind, int w, int64_t zero, int64_t scale, int64_t shift, i128 &lo, i128 &hi) {
    lo = -((i128)1 << (w - 1)); hi = -lo - 1;
    if (!kind) return;
    if (kind == 1) { lo = std::max<i128>(lo, zero); return; }
    i128 c = kind == 3 ? 6 : 1, lim = shift >= 0 ? (c << std::min<int64_t>(shift, 60)) / scale : (c >> -shift) / scale;
    i128 full_hi = hi, full_lo = lo;
    lo = std::max<i128>(full_lo, kind == 3 ? (i128)zero : zero - lim); hi = std::min<i128>(full_hi, zero + lim);
}
struct SQ { int s, f, z; };
static inline SQ rnd_sq(Rng &r) { SQ q; q.s = (int)(r.chance(1, 2) ? r.in(1, 32767) : r.in(16384, 32767)); q.f = r.chance(3, 4) ? (int)r.in(12, 22) : (int)r.in(-4, 30); q.z = (int)(r.chance(1, 3) ? 0 : r.in(-128, 127)); return q; }
static inline void set_sq(mli_tensor &t, SQ q) { t.el_params.sa.scale.mem.i16 = q.s; t.el_params.sa.scale_frac_bits.mem.i8 = q.f; t.el_params.sa.zero_point.mem.i16 = q.z; t.el_params.sa.dim = -1; }
