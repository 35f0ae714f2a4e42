#include "tensor.hpp"
#include "quant.hpp"
bool seed_line(const std::string &, std::string &) { return true; }
// 1/n with 15 significant bits
static void recip(int n, int &m, int &s) { s = 14; while (n > 1 && (((int64_t)1 << s) / n) < 16384) s++; m = (int)(((int64_t)1 << s) / n); }
FAMILY(pool) {
    bool ave = r.chance(1, 2); int ty = (int)r.in(0, 2), w = ty == 1 ? 16 : 8, es = w / 8;
    auto et = ty == 0 ? MLI_EL_FX_8 : ty == 1 ? MLI_EL_FX_16 : MLI_EL_SA_8;
    int fix = r.chance(1, 3) ? (int)r.in(2, 3) : 0, kh = fix ? fix : (int)r.in(1, r.chance(1, 6) ? 12 : 6), kw = fix ? fix : (int)r.in(1, r.chance(1, 6) ? 12 : 6);
    int sh = (int)r.in(1, r.chance(1, 2) ? 2 : 7), sw = (int)r.in(1, r.chance(1, 2) ? 2 : 7), pt = (int)r.in(0, kh - 1), pb = (int)r.in(0, kh - 1), pl = (int)r.in(0, kw - 1), pr = (int)r.in(0, kw - 1);
    if (r.chance(1, 4)) pt = pb = pl = pr = 0;
    int H = (int)r.in(1, 9), W = (int)r.in(1, 9), C = (int)r.in(1, 3);
    if (H + pt + pb < kh) H = kh - pt - pb; if (W + pl + pr < kw) W = kw - pl - pr;
    int oh = (H + pt + pb - kh) / sh + 1, ow = (W + pl + pr - kw) / sw + 1;
    if (r.chance(1, 4)) oh = (int)r.in(1, oh); if (r.chance(1, 4)) ow = (int)r.in(1, ow);
    Tn a, o; a.rank = o.rank = 3; a.shape[0] = H; a.shape[1] = W; a.shape[2] = C; o.shape[0] = oh; o.shape[1] = ow; o.shape[2] = C;
    rnd_strides(r, a); rnd_strides(r, o); a.alloc(r, et, es, 0); o.alloc(r, et, es, 64); a.fill(r, w);
    SQ qi = rnd_sq(r), qo = rnd_sq(r); int fa = (int)r.in(-2, w + 2), fo = r.chance(1, 2) ? fa : (int)r.in(-2, w + 2);
    if (r.chance(1, 2)) { qo = qi; qo.z = (int)r.in(-128, 127); if (r.chance(1, 2)) qo.f = qi.f + (int)r.in(-3, 3); }
    if (ty == 2) { set_sq(a.t, qi); set_sq(o.t, qo); } else { a.t.el_params.fx.frac_bits = fa; o.t.el_params.fx.frac_bits = fo; }
    a.snap(); o.snap();
    mli_pool_cfg c; c.kernel_height = kh; c.kernel_width = kw; c.stride_height = sh; c.stride_width = sw; c.padding_top = pt; c.padding_bottom = pb; c.padding_left = pl; c.padding_right = pr;
    d = fmt("mli_krn_%spool_hwc_%s%s in %s out %s kernel %dx%d stride %dx%d pad top %d left %d bottom %d right %d  frac %d->%d  scale %d/%d zero %d -> %d/%d zero %d\nin %s", ave ? "ave" : "max", ty == 0 ? "fx8" : ty == 1 ? "fx16" : "sa8", fix ? fix == 2 ? "_k2x2" : "_k3x3" : "",
        a.str().c_str(), o.str().c_str(), kh, kw, sh, sw, pt, pl, pb, pr, fa, fo, qi.s, qi.f, qi.z, qo.s, qo.f, qo.z, a.vals(120).c_str());
    typedef mli_status (*F)(const mli_tensor *, const mli_pool_cfg *, mli_tensor *);
    static const F T[2][3][3] = {{{mli_krn_maxpool_hwc_fx8, mli_krn_maxpool_hwc_fx8_k2x2, mli_krn_maxpool_hwc_fx8_k3x3}, {mli_krn_maxpool_hwc_fx16, mli_krn_maxpool_hwc_fx16_k2x2, mli_krn_maxpool_hwc_fx16_k3x3}, {mli_krn_maxpool_hwc_sa8, mli_krn_maxpool_hwc_sa8_k2x2, mli_krn_maxpool_hwc_sa8_k3x3}},
        {{mli_krn_avepool_hwc_fx8, mli_krn_avepool_hwc_fx8_k2x2, mli_krn_avepool_hwc_fx8_k3x3}, {mli_krn_avepool_hwc_fx16, mli_krn_avepool_hwc_fx16_k2x2, mli_krn_avepool_hwc_fx16_k3x3}, {mli_krn_avepool_hwc_sa8, mli_krn_avepool_hwc_sa8_k2x2, mli_krn_avepool_hwc_sa8_k3x3}}};
    CALL(T[ave][ty][fix ? fix - 1 : 0](&a.t, &c, &o.t));
    if (!ave) {
        bool same = ty == 2 ? o.t.el_params.sa.scale.mem.i16 == qi.s && o.t.el_params.sa.scale_frac_bits.mem.i8 == qi.f && o.t.el_params.sa.zero_point.mem.i16 == qi.z : o.t.el_params.fx.frac_bits == fa;
        if (!same) { d += "\nthe output tensor does not carry the quantisation of the input"; return false; }
    }
    int64_t sc = 1, off = 0; int sh0 = fa - fo;
    if (ty == 2) {
        int pre = o_norm(qi.s, 32) - o_norm(qo.s, 16); int64_t q = ((int64_t)qi.s << pre) / qo.s; int t = 16 - o_norm(q, 32);
        sc = (int64_t)o_cast(q, t, 32, 16); sh0 = pre + qi.f - qo.f - t; off = (int64_t)clampw(qo.z - o_cast(sc * qi.z, sh0, 32, 16), 16);
    }
    return o.expect([&](const int *i) -> i128 {
        // the window of this output position, clipped to the input; input beyond the last window does not exist
        i128 best = -((i128)1 << 40), sum = 0; int n = 0;
        for (int y = 0; y < kh; y++) for (int x = 0; x < kw; x++) {
            int iy = i[0] * sh - pt + y, ix = i[1] * sw - pl + x; if (iy < 0 || iy >= H || ix < 0 || ix >= W) continue;
            i128 v = a.get(iy, ix, i[2]); best = std::max(best, v); sum += v; n++;
        }
        if (!ave) return best;
        int m, s; recip(n, m, s); int64_t mul = m; int S = sh0 + s;
        if (ty == 2) {
#ifdef AVEPOOL_16BIT_MUL
            int wo = 16;
#else
            int wo = 8;
#endif
            int64_t p = sc * m; int t = 32 - wo - o_norm(p, 32); mul = (int64_t)o_cast(p, t, 32, wo); S -= t;
        }
        int aw = ty == 1 ? 64 : 32;
        i128 acc = sum * mul + (S >= 0 ? o_asl(off, S, aw) : off >> std::min(-S, 40));
        if (clampw(acc, aw) != acc) return o.get(i);      // accumulator overflow: not specified
        return clampw(o_asr_rnd(acc, S, aw), w); }, d, "out") && frozen({&a}, d);
}
static struct Boost { Boost() { fams()[0].weight = 200; } } boost;
int main(int c, char **v) { return h_main(c, v); }
