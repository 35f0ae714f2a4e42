#pragma once
#include "quant.hpp"
bool seed_line(const std::string &, std::string &) { return true; }
typedef mli_status (*ConvFn)(const mli_tensor *, const mli_tensor *, const mli_tensor *, const mli_conv2d_cfg *, mli_tensor *);
enum ConvKind { FULL, DW, GRP, TR };
struct CF { ConvFn f; const char *name; int k; };
// ty 0 fx16, 1 fx16_fx8_fx8, 2 sa8_sa8_sa32
static bool conv_case(Rng &r, std::string &d, ConvKind kind, const CF (*tab)[3], int ntab) {
    int ty = (int)r.in(0, 2); const CF &cf = tab[r.in(0, ntab - 1)][ty];
    int ies = ty == 2 ? 1 : 2, wes = ty == 0 ? 2 : 1, bes = ty == 2 ? 4 : wes;
    auto it = ty == 2 ? MLI_EL_SA_8 : MLI_EL_FX_16, wt = ty == 2 ? MLI_EL_SA_8 : ty == 0 ? MLI_EL_FX_16 : MLI_EL_FX_8;
    int K = cf.k; Tn a, w, b, o; mli_conv2d_cfg c; memset(&c, 0, sizeof c);
    int kh = K ? K : (int)r.in(1, 4), kw = K ? K : (int)r.in(1, 4);
    bool dil = r.chance(1, 3); int dh = dil ? (int)r.in(1, 4) : 1, dw = dil ? (int)r.in(1, 4) : 1, eh = (kh - 1) * dh + 1, ew = (kw - 1) * dw + 1;
    int sh = (int)r.in(1, 4), sw = (int)r.in(1, 4), pt = (int)r.in(0, eh - 1), pb = (int)r.in(0, eh - 1), pl = (int)r.in(0, ew - 1), pr = (int)r.in(0, ew - 1);
    if (r.chance(1, 4)) pt = pb = pl = pr = 0;
    int H = (int)r.in(1, 9), W = (int)r.in(1, 9);
    if (r.chance(1, 12)) {        // byte-sized parameters in the upper half of their range
        kh = kw = K ? K : (int)r.in(1, 2); dh = dw = 1; if (kw > 1 && r.chance(1, 2)) dw = (int)r.in(100, 255);
        eh = (kh - 1) * dh + 1; ew = (kw - 1) * dw + 1; sh = 1; sw = (int)r.in(100, 255); pt = (int)r.in(0, eh - 1); pb = (int)r.in(0, eh - 1);
        pl = (int)std::min<int64_t>(255, r.in(0, ew - 1)); pr = (int)std::min<int64_t>(255, r.in(0, ew - 1)); W = (int)r.in(1, 700); H = (int)r.in(1, 3);
    }
    if (kind == TR) {        // strides up to the kernel size; the output has exactly the transposed size
        int big = r.chance(1, 12) ? (int)r.in(1, 40) : 0; dh = dw = 1; kh = K ? K : (int)r.in(1, 5); kw = K ? K : big ? big : (int)r.in(1, 5); eh = kh; ew = kw; sh = K ? 2 : (int)r.in(1, kh); sw = K ? 2 : (int)r.in(1, kw);
        H = (int)r.in(1, 5); W = (int)r.in(1, 5); pt = (int)r.in(0, kh - 1); pb = (int)r.in(0, kh - 1); pl = (int)r.in(0, kw - 1); pr = (int)r.in(0, kw - 1); if (r.chance(1, 4)) pt = pb = pl = pr = 0;
        while ((H - 1) * sh + kh - pt - pb < 1) H++;
        while ((W - 1) * sw + kw - pl - pr < 1) W++;
    }
    while (kind != TR && H + pt + pb < eh) H++;
    while (kind != TR && W + pl + pr < ew) W++;
    int oh = (H + pt + pb - eh) / sh + 1, ow = (W + pl + pr - ew) / sw + 1;
    if (kind == TR) { oh = (H - 1) * sh + kh - pt - pb; ow = (W - 1) * sw + kw - pl - pr; }
    if (kind != TR && r.chance(1, 5)) oh = (int)r.in(1, oh);
    if (kind != TR && r.chance(1, 5)) ow = (int)r.in(1, ow);
    int G = kind == GRP ? (int)r.in(1, 3) : 1, wc = kind == DW ? 1 : (int)r.in(1, 4), C = kind == DW ? (int)r.in(1, 6) : G * wc, N = kind == DW ? C : kind == GRP ? G * (int)r.in(1, 3) : (int)r.in(1, 5);
    a.rank = 3; a.shape[0] = H; a.shape[1] = W; a.shape[2] = C; rnd_strides(r, a);
    w.rank = 4; w.shape[0] = kh; w.shape[1] = kw; w.shape[2] = wc; w.shape[3] = N; rnd_strides(r, w);
    b.rank = 1; b.shape[0] = N; b.st[0] = 1;
    o.rank = 3; o.shape[0] = oh; o.shape[1] = ow; o.shape[2] = N; rnd_strides(r, o);
    a.alloc(r, it, ies, 0); w.alloc(r, wt, wes, 0); b.alloc(r, ty == 2 ? MLI_EL_SA_32 : wt, bes, 0); o.alloc(r, it, ies, 8);
    int amp = (int)r.in(3, 8);
    if (r.chance(1, 3)) { a.fill(r, 8 * ies); w.fill(r, 8 * wes); } else { a.fillr(r, -(1 << (amp * ies - 1)), (1 << (amp * ies - 1)) - 1); w.fillr(r, -(1 << (amp * wes - 1)), (1 << (amp * wes - 1)) - 1); }
    if (ty == 2) b.fillr(r, -100000, 100000); else b.fill(r, 8 * bes);
    c.stride_height = sh; c.stride_width = sw; c.padding_top = pt; c.padding_bottom = pb; c.padding_left = pl; c.padding_right = pr; c.dilation_height = dh; c.dilation_width = dw;
    int relu = (int)r.in(0, 3); c.relu.type = relu == 0 ? MLI_RELU_NONE : relu == 1 ? MLI_RELU_GEN : relu == 2 ? MLI_RELU_1 : MLI_RELU_6;
    int fa = (int)r.in(-2, 17), fw = (int)r.in(-2, 8 * wes + 1), fb = (int)r.in(-2, 8 * wes + 1), fo = r.chance(3, 4) ? fa + fw - (int)r.in(0, 8 * wes + 4) : (int)r.in(-4, 20);
    SQ qi = rnd_sq(r), qo = rnd_sq(r); std::vector<int16_t> ws(N), wz(N, 0); std::vector<int8_t> wf(N);
    for (int i = 0; i < N; i++) { SQ q = rnd_sq(r); ws[i] = q.s; wf[i] = q.f; }
    if (ty == 2) { set_sq(a.t, qi); set_sq(o.t, qo); w.t.el_params.sa.dim = 3; w.t.el_params.sa.scale.mem.pi16 = ws.data(); w.t.el_params.sa.scale_frac_bits.mem.pi8 = wf.data(); w.t.el_params.sa.zero_point.mem.pi16 = wz.data();
        w.t.el_params.sa.scale.capacity = 2 * N; w.t.el_params.sa.scale_frac_bits.capacity = N; w.t.el_params.sa.zero_point.capacity = 2 * N; }
    else { a.t.el_params.fx.frac_bits = fa; w.t.el_params.fx.frac_bits = fw; b.t.el_params.fx.frac_bits = fb; o.t.el_params.fx.frac_bits = fo; }
    a.snap(); w.snap(); b.snap(); o.snap();
    d = fmt("%s in %s weights %s out %s stride %dx%d pad t%d b%d l%d r%d dilation %dx%d relu %d frac in %d w %d bias %d out %d; SA in (%d,%d,%d) out (%d,%d,%d) w[0] (%d,%d)\nin %s\nweights %s\nbias %s", cf.name, a.str().c_str(), w.str().c_str(), o.str().c_str(),
        sh, sw, pt, pb, pl, pr, dh, dw, relu, fa, fw, fb, fo, qi.s, qi.f, qi.z, qo.s, qo.f, qo.z, ws[0], wf[0], a.vals().c_str(), w.vals().c_str(), b.vals().c_str());
    CALL(cf.f(&a.t, &w.t, &b.t, &c, &o.t));
    i128 lo, hi; if (ty == 2) o_relu(relu, 8, qo.z, qo.s, qo.f, lo, hi); else o_relu(relu, 16, 0, 1, fo, lo, hi);
    return o.expect([&](const int *i) {
        i128 acc = 0; int n = i[2], cb = kind == DW ? n : kind == GRP ? wc * (n / (N / G)) : 0;
        for (int y = 0; y < kh; y++) for (int x = 0; x < kw; x++) { int iy = i[0] * sh - pt + y * dh, ix = i[1] * sw - pl + x * dw; if (kind == TR) { iy = i[0] + pt - y; ix = i[1] + pl - x; if (iy < 0 || ix < 0 || iy % sh || ix % sw) continue; iy /= sh; ix /= sw; } if (iy < 0 || ix < 0 || iy >= H || ix >= W) continue;
            for (int k = 0; k < wc; k++) acc += ((i128)a.get(iy, ix, cb + k) - (ty == 2 ? qi.z : 0)) * w.get(y, x, k, n); }
        i128 v;
        if (ty == 2) { int64_t rs, ra = o_ratio(qi.s, qi.f, qo.s, qo.f, rs); v = o_sa_out(clampw(acc + o_sa_bias(b.get(n)), 32), ra, rs, ws[n], wf[n], qo.z); }
        else { int aw = ty == 0 ? 64 : 32; v = o_cast(clampw(acc + o_asr_rnd(b.get(n), fb - fa - fw, aw), aw), fa + fw - fo, aw, 16); }
        return std::max(std::min(v, hi), lo); }, d, "out") && frozen({&a, &w, &b}, d);
}
static struct Boost { Boost() { for (auto &f : fams()) f.weight = 100; } } boost;
int main(int c, char **v) { return h_main(c, v); }
