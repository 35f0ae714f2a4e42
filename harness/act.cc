#include "tensor.hpp"
#include "quant.hpp"
bool seed_line(const std::string &, std::string &) { return true; }
static i128 leaky_fx(int w, i128 a, i128 s, int sh, bool wide) {
    if (wide) { int n = o_norm(s, 16); s = s * ((i128)1 << n); sh += n; }
    return clampw(std::max<i128>(a, 0) + o_cast(std::min<i128>(a, 0) * s, std::min(sh, 31), 32, w), w);
}
static i128 leaky_sa(i128 a, i128 slope, SQ i, SQ s, SQ o) {
    int pre = o_norm(i.s, 32) - o_norm(o.s, 16); int64_t q = ((int64_t)i.s << pre) / o.s;
    int t = 16 - o_norm(q, 32); i128 id = o_cast(q, t, 32, 16); int sh = pre + i.f - o.f - t;
    id = o_asl(id, std::max(-sh, 0), 16); sh = std::max(sh, 0);
    i128 x = clampw(a - i.z, 16), r;
    if (a >= i.z) r = o_asr_rnd(id * x, sh, 32);
    else {
        i128 p = (slope - s.z) * s.s; int t1 = 16 - o_norm(p, 32); i128 al = o_cast(p, t1, 32, 16);
        p = id * al; int t2 = 16 - o_norm(p, 32); i128 m = o_cast(p, t2, 32, 16);
        r = o_asr_rnd(m * x, sh + s.f - t1 - t2, 32);
    }
    return clampw(clampw(r + o.z, 32), 8);
}
FAMILY(act) {
    int kind = (int)r.in(0, 3), ty = (int)r.in(0, 2), w = ty == 1 ? 16 : 8, es = w / 8;     // relu, leaky, prelu axis -1, prelu
    auto et = ty == 0 ? MLI_EL_FX_8 : ty == 1 ? MLI_EL_FX_16 : MLI_EL_SA_8;
    Tn a, o, s; int rank = (int)r.in(1, 4);
    rnd_shape(r, o, rank, rank > 2 ? 4 : 9); rnd_strides(r, o); same_shape(a, o); rnd_strides(r, a);
    a.alloc(r, et, es, 0); o.alloc(r, et, es, 8); a.fill(r, w);
    SQ qi = rnd_sq(r), qo = rnd_sq(r), qs = rnd_sq(r); mli_status st; int ax = kind == 3 ? (int)r.in(0, rank - 1) : -1, k = (int)r.in(0, 3);
    if (r.chance(1, 3)) { qs.f = (int)r.in(0, 15); qo.f = qi.f + (int)r.in(-4, 4); }
    int fa = (int)r.in(-2, w + 2), fb = (int)r.in(-2, w + 2), fo = r.chance(1, 4) ? (int)r.in(-4, w + 4) : fa;
    s.rank = 1; s.shape[0] = kind == 3 ? o.shape[ax] : 1; s.st[0] = 1; s.alloc(r, et, es, 0); s.fill(r, w);
    mli_tensor sl; memset(&sl, 0, sizeof sl); sl.el_type = et;
    if (kind == 3) { sl.rank = rank; for (int i = 0; i < rank; i++) { sl.shape[i] = i == ax ? o.shape[ax] : 1; sl.mem_stride[i] = i < ax ? (int)o.shape[ax] : 1; } sl.data.mem.pi8 = (int8_t *)s.at(0); sl.data.capacity = s.bytes; }
    else if (es == 1) sl.data.mem.i8 = (int8_t)s.get(0); else sl.data.mem.i16 = (int16_t)s.get(0);
    if (ty == 2) { set_sq(a.t, qi); set_sq(o.t, qo); set_sq(sl, qs); }
    else { a.t.el_params.fx.frac_bits = fa; o.t.el_params.fx.frac_bits = fo; sl.el_params.fx.frac_bits = fb; }
    a.snap(); o.snap(); s.snap();
    mli_relu_cfg rc; rc.type = (mli_relu_type)k; mli_prelu_cfg pc; pc.axis = ax;
    static const char *KN[] = {"relu", "leaky_relu", "prelu", "prelu"};
    d = fmt("mli_krn_%s_%s %s in %s out %s  in: scale %d frac %d zero %d  slope: scale %d frac %d zero %d  out: scale %d frac %d zero %d  (fx: frac bits %d slope %d out %d)\nin %s\nslope %s", KN[kind], ty == 0 ? "fx8" : ty == 1 ? "fx16" : "sa8",
        kind ? fmt("axis %d", ax).c_str() : fmt("kind %d", k).c_str(), a.str().c_str(), o.str().c_str(), qi.s, qi.f, qi.z, qs.s, qs.f, qs.z, qo.s, qo.f, qo.z, fa, fb, fo, a.vals().c_str(), s.vals().c_str());
#define F3(n, ...) (ty == 0 ? n##_fx8(__VA_ARGS__) : ty == 1 ? n##_fx16(__VA_ARGS__) : n##_sa8(__VA_ARGS__))
    if (kind == 0) st = F3(mli_krn_relu, &a.t, &rc, &o.t); else if (kind == 1) st = F3(mli_krn_leaky_relu, &a.t, &sl, &o.t); else st = F3(mli_krn_prelu, &a.t, &sl, &pc, &o.t);
    CALL(st);
    i128 lo, hi;
    if (ty == 2) o_relu(k, 8, qi.z, qi.s, qi.f, lo, hi); else o_relu(k, w, 0, 1, fa, lo, hi);
    if (kind == 0) {
        bool same = ty == 2 ? o.t.el_params.sa.scale.mem.i16 == qi.s && o.t.el_params.sa.scale_frac_bits.mem.i8 == qi.f && o.t.el_params.sa.zero_point.mem.i16 == qi.z : o.t.el_params.fx.frac_bits == fa;
        if (!same) { d += "\nthe output tensor does not carry the quantisation of the input"; return false; }
    }
    return o.expect([&](const int *i) -> i128 {
        i128 x = a.get(i); if (kind == 0) return std::min(std::max(x, lo), hi);
        i128 sv = s.get(kind == 3 ? i[ax] : 0);
        return ty == 2 ? leaky_sa(x, sv, qi, qs, qo) : leaky_fx(w, x, sv, fa + fb - fo, kind != 3 && w == 16); }, d, "out") && frozen({&a, &s}, d);
}
static struct Boost { Boost() { fams()[0].weight = 200; } } boost;
int main(int c, char **v) { return h_main(c, v); }
