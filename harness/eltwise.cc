#include "tensor.hpp"
bool seed_line(const std::string &, std::string &) { return true; }
typedef mli_status (*Fn)(const mli_tensor *, const mli_tensor *, mli_tensor *);
enum { ADD, SUB, MUL, MIN, MAX };
static Fn F[5][3] = {{mli_krn_eltwise_add_fx8, mli_krn_eltwise_add_fx16, mli_krn_eltwise_add_sa8}, {mli_krn_eltwise_sub_fx8, mli_krn_eltwise_sub_fx16, mli_krn_eltwise_sub_sa8},
    {mli_krn_eltwise_mul_fx8, mli_krn_eltwise_mul_fx16, mli_krn_eltwise_mul_sa8}, {mli_krn_eltwise_min_fx8, mli_krn_eltwise_min_fx16, mli_krn_eltwise_min_sa8},
    {mli_krn_eltwise_max_fx8, mli_krn_eltwise_max_fx16, mli_krn_eltwise_max_sa8}};
static const char *ON[5] = {"add", "sub", "mul", "min", "max"};
struct Q { int s, f, z; };
// mantissa and shift of a scale ratio: normalised quotient, 16 bits, shift within [-31, hi]
static void ratio(int64_t s, int64_t so, int sh, int hi, int &m, int &shift) {
    int t = -o_norm(s, 32); int64_t n = (int64_t)(s * ((i128)1 << -t)); sh -= t; n /= so;
    t = 16 - o_norm(n, 32); m = (int)o_cast(n, t, 32, 16); sh -= t;
    int k = std::max(sh - hi, 0) + std::min(31 + sh, 0); m = (int)o_asr_rnd(m, k, 16); shift = sh - k;
}
static i128 fx(int op, int w, i128 a, i128 b, int f1, int f2, int f3) {
    if (op == MUL) return o_cast(a * b, std::min(f1 + f2 - f3, 2 * w - 1), 64, w);
    if (op == MIN || op == MAX) return o_asr_rnd(op == MIN ? std::min(a, b) : std::max(a, b), std::min(f1 - f3, w - 1), w);
    if (f1 < f2) a = o_asl(a, f2 - f1, 32);
    if (f2 < f1) b = o_asl(b, f1 - f2, 32);
    return o_cast(clampw(op == ADD ? a + b : a - b, 32), std::min(std::max(f1, f2) - f3, 2 * w - 1), 64, w);
}
static i128 sa(int op, i128 a, i128 b, Q q1, Q q2, Q q3) {
    i128 x = a - q1.z, y = b - q2.z, t; int m, s, m2, s2;
    if (op == MUL) {
        ratio((int64_t)q1.s * q2.s, q3.s, q1.f + q2.f - q3.f, 31, m, s);
        int pre = std::min(std::max(s - 21, 0), 3);
        t = o_cast(o_cast(x * y, pre, 32, 16) * m, s - pre, 32, 16);
    } else if (op == MIN || op == MAX) {
        ratio(q1.s, q3.s, q1.f - q3.f, 23, m, s);
        t = o_cast((op == MIN ? std::min(x * m, y * m) : std::max(x * m, y * m)), s, 32, 16);
    } else {
        ratio(q1.s, q3.s, q1.f - q3.f, 23, m, s); ratio(q2.s, q3.s, q2.f - q3.f, 23, m2, s2);
        i128 u = o_asr_rnd(x * m, s, 32), v = o_asr_rnd(y * m2, s2, 32);
        t = clampw(clampw(op == ADD ? u + v : u - v, 32), 16);
    }
    return clampw(clampw(t + q3.z, 16), 8);
}
static Q rndq(Rng &r) { Q q; q.s = (int)(r.chance(1, 3) ? r.in(1, 32767) : r.in(1, 255)); if (r.chance(1, 8)) q.s = 1 << r.in(0, 14); q.f = r.chance(1, 2) ? (int)r.in(0, 15) : (int)r.in(-8, 30); q.z = (int)r.in(-128, 127); return q; }
static void setq(mli_tensor &t, Q q) { t.el_params.sa.scale.mem.i16 = q.s; t.el_params.sa.scale_frac_bits.mem.i8 = q.f; t.el_params.sa.zero_point.mem.i16 = q.z; t.el_params.sa.dim = -1; }
FAMILY(eltwise) {
    int op = (int)r.in(0, 4), ty = (int)r.in(0, 2), kind = (int)r.in(0, 5), w = ty == 1 ? 16 : 8, es = w / 8;
    auto et = ty == 0 ? MLI_EL_FX_8 : ty == 1 ? MLI_EL_FX_16 : MLI_EL_SA_8;
    Tn a, b, o; int rank = (int)r.in(1, 4);
    rnd_shape(r, o, rank, rank > 2 ? 4 : 9); rnd_strides(r, o);
    bool sa_ = kind == 1, sb = kind == 2;          // scalar operands
    if (!sa_) { same_shape(a, o); rnd_strides(r, a); }
    if (!sb) { same_shape(b, o); rnd_strides(r, b); }
    a.alloc(r, et, es, 0); b.alloc(r, et, es, 0); o.alloc(r, et, es, 8);
    a.fill(r, w); b.fill(r, w);
    int64_t av = a.get(0), bv = b.get(0);
    if (sa_) { if (es == 1) a.t.data.mem.i8 = av; else a.t.data.mem.i16 = av; }
    if (sb) { if (es == 1) b.t.data.mem.i8 = bv; else b.t.data.mem.i16 = bv; }
    Q q1 = rndq(r), q2 = rndq(r), q3 = rndq(r);
    if (ty < 2) { q1.f = (int)r.in(-4, w + 3); q2.f = (int)r.in(-4, w + 3); q3.f = (int)r.in(-4, w + 3); if (op >= MIN) q2.f = q1.f;
        if (r.chance(1, 8)) q3.f = (int)r.in(-60, 60); a.t.el_params.fx.frac_bits = q1.f; b.t.el_params.fx.frac_bits = q2.f; o.t.el_params.fx.frac_bits = q3.f; }
    else { if (op >= MIN) { q2 = q1; } setq(a.t, q1); setq(b.t, q2); setq(o.t, q3); }
    a.snap(); b.snap(); o.snap();
    d = fmt("mli_krn_eltwise_%s_%s in1 %s in2 %s out %s  in1: scale %d frac %d zero %d  in2: scale %d frac %d zero %d  out: scale %d frac %d zero %d\nin1 %s\nin2 %s", ON[op], ty == 0 ? "fx8" : ty == 1 ? "fx16" : "sa8",
        a.str().c_str(), b.str().c_str(), o.str().c_str(), q1.s, q1.f, q1.z, q2.s, q2.f, q2.z, q3.s, q3.f, q3.z, a.vals().c_str(), b.vals().c_str());
    CALL(F[op][ty](&a.t, &b.t, &o.t));
    return o.expect([&](const int *i) {
        i128 x = sa_ ? av : a.get(i), y = sb ? bv : b.get(i);
        return ty == 2 ? sa(op, x, y, q1, q2, q3) : fx(op, w, x, y, q1.f, q2.f, q3.f); }, d, "out") && frozen({&a, &b}, d);
}
static struct Boost { Boost() { fams()[0].weight = 200; } } boost;
int main(int c, char **v) { return h_main(c, v); }
