#include "quant.hpp"
#include <assert.h>
#include "mli_krn_matmul_ref.hpp"
bool seed_line(const std::string &, std::string &) { return true; }
typedef mli_status (*Fc)(const mli_tensor *, const mli_tensor *, const mli_tensor *, const mli_fully_connected_cfg *, mli_tensor *);
static const struct { Fc f; const char *n; int ty; bool ext; } tab[] = {
    {mli_krn_fully_connected_fx8, "mli_krn_fully_connected_fx8", 0, false}, {mli_krn_fully_connected_fx16, "mli_krn_fully_connected_fx16", 1, false}, {mli_krn_fully_connected_fx16_fx8_fx8, "mli_krn_fully_connected_fx16_fx8_fx8", 2, false},
    {mli_krn_fully_connected_sa8_sa8_sa32, "mli_krn_fully_connected_sa8_sa8_sa32", 3, false}, {mli_krn_fully_connected_sa8_sa8_sa32_ext_bias, "mli_krn_fully_connected_sa8_sa8_sa32_ext_bias", 3, true}};
FAMILY(fully_connected) {
    auto &c = tab[r.in(0, 4)]; bool sa = c.ty == 3; int ies = c.ty == 0 || sa ? 1 : 2, wes = c.ty == 1 ? 2 : 1, bes = sa ? 4 : wes;
    auto it = sa ? MLI_EL_SA_8 : ies == 1 ? MLI_EL_FX_8 : MLI_EL_FX_16, wt = sa ? MLI_EL_SA_8 : wes == 2 ? MLI_EL_FX_16 : MLI_EL_FX_8;
    Tn a, w, b, o; rnd_shape(r, a, (int)r.in(1, 4), 5); int32_t s = 1; for (int i = a.rank - 1; i >= 0; i--) { a.st[i] = s; s *= a.shape[i]; }
    if (r.chance(1, 300)) { a.rank = 1; a.shape[0] = (uint32_t)r.pick({257, 32767, 32769, 65537, 70000}); a.st[0] = 1; }
    int K = (int)a.count(), N = (int)r.in(1, 8);
    w.rank = 2; w.shape[0] = K; w.shape[1] = N; rnd_strides(r, w); b.rank = o.rank = 1; b.shape[0] = o.shape[0] = N; b.st[0] = o.st[0] = 1;
    a.alloc(r, it, ies, 0); w.alloc(r, wt, wes, 0); b.alloc(r, sa ? MLI_EL_SA_32 : wt, bes, 0); o.alloc(r, it, ies, 8);
    int amp = (int)r.in(3, 8);
    if (r.chance(1, 3)) { a.fill(r, 8 * ies); w.fill(r, 8 * wes); } else { a.fillr(r, -(1 << (amp * ies - 1)), (1 << (amp * ies - 1)) - 1); w.fillr(r, -(1 << (amp * wes - 1)), (1 << (amp * wes - 1)) - 1); }
    if (sa) b.fillr(r, -100000, 100000); else b.fill(r, 8 * bes);
    int fa = (int)r.in(-2, 8 * ies + 1), fw = (int)r.in(-2, 8 * wes + 1), fb = (int)r.in(-2, 8 * wes + 1), fo = r.chance(3, 4) ? fa + fw - (int)r.in(0, 8 * wes + 4) : (int)r.in(-4, 20);
    SQ qi = rnd_sq(r), qo = rnd_sq(r), qw = rnd_sq(r); bool per = r.chance(1, 3); std::vector<int16_t> ws(N), wz(N, 0); std::vector<int8_t> wf(N); qw.z = 0;
    for (int i = 0; i < N; i++) { SQ q = per ? qw : rnd_sq(r); ws[i] = q.s; wf[i] = q.f; }
    if (sa) { set_sq(a.t, qi); set_sq(o.t, qo); set_sq(w.t, qw);
        if (!per) { w.t.el_params.sa.dim = 1; w.t.el_params.sa.scale.mem.pi16 = ws.data(); w.t.el_params.sa.scale_frac_bits.mem.pi8 = wf.data(); w.t.el_params.sa.zero_point.mem.pi16 = wz.data();
            w.t.el_params.sa.scale.capacity = 2 * N; w.t.el_params.sa.scale_frac_bits.capacity = N; w.t.el_params.sa.zero_point.capacity = 2 * N; } }
    else { a.t.el_params.fx.frac_bits = fa; w.t.el_params.fx.frac_bits = fw; b.t.el_params.fx.frac_bits = fb; o.t.el_params.fx.frac_bits = fo; }
    mli_fully_connected_cfg cfg; int relu = (int)r.in(0, 3); cfg.relu.type = relu == 0 ? MLI_RELU_NONE : relu == 1 ? MLI_RELU_GEN : relu == 2 ? MLI_RELU_1 : MLI_RELU_6;
    a.snap(); w.snap(); b.snap(); o.snap();
    d = fmt("%s in %s weights %s %s relu %d frac in %d w %d bias %d out %d; SA in (%d,%d,%d) out (%d,%d,%d) w[0] (%d,%d)\nin %s\nweights %s\nbias %s", c.n, a.str().c_str(), w.str().c_str(), per ? "per tensor" : "per output", relu, fa, fw, fb, fo,
        qi.s, qi.f, qi.z, qo.s, qo.f, qo.z, ws[0], wf[0], a.vals().c_str(), w.vals().c_str(), b.vals().c_str());
    CALL(c.f(&a.t, &w.t, &b.t, &cfg, &o.t));
    i128 lo, hi; if (sa) o_relu(relu, 8, qo.z, qo.s, qo.f, lo, hi); else o_relu(relu, 8 * ies, 0, 1, fo, lo, hi);
    std::vector<int64_t> av; a.each([&](const int *i) { av.push_back(a.get(i)); return true; });
    return o.expect([&](const int *i) {
        i128 acc = 0, v; int n = i[0];
        for (int k = 0; k < K; k++) acc += ((i128)av[k] - (sa && !c.ext ? qi.z : 0)) * w.get(k, n);
        if (sa) { int64_t rs, ra = o_ratio(qi.s, qi.f, qo.s, qo.f, rs); v = o_sa_out(clampw(acc + o_sa_bias(b.get(n)), 32), ra, rs, ws[n], wf[n], qo.z); }
        else { int aw = wes == 2 ? 64 : 32; v = o_cast(clampw(acc + o_asr_rnd(b.get(n), fb - fa - fw, aw), aw), fa + fw - fo, aw, 8 * ies); }
        return std::max(std::min(v, hi), lo); }, d, "out") && frozen({&a, &w, &b}, d);
}
FAMILY(matmul) {
    using namespace snps_arc::metaware::mli;
    Tn a, b, o; int h = (int)r.in(1, 5), k = (int)r.in(1, 6), n = (int)r.in(1, 5);
    a.rank = b.rank = o.rank = 2; a.shape[0] = h; a.shape[1] = b.shape[0] = k; b.shape[1] = n; o.shape[0] = h; o.shape[1] = n;
    rnd_strides(r, a); rnd_strides(r, b); rnd_strides(r, o); a.alloc(r, MLI_EL_SA_8, 1, 0); b.alloc(r, MLI_EL_SA_8, 1, 0); o.alloc(r, MLI_EL_SA_32, 4, 8);
    int8_t z[2] = {(int8_t)r.word(8), (int8_t)r.word(8)}; a.snap(); b.snap(); o.snap();
    Tensor<InternalBuffer, 2> ta(InternalBuffer((uint64_t)a.at(0), a.t.data.capacity, 1), a.shape, a.st), tb(InternalBuffer((uint64_t)b.at(0), b.t.data.capacity, 1), b.shape, b.st), to(InternalBuffer((uint64_t)o.at(0), o.t.data.capacity, 4), o.shape, o.st);
    InternalBuffer p((uint64_t)z, 2, 1);
    d = fmt("MatMul left %s right %s out %s zero points %d %d\nleft %s\nright %s", a.str().c_str(), b.str().c_str(), o.str().c_str(), z[0], z[1], a.vals().c_str(), b.vals().c_str());
    ::mli::krn::ref::MatMul_prepare_and_run<int8_t, int8_t, int32_t>(ta, tb, to, p);
    return o.expect([&](const int *i) { i128 s = 0; for (int c = 0; c < k; c++) s += (i128)(a.get(i[0], c) - z[0]) * (b.get(c, i[1]) - z[1]); return s; }, d, "out") && frozen({&a, &b}, d);
}
static struct Boost { Boost() { for (auto &f : fams()) f.weight = 100; } } boost;
int main(int c, char **v) { return h_main(c, v); }
