#include "tensor.hpp"
#include "quant.hpp"
#include <math.h>
bool seed_line(const std::string &, std::string &) { return true; }
// quantisation of one side: per tensor or per index of a dimension
struct Q { bool sa; int ax = -1; SQ t; std::vector<int16_t> s, z; std::vector<int8_t> f; int frac = 0;
    void make(Rng &r, Tn &x, bool is_sa, int axis, int w) {
        sa = is_sa; ax = sa ? axis : -1; frac = (int)(r.chance(1, 4) ? r.in(-128, 127) : r.in(-2, 17)); t = rnd_sq(r);
        if (!sa) { x.t.el_params.fx.frac_bits = frac; return; }
        if (ax < 0) { set_sq(x.t, t); return; }
        for (uint32_t i = 0; i < x.shape[ax]; i++) { SQ q = rnd_sq(r); s.push_back(q.s); z.push_back(q.z); f.push_back(q.f); }
        auto &p = x.t.el_params.sa; p.dim = ax; p.scale.mem.pi16 = s.data(); p.scale.capacity = 2 * s.size(); p.zero_point.mem.pi16 = z.data(); p.zero_point.capacity = 2 * z.size(); p.scale_frac_bits.mem.pi8 = f.data(); p.scale_frac_bits.capacity = f.size(); }
    SQ at(const int *i) const { if (!sa) return SQ{1, frac, 0}; if (ax < 0) return t; return SQ{s[i[ax]], f[i[ax]], z[i[ax]]}; }
    std::string str() const { return !sa ? fmt("frac bits %d", frac) : ax < 0 ? fmt("scale %d frac %d zero %d", t.s, t.f, t.z) : fmt("per index of dimension %d, first scale %d frac %d zero %d", ax, s[0], f[0], z[0]); } };
FAMILY(convert) {
    static const mli_element_type ET[] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32}; static const char *EN[] = {"fx8", "fx16", "sa8", "sa32"}; static const int EB[] = {1, 2, 1, 4};
    int ta = (int)r.in(0, 3), to = (int)r.in(0, 3), rank = (int)r.in(1, 4); bool wide = ta == 3 || to == 3; Tn a, o;
    rnd_shape(r, a, rank, rank > 2 ? 4 : 9); same_shape(o, a); rnd_strides(r, a); rnd_strides(r, o);
    bool inplace = EB[ta] == EB[to] && r.chance(1, 4); if (inplace) memcpy(o.st, a.st, sizeof a.st);
    a.alloc(r, ET[ta], EB[ta], inplace ? 8 : 0); o.alloc(r, ET[to], EB[to], 8); a.fill(r, 8 * EB[ta]);
    int ax = r.chance(1, 2) ? (int)r.in(0, rank - 1) : -1, who = (int)r.in(0, 2); Q qa, qo;
    qa.make(r, a, ta >= 2, who != 1 ? ax : -1, 8 * EB[ta]); qo.make(r, o, to >= 2, who != 0 ? ax : -1, 8 * EB[to]);
    if (r.chance(1, 2) && qa.sa && qo.sa && qa.ax < 0 && qo.ax < 0) { qo.t.f = qa.t.f + (int)r.in(-3, 3); set_sq(o.t, qo.t); }
    a.snap(); o.snap(); mli_tensor dst = o.t; if (inplace) { dst.data = a.t.data; }
    d = fmt("mli_hlp_convert_tensor %s to %s%s  source %s %s  destination %s %s\nsource %s", EN[ta], EN[to], inplace ? " in place" : "", a.str().c_str(), qa.str().c_str(), o.str().c_str(), qo.str().c_str(), a.vals().c_str());
    std::vector<int64_t> src; a.each([&](const int *i) { src.push_back(a.get(i)); return true; });
    mli_tensor keep = dst; CALL(r.chance(1, 2) ? mli_hlp_convert_tensor(&a.t, &dst) : mli_hlp_convert_tensor_safx(&a.t, &dst));
    if (dst.rank != keep.rank || memcmp(dst.shape, keep.shape, sizeof keep.shape) || dst.el_type != keep.el_type || memcmp(&dst.data, &keep.data, sizeof keep.data)) { d += "\nthe destination tensor structure was changed"; return false; }
    size_t n = 0; bool acc = true; std::string why;
    auto want = [&](const int *i) -> i128 {
        i128 x = src[n++]; SQ p = qa.at(i), q = qo.at(i); x -= p.z;
        int t = o_norm(p.s, 32) - o_norm(q.s, 16); int64_t u = ((int64_t)p.s << t) / q.s; int k = 16 - o_norm(u, 32); int64_t m = (int64_t)o_cast(u, k, 32, 16); int sh = std::min(t + p.f - q.f - k, wide ? 63 : 31); i128 v;
        if (wide) { x = clampw(x, 32); int n1 = o_norm(x, 32), n2 = o_norm(m, 32); v = o_asr_rnd(((x << n1) * ((i128)m << n2)) >> 32, sh + n1 + n2 - 32, 32); }
        else v = o_asr_rnd(clampw(x, 16) * m, sh, 32);
        v = clampw(clampw(v + q.z, 32), 8 * EB[to]);
        // independent of how the ratio is represented: the documented formula, with 13 bits of the ratio and one unit for rounding
        long double e = (long double)x * p.s / q.s * powl(2, q.f - p.f), lim = (long double)((int64_t)1 << (8 * EB[to] - 1));
        long double lo = std::max(-lim, std::min(lim - 1, e + q.z - fabsl(e) / 8192 - 1)), hi = std::max(-lim, std::min(lim - 1, e + q.z + fabsl(e) / 8192 + 1));
        if (to == 3 && fabsl(e) >= lim) lo -= abs(q.z), hi += abs(q.z);     // a 32-bit result is saturated before the zero point is added
        if (acc && ((long double)v < lo || (long double)v > hi)) { acc = false; why = fmt("\nthe specified value %lld of element %zu is far from the documented %Lf", (long long)v, n - 1, e + q.z); }
        return v; };
    bool ok = (inplace ? a : o).expect(want, d, "out") && (inplace || frozen({&a}, d));
    if (!acc) d += why;
    return ok && acc;
}
static struct Boost { Boost() { fams()[0].weight = 200; } } boost;
int main(int c, char **v) { return h_main(c, v); }
