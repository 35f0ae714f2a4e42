#include "../drv/scalar.cc"
#include "h.hpp"
struct C { std::string name; int na; int w[3]; std::function<bool(const int64_t *, std::string &)> f; };
static std::vector<C> cs;
static bool eq(const char *n, const int64_t *a, int na, i128 got, i128 want, std::string &d) {
    if (got == want) return true;
    d = fmt("%s(", n); for (int i = 0; i < na; i++) d += fmt("%s%lld", i ? ", " : "", (long long)a[i]);
    d += fmt(") = %lld, expected %lld", (long long)got, (long long)want); return false;
}
#define DEF1(n, w0, want) cs.push_back({#n, 1, {w0, 0, 0}, [](const int64_t *a, std::string &d) { return eq(#n, a, 1, n(a[0]), want, d); }})
#define DEF2(n, w0, w1, want) cs.push_back({#n, 2, {w0, w1, 0}, [](const int64_t *a, std::string &d) { return eq(#n, a, 2, n(a[0], a[1]), want, d); }})
#define DEFP2(n, w0, w1, pre, want) cs.push_back({#n, 2, {w0, w1, 0}, [](const int64_t *a, std::string &d) { return !(pre) || eq(#n, a, 2, n(a[0], a[1]), want, d); }})
#define DEFP3(n, w0, w1, w2, pre, want) cs.push_back({#n, 3, {w0, w1, w2}, [](const int64_t *a, std::string &d) { return !(pre) || eq(#n, a, 3, n(a[0], a[1], a[2]), want, d); }})
#define SHP (a[1] != -2147483648LL)
static i128 asr_any(i128 x, int64_t n, int w) { return n >= 0 ? floordiv2(x, (int)std::min<int64_t>(n, 126)) : o_asl(x, -n, w); }
static i128 asl_any(i128 x, int64_t n, int w) { return n >= 0 ? o_asl(x, n, w) : floordiv2(x, (int)std::min<int64_t>(-n, 126)); }
#define PERT(t, w) \
    DEF2(s_add_##t, w, w, clampw((i128)a[0] + a[1], w)); DEF2(s_sub_##t, w, w, clampw((i128)a[0] - a[1], w)); \
    DEFP2(s_asr_##t, w, -1, SHP, asr_any(a[0], a[1], w)); DEFP2(s_asl_##t, w, -1, SHP, asl_any(a[0], a[1], w)); \
    DEFP2(s_asrrnd_##t, w, -1, SHP, o_asr_rnd(a[0], a[1], w)); DEFP2(s_aslrnd_##t, w, -1, SHP, o_asr_rnd(a[0], -a[1], w)); \
    DEFP2(s_ashr_##t, w, -1, SHP, o_asr_rnd(a[0], a[1], w)); \
    DEF1(s_neg_##t, w, clampw(-(i128)a[0], w)); DEF1(s_abs_##t, w, clampw(a[0] < 0 ? -(i128)a[0] : (i128)a[0], w)); \
    DEF2(s_max_##t, w, w, std::max(a[0], a[1])); DEF2(s_min_##t, w, w, std::min(a[0], a[1])); \
    DEF1(s_limit_##t, w, clampw(a[0] < 0 ? -((i128)1 << 70) : ((i128)1 << 70), w)); \
    DEFP2(s_sat_##t, w, -1, (a[1] >= 0 && a[1] < w), clampw(a[0], w - (int)a[1])); DEF1(s_norm_##t, w, o_norm(a[0], w)); \
    DEFP3(s_bound_##t, w, w, w, a[1] <= a[2], std::min(std::max(a[0], a[1]), a[2]));
#define CAST(i, o, wi, wo) DEFP2(s_cast_##i##_##o, wi, -1, SHP, o_cast(a[0], a[1], wi < wo ? wo : wi, wo))
static void init() {
    PERT(i8, 8) PERT(i16, 16) PERT(i32, 32) PERT(i64, 64)
    CAST(i8, i8, 8, 8); CAST(i8, i16, 8, 16); CAST(i16, i8, 16, 8); CAST(i16, i16, 16, 16); CAST(i32, i8, 32, 8); CAST(i32, i16, 32, 16);
    CAST(i32, i32, 32, 32); CAST(i64, i8, 64, 8); CAST(i64, i16, 64, 16); CAST(i64, i32, 64, 32);
    DEFP2(s_cast_i16_i64, 16, -1, a[1] >= -16, o_asr_rnd(a[0], a[1], 64));
    DEF1(s_cast1_i32_i16, 32, clampw(a[0], 16)); DEF1(s_cast1_i64_i16, 64, clampw(a[0], 16));
    DEFP2(s_acccast_i8, 32, -1, SHP, o_cast(a[0], a[1], 32, 8)); DEFP2(s_acccast_i16, 32, -1, SHP, o_cast(a[0], a[1], 32, 16));
    DEFP2(s_acccast_i32, 32, -1, SHP, o_asr_rnd(a[0], a[1], 32)); DEFP2(s_accshift_i32, 32, -1, SHP, o_asr_rnd(a[0], a[1], 32));
    DEFP2(s_accshift_i64, 64, -1, SHP, o_asr_rnd(a[0], a[1], 64));
    DEFP2(s_mulhigh, 32, 32, !(a[0] == a[1] && a[0] == -2147483648LL), ((i128)a[0] * a[1] + (1 << 30)) >> 31);
    DEF2(s_mul_i32, 32, 32, (i128)a[0] * a[1]); DEF2(s_mul_i16, 16, 16, (i128)a[0] * a[1]); DEF2(s_mul_i8, 8, 8, (i128)a[0] * a[1]);
    DEFP3(s_mac_8_8, 32, 8, 8, clampw((i128)a[0] + a[1] * a[2], 32) == (i128)a[0] + a[1] * a[2], (i128)a[0] + a[1] * a[2]);
    DEFP3(s_mac_16_16, 32, 16, 16, clampw((i128)a[0] + a[1] * a[2], 32) == (i128)a[0] + a[1] * a[2], (i128)a[0] + a[1] * a[2]);
    DEFP3(s_mac_16_8, 32, 16, 8, clampw((i128)a[0] + a[1] * a[2], 32) == (i128)a[0] + a[1] * a[2], (i128)a[0] + a[1] * a[2]);
    DEFP3(s_mac_40, 64, 16, 16, clampw((i128)a[0] + a[1] * a[2], 64) == (i128)a[0] + a[1] * a[2], (i128)a[0] + a[1] * a[2]);
#define NC(n, wi, wo) cs.push_back({#n, 1, {wi, 0, 0}, [](const int64_t *a, std::string &d) { int32_t sh = 0; i128 g = n(a[0], &sh); \
        if (!eq(#n " shift", a, 1, sh, wi - wo - o_norm(a[0], wi), d)) return false; return eq(#n, a, 1, g, o_cast(a[0], sh, wi, wo), d); }})
    NC(s_normcast_i32_i16, 32, 16); NC(s_normcast_i32_i8, 32, 8); NC(s_normcast_i32_i32, 32, 32); NC(s_normcast_i64_i16, 64, 16);
}
bool seed_line(const std::string &l, std::string &d) {
    std::istringstream s(l); std::string n; s >> n; int64_t a[8] = {0}; for (int i = 0; i < 8 && (s >> a[i]); i++);
    for (auto &c : cs) if (c.name == n) return c.f(a, d);
    return true;
}
FAMILY(prim) {
    auto &c = cs[r.in(0, cs.size() - 1)];
    int64_t a[3];
    for (int i = 0; i < c.na; i++) a[i] = c.w[i] > 0 ? r.word(c.w[i]) : r.chance(15, 16) ? r.in(-70, 70) : r.word(32);
    return c.f(a, d);
}
static struct Boost { Boost() { fams()[0].weight = 2000; } } boost;
int main(int c, char **v) { init(); return h_main(c, v); }
