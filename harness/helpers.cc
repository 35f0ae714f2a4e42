#include "tensor.hpp"
#ifdef MLI_DEBUG_MODE      // debug builds refuse memory strides of zero and, in mli_hlp_point_to_subtensor, results of more than one dimension
static const bool ZERO_OK = false;
#else
static const bool ZERO_OK = true;
#endif
bool seed_line(const std::string &, std::string &) { return true; }
static const mli_element_type ET[] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}; static const int EB[] = {1, 2, 1, 4, 4};
struct P3 { std::vector<int16_t> s, z; std::vector<int8_t> f; };
static void quant(Rng &r, mli_tensor &t, P3 &p, int ty, int x) {
    if (ty < 2) { t.el_params.fx.frac_bits = (int8_t)r.word(8); return; }
    if (ty == 4) return;
    auto &q = t.el_params.sa; q.dim = x;
    uint32_t n = x < 0 ? 1 : t.shape[x]; for (uint32_t i = 0; i < n; i++) { p.s.push_back((int16_t)r.in(1, 32767)); p.z.push_back((int16_t)r.in(-100, 100)); p.f.push_back((int8_t)r.word(8)); }
    if (x < 0) { q.scale.mem.i16 = p.s[0]; q.zero_point.mem.i16 = p.z[0]; q.scale_frac_bits.mem.i8 = p.f[0]; }
    else { q.scale.mem.pi16 = p.s.data(); q.scale.capacity = 2 * n; q.zero_point.mem.pi16 = p.z.data(); q.zero_point.capacity = 2 * n; q.scale_frac_bits.mem.pi8 = p.f.data(); q.scale_frac_bits.capacity = n; }
}
FAMILY(subtensor) {
    int ty = (int)r.in(0, 3), rank = (int)r.in(1, 4), x = r.chance(2, 3) ? (int)r.in(0, rank - 1) : -1; Tn a; rnd_shape(r, a, rank, rank < 4 && r.chance(1, 30) ? rank < 3 ? 300 : 60 : 6); rnd_strides(r, a); a.alloc(r, ET[ty], EB[ty], 0); bool dense = ZERO_OK && r.chance(1, 2); for (int i = rank - 1, m = 1; i >= 0; m *= a.shape[i--]) dense &= a.st[i] == m;
    P3 p; quant(r, a.t, p, ty, x); if (dense) for (int i = 0; i < rank; i++) a.t.mem_stride[i] = 0;
    mli_sub_tensor_cfg c; int ones = 0; for (int i = 0; i < rank; i++) { c.offset[i] = (uint32_t)r.in(0, a.shape[i] - 1); c.size[i] = r.chance(1, 2) ? 1 : (uint32_t)r.in(1, a.shape[i] - c.offset[i]); ones += c.size[i] == 1; }
    int skip = (int)r.in(0, std::min(ones, rank - 1)); c.sub_tensor_rank = rank - skip; mli_tensor o; memset(&o, 0xa5, sizeof o);
    d = fmt("mli_hlp_create_subtensor type %d %s quantised dimension %d offset %u %u %u %u size %u %u %u %u rank %d", ty, a.str().c_str(), ty < 2 ? -1 : x, c.offset[0], c.offset[1], c.offset[2], c.offset[3], c.size[0], c.size[1], c.size[2], c.size[3], (int)c.sub_tensor_rank);
    CALL(mli_hlp_create_subtensor(&a.t, &c, &o));
    int kept[4], k = 0, left = skip; for (int i = 0; i < rank; i++) { if (left && c.size[i] == 1) left--; else kept[k++] = i; }
    if ((int)o.rank != k || o.el_type != ET[ty]) { d += fmt("\nrank %d type %d", (int)o.rank, (int)o.el_type); return false; }
    int z[4]; for (int i = 0; i < 4; i++) z[i] = i < rank ? (int)c.offset[i] : 0; uint8_t *first = a.at(a.off(z));
    if ((uint8_t *)o.data.mem.pi8 != first || (long)o.data.capacity != (long)(a.mem + a.bytes - first)) { d += fmt("\ndata at %ld, capacity %ld", (long)((uint8_t *)o.data.mem.pi8 - a.mem), (long)o.data.capacity); return false; }
    for (int j = 0; j < k; j++) if (o.shape[j] != c.size[kept[j]] || o.mem_stride[j] != a.st[kept[j]]) { d += fmt("\ndimension %d: extent %u stride %d", j, o.shape[j], o.mem_stride[j]); return false; }
    if (ty < 2) { if (o.el_params.fx.frac_bits != a.t.el_params.fx.frac_bits) { d += "\nfraction bits changed"; return false; } return true; }
    int od = -1; for (int j = 0; j < k; j++) if (kept[j] == x) od = j;
    if (o.el_params.sa.dim != od) { d += fmt("\nquantised dimension %d, expected %d", o.el_params.sa.dim, od); return false; }
    for (uint32_t i = 0; i < (od < 0 ? 1 : o.shape[od]); i++) { uint32_t g = x < 0 ? 0 : c.offset[x] + i;
        if (mli_hlp_tensor_scale(&o, i) != p.s[g] || mli_hlp_tensor_zero_offset(&o, i) != p.z[g] || mli_hlp_tensor_scale_shift(&o, i) != p.f[g]) { d += fmt("\nindex %u: scale %d zero point %d shift %d, expected %d %d %d", i, mli_hlp_tensor_scale(&o, i), mli_hlp_tensor_zero_offset(&o, i), mli_hlp_tensor_scale_shift(&o, i), p.s[g], p.z[g], p.f[g]); return false; } }
    return true;
}
FAMILY(point) {
    int ty = (int)r.in(0, 4), rank = (int)r.in(1, 4); Tn a; rnd_shape(r, a, rank, 6); int s = 1; for (int i = rank - 1; i >= 0; i--) { a.st[i] = s; s *= a.shape[i]; } a.alloc(r, ET[ty], EB[ty], 0); P3 p; quant(r, a.t, p, ty, -1);
    mli_point_to_subtsr_cfg c; int n = ZERO_OK ? (int)r.in(1, rank) : rank; c.coord_num = n; int z[4] = {0, 0, 0, 0}; for (int i = 0; i < n; i++) z[i] = c.start_coord[i] = (uint32_t)r.in(0, a.shape[i] - 1); c.first_out_dim_size = (uint8_t)r.in(1, a.shape[n - 1] - z[n - 1]);
    mli_tensor o; memset(&o, 0, sizeof o); for (int j = rank - n, m = 1; j >= 0; j--) { o.mem_stride[j] = m; m *= j ? a.shape[n - 1 + j] : c.first_out_dim_size; } d = fmt("mli_hlp_point_to_subtensor type %d %s coordinates %d: %d %d %d %d, first size %d", ty, a.str().c_str(), n, z[0], z[1], z[2], z[3], c.first_out_dim_size);
    CALL(mli_hlp_point_to_subtensor(&a.t, &c, &o)); long cnt = 1;
    for (int j = 0; j < rank - n + 1; j++) { uint32_t e = j ? a.shape[n - 1 + j] : c.first_out_dim_size; cnt *= e; if (o.shape[j] != e) { d += fmt("\ndimension %d: extent %u", j, o.shape[j]); return false; } }
    if ((int)o.rank != rank - n + 1 || o.el_type != ET[ty] || (uint8_t *)o.data.mem.pi8 != a.at(a.off(z)) || (long)o.data.capacity != cnt * EB[ty]) { d += fmt("\nrank %d type %d data at %ld capacity %ld", (int)o.rank, (int)o.el_type, (long)((uint8_t *)o.data.mem.pi8 - a.mem), (long)o.data.capacity); return false; }
    return ty > 1 || o.el_params.fx.frac_bits == a.t.el_params.fx.frac_bits;
}
FAMILY(counts) {
    int rank = (int)r.in(1, 4); Tn a; rnd_shape(r, a, rank, 9); for (int i = 0; i < 4; i++) a.st[i] = 1; a.alloc(r, MLI_EL_FX_8, 1, 0); int k = (int)r.in(0, rank - 1); uint32_t e = 1; for (int i = k; i < rank; i++) e *= a.shape[i];
    d = fmt("mli_hlp_count_elem_num %s from %d, mli_hlp_set_tensor_mem_strides", a.str().c_str(), k);
    if (mli_hlp_count_elem_num(&a.t, k) != e) { d += fmt(": %u, expected %u", mli_hlp_count_elem_num(&a.t, k), e); return false; }
    mli_hlp_set_tensor_mem_strides(&a.t); int s = 1; for (int i = rank - 1; i >= 0; i--) { if (a.t.mem_stride[i] != s) { d += fmt("\nstride %d is %d, expected %d", i, a.t.mem_stride[i], s); return false; } s *= a.shape[i]; }
    return true;
}
int main(int c, char **v) { return h_main(c, v); }
