#include "quant.hpp"
#include <assert.h>
#define private public
#include "mli_types.hpp"
#include "mli_ref_runtime_api.hpp"
#undef private
bool seed_line(const std::string &, std::string &) { return true; }
static const struct { mli_element_type t; int b; } ET[] = {{MLI_EL_FX_8, 1}, {MLI_EL_FX_16, 2}, {MLI_EL_SA_8, 1}, {MLI_EL_SA_32, 4}, {MLI_EL_FP_32, 4}};
static void rnd_perm(Rng &r, int n, int *p) { for (int i = 0; i < 4; i++) p[i] = i; if (r.chance(1, 3)) return; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.in(0, i)]); }
template <class T> struct Buf { std::vector<T> v; Buf(Rng &r, int n) : v(n + 4) { for (auto &x : v) x = (T)r.next(); } T *p() { return v.data() + 2; } };
FAMILY(move) {
    auto &e = ET[r.in(0, 4)]; int R = (int)r.in(1, 4), p[4]; Tn a, o; rnd_shape(r, a, R, 6); rnd_perm(r, R, p); rnd_strides(r, a, (int)r.in(1, 2) == 2 && r.chance(1, 4) ? 2 : 1);
    a.alloc(r, e.t, e.b, 0); o.rank = R; bool src0 = r.chance(1, 5) && a.extent() == a.count(); if (src0) for (int i = 0; i < 4; i++) a.t.mem_stride[i] = 0;
    mli_mov_cfg_t c; memset(&c, 0, sizeof c); bool crop = r.chance(1, 2), pad = r.chance(1, 2), sub = r.chance(1, 2), dof = r.chance(1, 3); int n[4], wr[4];
    std::string s = "crop";
    bool perax = (e.t == MLI_EL_SA_8 || e.t == MLI_EL_SA_32) && r.chance(1, 2), own = r.chance(2, 3); int x = perax ? (int)r.in(0, R - 1) : -1;
    for (int i = 0; i < R; i++) { int d = p[i]; bool whole = d == x && !own;
        c.perm_dim[i] = d; if (pad && !whole) { c.padding_pre[d] = (uint8_t)r.in(0, 3); c.padding_post[d] = (uint8_t)r.in(0, 3); if (r.chance(1, 60)) c.padding_pre[d] = (uint8_t)r.in(60, 255); if (r.chance(1, 60)) c.padding_post[d] = (uint8_t)r.in(60, 255); }
        int tot = (int)a.shape[d] + c.padding_pre[d] + c.padding_post[d];
        if (crop && !whole) { c.offset[d] = (uint32_t)r.in(0, tot - 1); if (r.chance(1, 2)) c.size[d] = (uint32_t)r.in(1, tot - (int)c.offset[d]); }
        c.sub_sample_step[d] = sub && !whole ? (uint32_t)r.in(1, 3) : 1;
        int cs = c.size[d] ? (int)c.size[d] : tot - (int)c.offset[d];
        n[i] = (cs + (int)c.sub_sample_step[d] - 1) / (int)c.sub_sample_step[d]; c.dst_offset[i] = dof && !whole ? (uint32_t)r.in(0, 2) : 0; o.shape[i] = (uint32_t)(n[i] + (int)c.dst_offset[i]);
        if (!whole && r.chance(1, 8) && !pad && tot > 2) { c.offset[d] = 1; c.size[d] = (uint32_t)tot - 2; c.sub_sample_step[d] = 1; n[i] = tot - 2; c.dst_offset[i] = 2; o.shape[i] = (uint32_t)tot; }
        s += fmt(" | out dim %d <- in dim %d offset %u size %u pad %u+%u step %u out offset %u", i, d, c.offset[d], c.size[d], c.padding_pre[d], c.padding_post[d], c.sub_sample_step[d], c.dst_offset[i]); }
    rnd_strides(r, o); int how = (int)r.in(0, 2); if (!how) { int32_t k = 1; for (int i = R - 1; i >= 0; i--) { o.st[i] = k; k *= (int)o.shape[i]; } }
    if (how == 2) for (int i = 0; i < R; i++) c.dst_mem_stride[i] = (uint32_t)o.st[i];
    o.alloc(r, MLI_EL_FX_8, e.b, 8); for (int i = 0; i < 4; i++) { o.t.shape[i] = 0; if (how != 1) o.t.mem_stride[i] = 0; } o.t.rank = 0;
    int qn = perax ? (int)a.shape[x] : 0, xo = -1; for (int i = 0; i < R; i++) if (p[i] == x) xo = i; int on = perax ? (int)o.shape[xo] : 0;
    Buf<int16_t> sc(r, qn), zp(r, qn), dsc(r, on), dzp(r, on); Buf<int8_t> fb(r, qn), dfb(r, on); auto dsc0 = dsc.v, dzp0 = dzp.v; auto dfb0 = dfb.v;
    SQ q = rnd_sq(r); int frac = (int)r.in(-8, 20);
    if (perax) { auto &P = a.t.el_params.sa; P.dim = x; P.scale.mem.pi16 = sc.p(); P.zero_point.mem.pi16 = zp.p(); P.scale_frac_bits.mem.pi8 = fb.p(); P.scale.capacity = P.zero_point.capacity = 2 * qn; P.scale_frac_bits.capacity = qn;
        if (own) { auto &O = o.t.el_params.sa; O.scale.mem.pi16 = dsc.p(); O.zero_point.mem.pi16 = dzp.p(); O.scale_frac_bits.mem.pi8 = dfb.p(); O.scale.capacity = O.zero_point.capacity = 2 * on; O.scale_frac_bits.capacity = on; } }
    else if (e.t == MLI_EL_SA_8 || e.t == MLI_EL_SA_32) set_sq(a.t, q); else a.t.el_params.fx.frac_bits = (int8_t)frac;
    a.snap(); o.snap(); auto cc = c;
    d = fmt("mli_mov_tensor_sync type %#x in %s%s strides of the output %s quantised dim %d%s: %s\nin %s", (int)e.t, a.str().c_str(), src0 ? " (strides 0 given)" : "", how == 0 ? "dense" : how == 1 ? "in the tensor" : "in the configuration", x, own ? " own buffers" : "", s.c_str(), a.vals().c_str());
    CALL(mli_mov_tensor_sync(&a.t, &c, &o.t));
    auto src = [&](int i, int k, int &sp) { int dd = p[i]; sp = k * (int)c.sub_sample_step[dd] + (int)c.offset[dd] - c.padding_pre[dd]; return sp >= 0 && sp < (int)a.shape[dd]; };
    std::vector<uint8_t> ref = o.before; int i[4]; int nn[4] = {1, 1, 1, 1}; for (int k = 0; k < R; k++) nn[k] = n[k];
    for (i[0] = 0; i[0] < nn[0]; i[0]++) for (i[1] = 0; i[1] < nn[1]; i[1]++) for (i[2] = 0; i[2] < nn[2]; i[2]++) for (i[3] = 0; i[3] < nn[3]; i[3]++) {
        int sp[4] = {0, 0, 0, 0}; bool in = true; long off = 0; for (int k = 0; k < R; k++) { int v; in &= src(k, i[k], v); sp[p[k]] = v; off += (long)(i[k] + (int)c.dst_offset[k]) * o.st[k]; }
        int64_t v = in ? a.get(sp) : 0; memcpy(ref.data() + o.guard + (size_t)off * e.b, &v, e.b); }
    for (size_t k = 0; k < o.bytes; k++) if (o.mem[k] != ref[k]) { d += fmt("\nout: byte %ld is %d, expected %d", (long)k - (long)o.guard, o.mem[k], ref[k]); return false; }
    if ((int)o.t.rank != R || o.t.el_type != e.t) { d += "\nrank or type of the output is wrong"; return false; }
    for (int k = 0; k < R; k++) if (o.t.shape[k] != o.shape[k] || o.t.mem_stride[k] != o.st[k]) { d += fmt("\nout dim %d: shape %u stride %d, expected %u %d", k, o.t.shape[k], o.t.mem_stride[k], o.shape[k], o.st[k]); return false; }
    if (perax) { auto &O = o.t.el_params.sa; if (O.dim != xo) { d += fmt("\nquantised dimension %d, expected %d", O.dim, xo); return false; }
        if (own) { for (int k = 0; k < n[xo]; k++) { int v; bool in = src(xo, k, v); int w = k + (int)c.dst_offset[xo] + 2; dsc0[w] = in ? sc.p()[v] : 1; dzp0[w] = in ? zp.p()[v] : 0; dfb0[w] = in ? fb.p()[v] : 0; }
            if (O.scale.mem.pi16 != dsc.p() || dsc0 != dsc.v || dzp0 != dzp.v || dfb0 != dfb.v) { d += "\nquantisation parameters of the output are wrong"; return false; } }
        else if (O.scale.mem.pi16 != sc.p() || O.zero_point.mem.pi16 != zp.p() || O.scale_frac_bits.mem.pi8 != fb.p()) { d += "\nquantisation parameters of the output are wrong"; return false; } }
    else if (e.t == MLI_EL_SA_8 || e.t == MLI_EL_SA_32) { auto &O = o.t.el_params.sa; if (O.dim != -1 || O.scale.mem.i16 != q.s || O.zero_point.mem.i16 != q.z || O.scale_frac_bits.mem.i8 != q.f) { d += "\nquantisation parameters of the output are wrong"; return false; } }
    else if (o.t.el_params.fx.frac_bits != frac) { d += "\nfraction bits of the output are wrong"; return false; }
    return frozen({&a}, d);
}
FAMILY(permute) {
    int ty = (int)r.in(0, 2), b = ty == 1 ? 2 : 1, R = (int)r.in(1, 4), p[4]; auto et = ty == 0 ? MLI_EL_FX_8 : ty == 1 ? MLI_EL_FX_16 : MLI_EL_SA_8;
    Tn a, o; rnd_shape(r, a, R, 6); rnd_perm(r, R, p); rnd_strides(r, a, r.chance(1, 4) ? 2 : 1); o.rank = R; for (int i = 0; i < R; i++) o.shape[i] = a.shape[p[i]]; rnd_strides(r, o, r.chance(1, 4) ? 2 : 1);
    a.alloc(r, et, b, 0); o.alloc(r, et, b, 8); mli_permute_cfg c; memset(&c, 0, sizeof c); std::string s; for (int i = 0; i < R; i++) { c.perm_dim[i] = p[i]; s += fmt(" %d", p[i]); }
    bool perax = ty == 2 && r.chance(1, 2), own = r.chance(1, 2); int x = perax ? (int)r.in(0, R - 1) : -1, xo = -1, qn = perax ? (int)a.shape[x] : 0; for (int i = 0; i < R; i++) if (p[i] == x) xo = i;
    Buf<int16_t> sc(r, qn), zp(r, qn), dsc(r, qn), dzp(r, qn); Buf<int8_t> fb(r, qn), dfb(r, qn); auto dsc0 = dsc.v, dzp0 = dzp.v; auto dfb0 = dfb.v; SQ q = rnd_sq(r); int frac = (int)r.in(-8, 20);
    if (perax) { auto &P = a.t.el_params.sa; P.dim = x; P.scale.mem.pi16 = sc.p(); P.zero_point.mem.pi16 = zp.p(); P.scale_frac_bits.mem.pi8 = fb.p(); P.scale.capacity = P.zero_point.capacity = 2 * qn; P.scale_frac_bits.capacity = qn;
        if (own) { auto &O = o.t.el_params.sa; O.scale.mem.pi16 = dsc.p(); O.zero_point.mem.pi16 = dzp.p(); O.scale_frac_bits.mem.pi8 = dfb.p(); O.scale.capacity = O.zero_point.capacity = 2 * qn; O.scale_frac_bits.capacity = qn; } }
    else if (ty == 2) set_sq(a.t, q); else a.t.el_params.fx.frac_bits = (int8_t)frac;
    a.snap(); o.snap();
    d = fmt("permute type %d in %s out %s order%s quantised dim %d%s\nin %s", ty, a.str().c_str(), o.str().c_str(), s.c_str(), x, own ? " own buffers" : "", a.vals().c_str());
    CALL((ty == 0 ? mli_krn_permute_fx8 : ty == 1 ? mli_krn_permute_fx16 : mli_krn_permute_sa8)(&a.t, &c, &o.t));
    if (!o.expect([&](const int *i) { int k[4] = {0, 0, 0, 0}; for (int z = 0; z < R; z++) k[p[z]] = i[z]; return (i128)a.get(k); }, d, "out")) return false;
    bool ok = true;
    if (perax) { auto &O = o.t.el_params.sa; ok = O.dim == xo; if (own) { for (int k = 0; k < qn; k++) { dsc0[k + 2] = sc.p()[k]; dzp0[k + 2] = zp.p()[k]; dfb0[k + 2] = fb.p()[k]; } ok &= O.scale.mem.pi16 == dsc.p() && dsc0 == dsc.v && dzp0 == dzp.v && dfb0 == dfb.v; }
        else ok &= O.scale.mem.pi16 == sc.p() && O.zero_point.mem.pi16 == zp.p() && O.scale_frac_bits.mem.pi8 == fb.p(); }
    else if (ty == 2) { auto &O = o.t.el_params.sa; ok = O.dim == -1 && O.scale.mem.i16 == q.s && O.zero_point.mem.i16 == q.z && O.scale_frac_bits.mem.i8 == q.f; }
    else ok = o.t.el_params.fx.frac_bits == frac;
    if (!ok) { d += "\nquantisation parameters of the output are wrong"; return false; }
    return frozen({&a}, d);
}
FAMILY(broadcast) {
    using namespace snps_arc::metaware::mli;
    int R = (int)r.in(1, 4), b = (int)r.pick({1, 2, 4}); Tn a, o; rnd_shape(r, o, R, 5); a.rank = R; for (int i = 0; i < R; i++) a.shape[i] = r.chance(1, 2) ? 1 : o.shape[i];
    rnd_strides(r, a); rnd_strides(r, o); a.alloc(r, MLI_EL_SA_8, b, 0); o.alloc(r, MLI_EL_SA_8, b, 8); a.snap(); o.snap();
    Tensor<InternalBuffer, 4> ts(InternalBuffer((uint64_t)a.at(0), a.t.data.capacity, b), a.shape, a.st, R), td(InternalBuffer((uint64_t)o.at(0), o.t.data.capacity, b), o.shape, o.st, R);
    d = fmt("MoveBroadcast element size %d in %s out %s\nin %s", b, a.str().c_str(), o.str().c_str(), a.vals().c_str());
    alignas(ref::MoveBroadcast) static char obj[sizeof(ref::MoveBroadcast)]; auto *k = (ref::MoveBroadcast *)obj;
    k->m_tile_src = ts; k->m_tile_dst = td; CALL(k->ref::MoveBroadcast::Issue());
    return o.expect([&](const int *i) { int k[4] = {0, 0, 0, 0}; for (int z = 0; z < R; z++) k[z] = a.shape[z] == o.shape[z] ? i[z] : 0; return (i128)a.get(k); }, d, "out") && frozen({&a}, d);
}
static struct Boost { Boost() { for (auto &f : fams()) f.weight = 100; } } boost;
int main(int c, char **v) { return h_main(c, v); }
