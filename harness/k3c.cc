#include "k3.hpp"
using namespace m3;
bool seed_line(const std::string &, std::string &) { return true; }
// 5-dimensional view {batch, rows, columns, group, channels} of a rank 4 tensor {batch, rows, columns, channels}
static Tensor<NoBuffer, 5> t5(const Tn &t) { uint32_t s[5] = {t.shape[0], t.shape[1], t.shape[2], 1, t.shape[3]}; int32_t m[5] = {t.st[0], t.st[1], t.st[2], t.st[2], t.st[3]}; return Tensor<NoBuffer, 5>(s, m); }
// weights: rank 4 {rows, columns, in channels, out channels}
static Tensor<NoBuffer, 5> w5(const Tn &t) { uint32_t s[5] = {1, t.shape[0], t.shape[1], t.shape[2], t.shape[3]}; int32_t m[5] = {t.st[0], t.st[0], t.st[1], t.st[2], t.st[3]}; return Tensor<NoBuffer, 5>(s, m); }
static Tensor<NoBuffer, 3> w3(const Tn &t) { uint32_t s[3] = {t.shape[0], t.shape[1], t.shape[3]}; int32_t m[3] = {t.st[0], t.st[1], t.st[3]}; return Tensor<NoBuffer, 3>(s, m); }
static void geom(Rng &r, int &n, int &k, int &s, int &d, int &pb, int &pe, int &o) {
    k = (int)r.in(1, 4); s = (int)r.in(1, 3); d = (int)r.in(1, 3); int e = (k - 1) * d + 1; pb = (int)r.in(0, std::min(e - 1, 5)); pe = (int)r.in(0, std::min(e - 1, 5));
    n = (int)r.in(std::max(1, e - pb - pe), std::max(1, e - pb - pe) + 5); o = (n + pb + pe - e) / s + 1; if (o > 1 && r.chance(1, 6)) o--;
}
template <int KIND> static bool conv(Rng &r, std::string &d) {
    int H, W, kh, kw, sh, sw, dh, dw, pt, pb, pl, pr, oh, ow; Tn a, w, o;
    if (KIND == 2) {
        kh = (int)r.in(1, 4); kw = (int)r.in(1, 4); sh = (int)r.in(1, kh); sw = (int)r.in(1, kw); dh = dw = 1; H = (int)r.in(1, 5); W = (int)r.in(1, 5);
        pt = (int)r.in(0, kh - 1); pb = (int)r.in(0, kh - 1); pl = (int)r.in(0, kw - 1); pr = (int)r.in(0, kw - 1);
        oh = (H - 1) * sh + kh - pt - pb; ow = (W - 1) * sw + kw - pl - pr; if (oh < 1) { pt = pb = 0; oh = (H - 1) * sh + kh; } if (ow < 1) { pl = pr = 0; ow = (W - 1) * sw + kw; }
    } else { geom(r, H, kh, sh, dh, pt, pb, oh); geom(r, W, kw, sw, dw, pl, pr, ow); }
    int ci = (int)r.in(1, 4), co = KIND == 1 ? ci : (int)r.in(1, 4), nb = KIND == 1 ? (int)r.in(1, 3) : 1;
    a.rank = w.rank = o.rank = 4; uint32_t as[4] = {(uint32_t)nb, (uint32_t)H, (uint32_t)W, (uint32_t)ci}, ws[4] = {(uint32_t)kh, (uint32_t)kw, (uint32_t)(KIND == 1 ? 1 : ci), (uint32_t)co}, os[4] = {(uint32_t)nb, (uint32_t)oh, (uint32_t)ow, (uint32_t)co};
    memcpy(a.shape, as, sizeof as); memcpy(w.shape, ws, sizeof ws); memcpy(o.shape, os, sizeof os); rnd_strides(r, a); rnd_strides(r, w); rnd_strides(r, o);
    a.alloc(r, MLI_EL_SA_8, 1, 0); w.alloc(r, MLI_EL_SA_8, 1, 0); o.alloc(r, MLI_EL_SA_32, 4, 8); a.fill(r, 8); w.fill(r, 8); a.snap(); w.snap(); o.snap();
    int8_t zp = (int8_t)r.word(8); std::vector<int8_t> wz(co, 0);
    constexpr unsigned WR = KIND == 1 ? 3 : 5;
    using CS = std::conditional_t<KIND == 0, ref::Conv2d_CS, std::conditional_t<KIND == 1, ref::DepthwiseConv2d_CS, ref::TransposeConv2D_CS>>;
    TensorIterator<NoBuffer, 5, 5> ti(t5(a)), to(t5(o));
    uint32_t zs[1] = {(uint32_t)co}, one[1] = {1}; const int32_t ord[5] = {-1, -1, -1, -1, 0}, msk[5] = {1, 1, 1, 1, 0}, all[5] = {1, 1, 1, 1, 1}, wo3[5] = {-1, 0, 1, -1, 2};
    TensorIterator<NoBuffer, 1, 5> tz(Tensor<NoBuffer, 1>(zs), to, ord, msk), tiz(Tensor<NoBuffer, 1>(one), to, ord, all);
    Mem cm(r, sizeof(CS)); CS *cs;
    if constexpr (KIND == 0) cs = new (cm.p()) CS(PlatformDescription(), ti, tiz, TensorIterator<NoBuffer, 5, 5>(w5(w)), tz, Conv2DConfig(sh, sw, pt, pl, pb, pr, dh, dw, 1), to);
    else if constexpr (KIND == 1) cs = new (cm.p()) CS(PlatformDescription(), ti, tiz, TensorIterator<NoBuffer, 3, 5>(w3(w), to, wo3, msk), tz, DwConv2DConfig(sh, sw, pt, pl, pb, pr, dh, dw), to);
    else cs = new (cm.p()) CS(PlatformDescription(), ti, tiz, TensorIterator<NoBuffer, 5, 5>(w5(w)), tz, TransposeConv2DConfig(sh, sw, pt, pl, pb, pr), to);
    (void)WR;
    Place pa(r, a), po(r, o), pw(r, w), pz(r, &zp), pwz(r, wz.data());
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, (uint32_t)a.extent(), 1), OffsetBuffer(po.off, 1, (uint32_t)o.extent() * 4, 4), OffsetBuffer(pw.off, 2, (uint32_t)w.extent(), 1), OffsetBuffer(pz.off, 3, 1, 1), OffsetBuffer(pwz.off, 4, co, 1), OffsetBuffer()));
    d = fmt("%s 3.0 stride %dx%d dilation %dx%d padding t%d l%d b%d r%d input zero point %d in %s weights %s out %s\nin %s\nweights %s", KIND == 0 ? "Conv2d" : KIND == 1 ? "DepthwiseConv2d" : "TransposeConv2D", sh, sw, dh, dw, pt, pl, pb, pr, zp, a.str().c_str(), w.str().c_str(), o.str().c_str(), a.vals().c_str(), w.vals().c_str());
    uint64_t bases[5] = {pa.base, po.base, pw.base, pz.base, pwz.base}; RUN3(*cs, bases, 5);
    return o.expect([&](const int *i) {
        i128 v = 0;
        for (int y = 0; y < kh; y++) for (int x = 0; x < kw; x++) for (int c = 0; c < (KIND == 1 ? 1 : ci); c++) {
            int h, q; bool in;
            if (KIND == 2) { int u = i[1] + pt - y, t = i[2] + pl - x; in = u >= 0 && t >= 0 && u % sh == 0 && t % sw == 0; h = u / sh; q = t / sw; }
            else { h = i[1] * sh - pt + y * dh; q = i[2] * sw - pl + x * dw; in = h >= 0 && q >= 0; }
            in = in && h < H && q < W;
            v += (i128)w.get(y, x, c, i[3]) * (in ? a.get(i[0], h, q, KIND == 1 ? i[3] : c) : (int64_t)zp);
        }
        return v; }, d, "out") && frozen({&a, &w}, d);
}
FAMILY(conv2d3) { return conv<0>(r, d); }
FAMILY(dwconv3) { return conv<1>(r, d); }
FAMILY(trconv3) { return conv<2>(r, d); }
FAMILY(matmul3) {
    int h = (int)r.in(1, 6), n = (int)r.in(1, 9), w = (int)r.in(1, 6); Tn a, b, o; a.rank = b.rank = o.rank = 2; a.shape[0] = h; a.shape[1] = n; b.shape[0] = n; b.shape[1] = w; o.shape[0] = h; o.shape[1] = w;
    rnd_strides(r, a); rnd_strides(r, b); rnd_strides(r, o); a.alloc(r, MLI_EL_SA_8, 1, 0); b.alloc(r, MLI_EL_SA_8, 1, 0); o.alloc(r, MLI_EL_SA_32, 4, 8); a.fill(r, 8); b.fill(r, 8); a.snap(); b.snap(); o.snap();
    int8_t z[2] = {(int8_t)r.word(8), (int8_t)r.word(8)};
    TensorIterator<NoBuffer, 2, 2> ta(tens<2>(a)), tb(tens<2>(b)), to(tens<2>(o)); using CS = ref::MatMul_CS; Mem cm(r, sizeof(CS)); CS *cs = new (cm.p()) CS(PlatformDescription(), ta, tb, to);
    Place pa(r, a), pb(r, b), po(r, o), pz(r, z);
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, (uint32_t)a.extent(), 1), OffsetBuffer(pb.off, 1, (uint32_t)b.extent(), 1), OffsetBuffer(po.off, 2, (uint32_t)o.extent() * 4, 4), OffsetBuffer(pz.off, 3, 2, 1), OffsetBuffer()));
    d = fmt("MatMul zero points %d %d left %s right %s out %s\nleft %s\nright %s", z[0], z[1], a.str().c_str(), b.str().c_str(), o.str().c_str(), a.vals().c_str(), b.vals().c_str());
    uint64_t bases[4] = {pa.base, pb.base, po.base, pz.base}; RUN3(*cs, bases, 4);
    return o.expect([&](const int *i) { i128 v = 0; for (int k = 0; k < n; k++) v += (i128)(a.get(i[0], k) - z[0]) * (b.get(k, i[1]) - z[1]); return v; }, d, "out") && frozen({&a, &b}, d);
}
FAMILY(fc3) {
    int n = (int)r.in(1, 20), w = (int)r.in(1, 6); Tn a, b, o; a.rank = b.rank = o.rank = 2; a.shape[0] = o.shape[0] = 1; a.shape[1] = b.shape[0] = n; b.shape[1] = o.shape[1] = w;
    a.st[1] = o.st[1] = 1; a.st[0] = n; o.st[0] = w; rnd_strides(r, b); a.alloc(r, MLI_EL_SA_8, 1, 0); o.alloc(r, MLI_EL_SA_32, 4, 8); a.fill(r, 8); a.snap(); o.snap();
    int16_t z = r.chance(1, 3) ? 0 : (int16_t)r.word(8); b.esz = 1; long e = b.extent(); b.alloc(r, MLI_EL_SA_8, 1, 2); b.fill(r, 8); memcpy(b.at(e), &z, 2); b.snap();
    TensorIterator<NoBuffer, 2, 2> ta(tens<2>(a)), tb(tens<2>(b)), to(tens<2>(o)); uint32_t one[1] = {1}; const int32_t ord[2] = {-1, 0}, msk[2] = {1, 0}; TensorIterator<NoBuffer, 1, 2> tz(Tensor<NoBuffer, 1>(one), to, ord, msk);
    using CS = ref::FullyConnected_CS; Mem cm(r, sizeof(CS)); CS *cs = new (cm.p()) CS(PlatformDescription(), ta, tb, tz, FullyConnectedConfig(), to);
    Place pa(r, a), pb(r, b), po(r, o);
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, n, 1), OffsetBuffer(po.off, 1, 4 * w, 4), OffsetBuffer(pb.off, 2, (uint32_t)e + 2, 1), OffsetBuffer()));
    d = fmt("FullyConnected 3.0 zero point of the weights %d in %s weights %s out %s\nin %s\nweights %s", z, a.str().c_str(), b.str().c_str(), o.str().c_str(), a.vals().c_str(), b.vals().c_str());
    uint64_t bases[3] = {pa.base, po.base, pb.base}; RUN3(*cs, bases, 3);
    return o.expect([&](const int *i) { i128 v = 0; for (int k = 0; k < n; k++) v += (i128)a.get(0, k) * (b.get(k, i[1]) - z); return v; }, d, "out") && frozen({&a, &b}, d);
}
static struct Boost { Boost() { for (auto &f : fams()) f.weight = 100; } } boost;
int main(int c, char **v) { return h_main(c, v); }
