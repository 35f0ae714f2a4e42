#include "k3.hpp"
using namespace m3;
bool seed_line(const std::string &, std::string &) { return true; }
static ref::KernelsFactory *fac() { static PlatformDescription pd; static ref::KernelsFactory f(pd); return &f; }
static const int BY[2] = {1, 4};
static i128 sat32(i128 v) { return clampw(v, 32); }
FAMILY(rescale) {
    int bi = r.pick({1, 4}), bo = r.pick({1, 4}), R = (int)r.in(1, 4), x = (int)r.in(-1, R - 1); Tn a, o; rnd_shape(r, a, R, 5); same_shape(o, a); rnd_strides(r, a); rnd_strides(r, o);
    a.alloc(r, bi == 1 ? MLI_EL_SA_8 : MLI_EL_SA_32, bi, 0); o.alloc(r, bo == 1 ? MLI_EL_SA_8 : MLI_EL_SA_32, bo, 8); a.fill(r, 8 * bi);
    uint32_t n = x < 0 ? 1 : a.shape[x]; std::vector<int8_t> ib8(n), ob8(n), sh(n); std::vector<int32_t> ib4(n), ob4(n); std::vector<int16_t> sc(n);
    for (uint32_t i = 0; i < n; i++) { ib8[i] = (int8_t)r.word(8); ob8[i] = (int8_t)r.word(8); ib4[i] = (int32_t)r.word(32); ob4[i] = (int32_t)r.word(32); sc[i] = (int16_t)r.word(16); sh[i] = (int8_t)(r.chance(3, 4) ? r.in(0, 40) : r.word(8)); }
    TensorIterator<NoBuffer, 4, 4> ti(tens<4>(a)), to(tens<4>(o)); uint32_t pn[1] = {n}; int32_t ord[4], zi[4]; for (int i = 0; i < 4; i++) { ord[i] = i == x ? 0 : kSkipIterDim; zi[i] = i != x; }
    Tensor<NoBuffer, 1> pt(pn); auto tp = x < 0 ? TensorIterator<NoBuffer, 1, 4>(pt) : TensorIterator<NoBuffer, 1, 4>(pt, ti, ord, zi);
    RescaleConfig cfg(x); Mem cm(r, fac()->Rescale_CS_GetSize()); auto *cs = fac()->Rescale_CS(cm.p(), ti, cfg, tp, to);
    uint32_t es = cs->GetEncodedParamsSize(); Mem enc(r, es + 256 + 64);
    Place pa(r, a), po(r, o), pp(r, enc.p()); OffsetBuffer bufA(pa.off, 0, (uint32_t)a.extent() * bi, bi), bufO(po.off, 1, (uint32_t)a.extent() * bo, bo), bufP(pp.off, 2, es, 1), none;
    a.snap(); o.snap(); CALL(cs->AttachBufferOffsets(bufA, bufO, bufP, none));
    auto tb = [&](void *p, int b) { return Tensor<Buffer, 1>(Buffer(p, n * b, b), pn); };
    Buffer eb(enc.p(), es, 1);
    CALL(cs->EncodeParams(tb(bi == 1 ? (void *)ib8.data() : ib4.data(), bi), tb(sc.data(), 2), tb(sh.data(), 1), tb(bo == 1 ? (void *)ob8.data() : ob4.data(), bo), eb));
    d = fmt("Rescale %d-byte to %d-byte axis %d in %s out %s scale0 %d shift0 %d in_bias0 %d out_bias0 %d\nin %s", bi, bo, x, a.str().c_str(), o.str().c_str(), sc[0], sh[0], bi == 1 ? ib8[0] : ib4[0], bo == 1 ? ob8[0] : ob4[0], a.vals().c_str());
    uint64_t bases[3] = {pa.base, po.base, pp.base}; RUN3(*cs, bases, 3);
    return o.expect([&](const int *i) {
        int k = x < 0 ? 0 : i[x]; i128 v = sat32((i128)a.get(i) - (bi == 1 ? ib8[k] : ib4[k])) * sc[k]; int s = std::max(-63, std::min(63, (int)sh[k]));
        return clampw(clampw(o_asr_rnd(v, s, 64) + (bo == 1 ? ob8[k] : ob4[k]), 64), 8 * bo); }, d, "out") && frozen({&a}, d);
}
FAMILY(clip) {
    int b = r.pick({1, 4}), R = (int)r.in(1, 4); Tn a, o; rnd_shape(r, a, R, 5); same_shape(o, a); rnd_strides(r, a); rnd_strides(r, o);
    a.alloc(r, b == 1 ? MLI_EL_SA_8 : MLI_EL_SA_32, b, 0); o.alloc(r, MLI_EL_SA_8, b, 8); a.fill(r, 8 * b); int64_t lo = r.word(8 * b), hi = r.word(8 * b); if (lo > hi) std::swap(lo, hi);
    TensorIterator<NoBuffer, 4, 4> ti(tens<4>(a)), to(tens<4>(o)); Mem cm(r, sizeof(ref::Clip_CS)); auto *cs = fac()->Clip_CS(cm.p(), ti, to); Mem enc(r, 8);
    Place pa(r, a), po(r, o), pp(r, enc.p()); a.snap(); o.snap();
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, (uint32_t)(a.extent() * b), b), OffsetBuffer(po.off, 1, (uint32_t)(a.extent() * b), b), OffsetBuffer(pp.off, 2, 2 * b, b), OffsetBuffer()));
    if (b == 1) { int8_t l = (int8_t)lo, h = (int8_t)hi; uint32_t one[1] = {1}; Tensor<Buffer, 1> tl(Buffer(&l, 1, 1), one), th(Buffer(&h, 1, 1), one); Buffer eb(enc.p(), 2, 1); CALL(cs->EncodeParams(tl, th, eb)); }
    else { ((int32_t *)enc.p())[0] = (int32_t)lo; ((int32_t *)enc.p())[1] = (int32_t)hi; }
    d = fmt("Clip %d-byte limits %lld %lld in %s out %s\nin %s", b, (long long)lo, (long long)hi, a.str().c_str(), o.str().c_str(), a.vals().c_str());
    uint64_t bases[3] = {pa.base, po.base, pp.base}; RUN3(*cs, bases, 3);
    return o.expect([&](const int *i) { return (i128)std::min<int64_t>(hi, std::max<int64_t>(lo, a.get(i))); }, d, "out") && frozen({&a}, d);
}
template <class CS> static bool elt(Rng &r, std::string &d, int op, int bi, int bo, CS *(*mk)(void *, TensorIterator<NoBuffer, 4, 4> &, TensorIterator<NoBuffer, 4, 4> &, TensorIterator<NoBuffer, 4, 4> &)) {
    int kind = (int)r.in(0, 2); Tn a, b, o; rnd_shape(r, o, 4, r.chance(1, 4) ? 9 : 4); same_shape(a, o); same_shape(b, o); if (kind) { Tn &s = kind == 1 ? a : b; for (int i = 0; i < 4; i++) s.shape[i] = 1; }
    rnd_strides(r, a); rnd_strides(r, b); rnd_strides(r, o); a.alloc(r, MLI_EL_SA_8, bi, 0); b.alloc(r, MLI_EL_SA_8, bi, 0); o.alloc(r, MLI_EL_SA_8, bo, 8); a.fill(r, 8 * bi); b.fill(r, 8 * bi); a.snap(); b.snap(); o.snap();
    TensorIterator<NoBuffer, 4, 4> ta(tens<4>(a)), tb(tens<4>(b)), to(tens<4>(o)); Mem cm(r, sizeof(CS)); CS *cs = mk(cm.p(), ta, tb, to);
    Place pa(r, a), pb(r, b), po(r, o);
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, (uint32_t)(a.extent() * bi), bi), OffsetBuffer(pb.off, 1, (uint32_t)(b.extent() * bi), bi), OffsetBuffer(po.off, 2, (uint32_t)(o.extent() * bo), bo), OffsetBuffer()));
    d = fmt("%s 3.0 %d-byte to %d-byte left %s right %s out %s\nleft %s\nright %s", (const char *[]){"Add", "Sub", "Mul", "Min", "Max"}[op], bi, bo, a.str().c_str(), b.str().c_str(), o.str().c_str(), a.vals().c_str(), b.vals().c_str());
    uint64_t bases[3] = {pa.base, pb.base, po.base}; RUN3(*cs, bases, 3);
    int z[4] = {0, 0, 0, 0};
    return o.expect([&](const int *i) { i128 x = a.get(kind == 1 ? z : i), y = b.get(kind == 2 ? z : i); return op == 0 ? clampw(sat32(x + y), 8 * bo) : op == 1 ? clampw(sat32(x - y), 8 * bo) : op == 2 ? x * y : op == 3 ? std::min(x, y) : std::max(x, y); }, d, "out") && frozen({&a, &b}, d);
}
#define MK(N) [](void *p, TensorIterator<NoBuffer, 4, 4> &a, TensorIterator<NoBuffer, 4, 4> &b, TensorIterator<NoBuffer, 4, 4> &o) { return new (p) ref::N##_CS(PlatformDescription(), a, b, o); }
FAMILY(eltwise3) {
    int op = (int)r.in(0, 4), b = r.pick({1, 2, 4});
    switch (op) { case 0: return elt<ref::Add_CS>(r, d, op, b, b, MK(Add)); case 1: return elt<ref::Sub_CS>(r, d, op, b, b, MK(Sub)); case 2: return elt<ref::Mul_CS>(r, d, op, b & 3 ? b : 1, 4, MK(Mul)); case 3: return elt<ref::Min_CS>(r, d, op, b, b, MK(Min)); default: return elt<ref::Max_CS>(r, d, op, b, b, MK(Max)); }
}
static struct Boost { Boost() { for (auto &f : fams()) f.weight = 100; } } boost;
int main(int c, char **v) { return h_main(c, v); }
