#include "k3.hpp"
using namespace m3;
bool seed_line(const std::string &, std::string &) { return true; }
template <class CS> static bool red(Rng &r, std::string &d, bool mx) {
    int b = r.pick({1, 2, 4}), R = (int)r.in(1, 4), x = (int)r.in(0, R - 1); Tn a, o; rnd_shape(r, a, R, 6); bool lng = r.chance(1, 8); if (lng) { for (int i = 0; i < R; i++) a.shape[i] = i == x ? (uint32_t)r.in(100, 300) : 1 + a.shape[i] % 2; if (!mx && b == 1) b = 2; } same_shape(o, a); o.shape[x] = 1; rnd_strides(r, a, (int)r.in(1, 3)); rnd_strides(r, o, (int)r.in(1, 3));
    a.alloc(r, b == 1 ? MLI_EL_SA_8 : b == 2 ? MLI_EL_FX_16 : MLI_EL_SA_32, b, 0); o.alloc(r, a.t.el_type, b, 8); a.fill(r, mx ? 8 * b : 8 * b - (lng ? 9 : 3)); a.snap(); o.snap();
    TensorIterator<NoBuffer, 4, 4> ti(tens<4>(a)), to(tens<4>(o)); Mem cm(r, sizeof(CS)); CS *cs = new (cm.p()) CS(PlatformDescription(), ti, ReduceOpConfig(x), to);
    Place pa(r, a), po(r, o);
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, (uint32_t)(a.extent() * b), b), OffsetBuffer(po.off, 1, (uint32_t)(o.extent() * b), b), OffsetBuffer()));
    d = fmt("Reduce%s %d-byte axis %d in %s out %s\nin %s", mx ? "Max" : "Sum", b, x, a.str().c_str(), o.str().c_str(), a.vals().c_str());
    uint64_t bases[2] = {pa.base, po.base}; RUN3(*cs, bases, 2);
    return o.expect([&](const int *i) {
        int j[4] = {0, 0, 0, 0}; for (int k = 0; k < R; k++) j[k] = i[k];
        i128 v = 0; for (j[x] = 0; j[x] < (int)a.shape[x]; j[x]++) v = mx ? (j[x] ? std::max<i128>(v, a.get(j)) : (i128)a.get(j)) : v + a.get(j);
        return b == 1 ? (i128)(int8_t)v : b == 2 ? (i128)(int16_t)v : v; }, d, "out") && frozen({&a}, d);
}
FAMILY(reducesum) { return red<ref::ReduceSum_CS>(r, d, false); }
FAMILY(reducemax) { return red<ref::ReduceMax_CS>(r, d, true); }
template <class CS> static bool pool(Rng &r, std::string &d, bool mx) {
    int b = mx ? r.pick({1, 2}) : 1, bo = mx ? b : 4; Tn a, o;
    int kh = (int)r.in(1, 4), kw = (int)r.in(1, 4), sh = (int)r.in(1, 3), sw = (int)r.in(1, 3), pt = (int)r.in(0, kh - 1), pb = (int)r.in(0, kh - 1), pl = (int)r.in(0, kw - 1), pr = (int)r.in(0, kw - 1);
    a.rank = o.rank = 4; a.shape[0] = (uint32_t)r.in(1, 3); a.shape[3] = (uint32_t)r.in(1, r.chance(1, 4) ? 9 : 3);
    a.shape[1] = (uint32_t)r.in(std::max(1, kh - pt - pb), 7); a.shape[2] = (uint32_t)r.in(std::max(1, kw - pl - pr), 7);
    o.shape[0] = a.shape[0]; o.shape[3] = a.shape[3]; o.shape[1] = ((int)a.shape[1] + pt + pb - kh) / sh + 1; o.shape[2] = ((int)a.shape[2] + pl + pr - kw) / sw + 1;
    rnd_strides(r, a); rnd_strides(r, o);
    a.alloc(r, b == 1 ? MLI_EL_SA_8 : MLI_EL_FX_16, b, 0); o.alloc(r, bo == 1 ? MLI_EL_SA_8 : bo == 2 ? MLI_EL_FX_16 : MLI_EL_SA_32, bo, 8); a.fill(r, 8 * b); a.snap(); o.snap();
    TensorIterator<NoBuffer, 4, kPoolIterRank> ti(tens<4>(a)), to(tens<4>(o)); Mem cm(r, sizeof(CS)); CS *cs = new (cm.p()) CS(PlatformDescription(), ti, PoolOpConfig(kh, kw, sh, sw, pt, pl, pb, pr), to);
    Place pa(r, a), po(r, o);
    CALL(cs->AttachBufferOffsets(OffsetBuffer(pa.off, 0, (uint32_t)(a.extent() * b), b), OffsetBuffer(po.off, 1, (uint32_t)(o.extent() * bo), bo), OffsetBuffer()));
    d = fmt("%sPool2D 3.0 %d-byte kernel %dx%d stride %dx%d padding t%d l%d b%d r%d in %s out %s\nin %s", mx ? "Max" : "Sum", b, kh, kw, sh, sw, pt, pl, pb, pr, a.str().c_str(), o.str().c_str(), a.vals().c_str());
    uint64_t bases[2] = {pa.base, po.base}; RUN3(*cs, bases, 2);
    return o.expect([&](const int *i) {
        i128 v = 0; bool first = true;
        for (int y = 0; y < kh; y++) for (int x = 0; x < kw; x++) {
            int j[4] = {i[0], i[1] * sh - pt + y, i[2] * sw - pl + x, i[3]};
            if (j[1] < 0 || j[1] >= (int)a.shape[1] || j[2] < 0 || j[2] >= (int)a.shape[2]) continue;
            v = mx ? (first ? (i128)a.get(j) : std::max<i128>(v, a.get(j))) : v + a.get(j); first = false;
        }
        return v; }, d, "out") && frozen({&a}, d);
}
FAMILY(maxpool3) { return pool<ref::MaxPool2D_CS>(r, d, true); }
FAMILY(sumpool3) { return pool<ref::SumPool2D_CS>(r, d, false); }
static struct Boost { Boost() { for (auto &f : fams()) f.weight = 100; } } boost;
int main(int c, char **v) { return h_main(c, v); }
