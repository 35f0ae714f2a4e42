// Tensors with guard zones and arbitrary strides for the conformance harness.
#pragma once
#include "h.hpp"
#include "mli_types.h"
#include "mli_api.h"
struct Tn {
    int rank = 0, esz = 1; uint32_t shape[4] = {1, 1, 1, 1}; int32_t st[4] = {0, 0, 0, 0};
    uint8_t *mem = nullptr; size_t bytes = 0, guard = 0; std::vector<uint8_t> before; mli_tensor t;
    Tn() { memset(&t, 0, sizeof t); }
    Tn(const Tn &) = delete;
    Tn &operator=(const Tn &) = delete;
    ~Tn() { free(mem); }
    long extent() const { long e = 1; for (int i = 0; i < rank; i++) e += (long)(shape[i] - 1) * st[i]; return e; }
    long count() const { long e = 1; for (int i = 0; i < rank; i++) e *= shape[i]; return e; }
    // guard bytes of pseudo-random content are kept on both sides of outputs; inputs end exactly at their last element
    void alloc(Rng &r, mli_element_type et, int es, int guard_elems) {
        esz = es; guard = (size_t)guard_elems * es; size_t data = (size_t)extent() * es;
        bytes = data + 2 * guard; free(mem); mem = (uint8_t *)malloc(bytes);
        for (size_t i = 0; i < bytes; i++) mem[i] = (uint8_t)r.next();
        memset(&t, 0, sizeof t); t.data.capacity = data; t.data.mem.pi8 = (int8_t *)(mem + guard); t.rank = rank; t.el_type = et;
        for (int i = 0; i < 4; i++) { t.shape[i] = i < rank ? shape[i] : 0; t.mem_stride[i] = i < rank ? st[i] : 0; }
    }
    int64_t rd(const uint8_t *p) const { switch (esz) { case 1: return *(int8_t *)p; case 2: { int16_t v; memcpy(&v, p, 2); return v; } case 4: { int32_t v; memcpy(&v, p, 4); return v; } default: { int64_t v; memcpy(&v, p, 8); return v; } } }
    void wr(uint8_t *p, int64_t v) const { memcpy(p, &v, esz); }
    uint8_t *at(long o) { return mem + guard + (size_t)o * esz; }
    long off(const int *i) const { long o = 0; for (int k = 0; k < rank; k++) o += (long)i[k] * st[k]; return o; }
    int64_t get(const int *i) { return rd(at(off(i))); }
    int64_t get(int a, int b = 0, int c = 0, int d = 0) { int i[4] = {a, b, c, d}; return get(i); }
    void set(const int *i, int64_t v) { wr(at(off(i)), v); }
    int64_t old(const int *i) const { return rd(before.data() + guard + (size_t)off(i) * esz); }
    void fill(Rng &r, int w) { for (long o = 0; o < extent(); o++) wr(at(o), r.word(w)); }
    void fillr(Rng &r, int64_t lo, int64_t hi) { for (long o = 0; o < extent(); o++) wr(at(o), r.in(lo, hi)); }
    void snap() { before.assign(mem, mem + bytes); }
    bool untouched() const { return !memcmp(before.data(), mem, bytes); }
    bool each(const std::function<bool(const int *)> &f) const {
        int i[4]; uint32_t n[4]; for (int k = 0; k < 4; k++) n[k] = k < rank ? shape[k] : 1;
        for (i[0] = 0; i[0] < (int)n[0]; i[0]++) for (i[1] = 0; i[1] < (int)n[1]; i[1]++) for (i[2] = 0; i[2] < (int)n[2]; i[2]++) for (i[3] = 0; i[3] < (int)n[3]; i[3]++) if (!f(i)) return false;
        return true;
    }
    // every element equals want(i), every other byte is unchanged
    bool expect(const std::function<i128(const int *)> &want, std::string &d, const char *what) {
        std::vector<uint8_t> ref = before;
        bool ok = each([&](const int *i) {
            i128 w = want(i); int64_t g = get(i);
            if ((i128)g != w) { d += fmt("\n%s[%d,%d,%d,%d] = %lld, expected %lld", what, i[0], i[1], i[2], i[3], (long long)g, (long long)w); return false; }
            memcpy(ref.data() + guard + (size_t)off(i) * esz, &g, esz); return true; });
        if (!ok) return false;
        for (size_t k = 0; k < bytes; k++) if (mem[k] != ref[k]) { d += fmt("\n%s: byte at element offset %ld (outside the tensor elements) was changed", what, ((long)k - (long)guard) / esz); return false; }
        return true;
    }
    std::string str() const { std::string s = fmt("rank %d shape [", rank); for (int i = 0; i < rank; i++) s += fmt("%u ", shape[i]); s += "] strides ["; for (int i = 0; i < rank; i++) s += fmt("%d ", st[i]); return s + "]"; }
    std::string vals(int maxn = 40) { std::string s; int n = 0; each([&](const int *i) { s += fmt("%lld ", (long long)get(i)); return ++n < maxn; }); return s; }
};
inline void rnd_strides(Rng &r, Tn &t, int inner = 1) {
    bool pad = r.chance(1, 2); int32_t s = inner;
    for (int i = t.rank - 1; i >= 0; i--) { t.st[i] = s; s = s * (int)t.shape[i] + (pad && r.chance(1, 2) ? (int)r.in(0, 3) : 0); }
}
inline void rnd_shape(Rng &r, Tn &t, int rank, int mx) { t.rank = rank; for (int i = 0; i < rank; i++) t.shape[i] = (uint32_t)r.in(1, mx); }
inline void same_shape(Tn &t, const Tn &o) { t.rank = o.rank; memcpy(t.shape, o.shape, sizeof t.shape); }
#define CALL(expr) do { mli_status st_ = (expr); if (st_ != MLI_STATUS_OK) { d += fmt("\n" #expr " returned %d", (int)st_); return false; } } while (0)
inline bool frozen(std::initializer_list<Tn *> l, std::string &d) { for (auto *t : l) if (!t->untouched()) { d += "\nan input buffer was modified"; return false; } return true; }
