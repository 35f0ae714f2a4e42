// Helpers for the 3.0 interface: compile-time object -> private data -> run-time object placed in memory with arbitrary leftovers.
#pragma once
#include "tensor.hpp"
#include <assert.h>
#define private public
#include "mli_types.hpp"
#include "mli_iterator.hpp"
#include "mli_compiler_api.hpp"
#include "mli_runtime_api.hpp"
#include "mli_kernels_factory_ref.hpp"
#include "mli_ref_runtime_api.hpp"
#undef private
namespace m3 = snps_arc::metaware::mli;
struct Mem { std::vector<char> v; Mem(Rng &r, size_t n) : v(n + 16) { for (auto &c : v) c = (char)r.next(); } char *p() { return (char *)(((uintptr_t)v.data() + 15) & ~(uintptr_t)15); } };
// dims of a 3.0 tensor of rank RK; dimensions beyond t.rank are 1
template <unsigned RK, class B = m3::NoBuffer> m3::Tensor<B, RK> tens(const Tn &t) {
    uint32_t s[RK]; int32_t m[RK]; for (unsigned i = 0; i < RK; i++) { s[i] = (int)i < t.rank ? t.shape[i] : 1; m[i] = (int)i < t.rank ? t.st[i] : 1; }
    return m3::Tensor<B, RK>(s, m, (uint32_t)t.rank);
}
// the memory a tensor lives in, seen as base + offset
struct Place { uint64_t base; uint32_t off; Place(Rng &r, Tn &t) : off((uint32_t)r.in(0, 64) * 4) { base = (uint64_t)t.at(0) - off; } Place(Rng &r, void *p) : off((uint32_t)r.in(0, 64) * 4) { base = (uint64_t)p - off; } };
struct Runner3 {
    Mem priv, obj; m3::ExecutionInterface *k;
    template <class CS> Runner3(Rng &r, CS &cs, uint64_t *bases, int n, mli_status &st) : priv(r, cs.GetKernelPrivateDataSize()), obj(r, cs.GetRuntimeObjectSize()) {
        st = cs.GetKernelPrivateData(priv.p());
        k = m3::ExecutionInterface::Create(obj.p(), cs.GetRuntimeObjectSize(), priv.p(), cs.GetKernelPrivateDataSize(), bases, n);
    }
};
#define RUN3(cs, bases, n) do { mli_status st3; Runner3 rr(r, cs, bases, n, st3); CALL(st3); if (!rr.k) { d += "\nno run-time object was created"; return false; } CALL(rr.k->Issue()); } while (0)
