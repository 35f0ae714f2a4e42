#include "vdrv.h"
#define private public
#define protected public
#if KIND == 0
#include "mli_krn_matmul_compiler.cc"
#include "mli_krn_matmul_runtime.cc"
#else
#include "impl/mli_krn_fully_connected_compiler.cc"
#include "impl/mli_krn_fully_connected_runtime.cc"
#endif
#undef private
#undef protected
using namespace snps_arc::metaware::mli;
#if KIND == 0
// matrix product. Memories: 0 left, 1 right, 2 output, 3 the two zero points
extern "C" int v_mm3(const int8_t *a, int32_t h, int32_t n, int32_t am, uint32_t ao, const int8_t *w, int32_t ow, int32_t wm, uint32_t wo, const int8_t *z, uint32_t zo, int32_t *o, int32_t om, uint32_t oo) {
    uint32_t s[2] = {(uint32_t)h, (uint32_t)n}, v[2] = {(uint32_t)n, (uint32_t)ow}, t[2] = {(uint32_t)h, (uint32_t)ow};
    int32_t m[2] = {am, 1}, q[2] = {wm, 1}, k[2] = {om, 1};
    TensorIterator<NoBuffer, 2, 2> ti(Tensor<NoBuffer, 2>(s, m)), tw(Tensor<NoBuffer, 2>(v, q)), to(Tensor<NoBuffer, 2>(t, k));
    ref::MatMul_CS cs(PlatformDescription(), ti, tw, to);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, 1), OffsetBuffer(wo, 1, 0x7fffffff, 1), OffsetBuffer(oo, 2, 0x7fffffff, 4), OffsetBuffer(zo, 3, 2, 1), OffsetBuffer());
    char priv[sizeof(ref::MatMulPrivateData)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[4] = {(uint64_t)a, (uint64_t)w, (uint64_t)o, (uint64_t)z};
    ref::MatMul r(priv, sizeof priv, bases, 4);
    return r.Issue();
}
#else
// fully connected. Memories: 0 input, 1 weights followed by their zero point, 2 output
extern "C" int v_mm3(const int8_t *a, int32_t n, uint32_t ao, const int8_t *w, int32_t ow, int32_t wm, uint32_t wo, int32_t *o, uint32_t oo) {
    uint32_t s[2] = {1, (uint32_t)n}, v[2] = {(uint32_t)n, (uint32_t)ow}, t[2] = {1, (uint32_t)ow}, one[1] = {1};
    int32_t m[2] = {n, 1}, q[2] = {wm, 1}, k[2] = {ow, 1};
    Tensor<NoBuffer, 2> ti(s, m), tw(v, q), to(t, k);
    TensorIterator<NoBuffer, 2, 2> ii(ti), iw(tw), io(to); const int32_t ord[2] = {-1, 0}, msk[2] = {1, 0}; TensorIterator<NoBuffer, 1, 2> iz(Tensor<NoBuffer, 1>(one), io, ord, msk);
    ref::FullyConnected_CS cs(PlatformDescription(), ii, iw, iz, FullyConnectedConfig(), io);
    cs.AttachBufferOffsets(OffsetBuffer(ao, 0, 0x7fffffff, 1), OffsetBuffer(oo, 2, 0x7fffffff, 4), OffsetBuffer(wo, 1, cs.GetWeightsBufferSize() + 2, 1), OffsetBuffer());
    char priv[sizeof(ref::FullyConnectedPrivateData)];
    cs.GetKernelPrivateData(priv);
    uint64_t bases[4] = {(uint64_t)a, (uint64_t)w, (uint64_t)o};
    ref::FullyConnected r(priv, sizeof priv, bases, 3);
    return r.Issue();
}
#endif
