#include "conv.hpp"
static const CF conv2d_hwcn_tab[][3] = {
    {{mli_krn_conv2d_hwcn_fx16, "mli_krn_conv2d_hwcn_fx16", 0}, {mli_krn_conv2d_hwcn_fx16_fx8_fx8, "mli_krn_conv2d_hwcn_fx16_fx8_fx8", 0}, {mli_krn_conv2d_hwcn_sa8_sa8_sa32, "mli_krn_conv2d_hwcn_sa8_sa8_sa32", 0}},
    {{mli_krn_conv2d_hwcn_fx16_k1x1, "mli_krn_conv2d_hwcn_fx16_k1x1", 1}, {mli_krn_conv2d_hwcn_fx16_fx8_fx8_k1x1, "mli_krn_conv2d_hwcn_fx16_fx8_fx8_k1x1", 1}, {mli_krn_conv2d_hwcn_sa8_sa8_sa32_k1x1, "mli_krn_conv2d_hwcn_sa8_sa8_sa32_k1x1", 1}},
    {{mli_krn_conv2d_hwcn_fx16_k3x3, "mli_krn_conv2d_hwcn_fx16_k3x3", 3}, {mli_krn_conv2d_hwcn_fx16_fx8_fx8_k3x3, "mli_krn_conv2d_hwcn_fx16_fx8_fx8_k3x3", 3}, {mli_krn_conv2d_hwcn_sa8_sa8_sa32_k3x3, "mli_krn_conv2d_hwcn_sa8_sa8_sa32_k3x3", 3}},
    {{mli_krn_conv2d_hwcn_fx16_k5x5, "mli_krn_conv2d_hwcn_fx16_k5x5", 5}, {mli_krn_conv2d_hwcn_fx16_fx8_fx8_k5x5, "mli_krn_conv2d_hwcn_fx16_fx8_fx8_k5x5", 5}, {mli_krn_conv2d_hwcn_sa8_sa8_sa32_k5x5, "mli_krn_conv2d_hwcn_sa8_sa8_sa32_k5x5", 5}}};
FAMILY(conv2d_hwcn) { return conv_case(r, d, FULL, conv2d_hwcn_tab, 4); }
