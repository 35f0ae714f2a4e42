#include "conv.hpp"
static const CF trconv_tab[][3] = {
    {{mli_krn_transpose_conv2d_hwcn_fx16, "mli_krn_transpose_conv2d_hwcn_fx16", 0}, {mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8, "mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8", 0}, {mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32, "mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32", 0}},
    {{mli_krn_transpose_conv2d_hwcn_fx16_k2x2_str2, "mli_krn_transpose_conv2d_hwcn_fx16_k2x2_str2", 2}, {mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8_k2x2_str2, "mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8_k2x2_str2", 2}, {mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32_k2x2_str2, "mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32_k2x2_str2", 2}},
    {{mli_krn_transpose_conv2d_hwcn_fx16_k4x4_str2, "mli_krn_transpose_conv2d_hwcn_fx16_k4x4_str2", 4}, {mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8_k4x4_str2, "mli_krn_transpose_conv2d_hwcn_fx16_fx8_fx8_k4x4_str2", 4}, {mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32_k4x4_str2, "mli_krn_transpose_conv2d_hwcn_sa8_sa8_sa32_k4x4_str2", 4}}};
FAMILY(transpose_conv2d) { return conv_case(r, d, TR, trconv_tab, 3); }
