#include "conv.hpp"
static const CF depthwise_conv2d_hwcn_tab[][3] = {
    {{mli_krn_depthwise_conv2d_hwcn_fx16, "mli_krn_depthwise_conv2d_hwcn_fx16", 0}, {mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8, "mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8", 0}, {mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32, "mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32", 0}},
    {{mli_krn_depthwise_conv2d_hwcn_fx16_k3x3, "mli_krn_depthwise_conv2d_hwcn_fx16_k3x3", 3}, {mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8_k3x3, "mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8_k3x3", 3}, {mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32_k3x3, "mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32_k3x3", 3}},
    {{mli_krn_depthwise_conv2d_hwcn_fx16_k5x5, "mli_krn_depthwise_conv2d_hwcn_fx16_k5x5", 5}, {mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8_k5x5, "mli_krn_depthwise_conv2d_hwcn_fx16_fx8_fx8_k5x5", 5}, {mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32_k5x5, "mli_krn_depthwise_conv2d_hwcn_sa8_sa8_sa32_k5x5", 5}}};
FAMILY(depthwise_conv2d_hwcn) { return conv_case(r, d, DW, depthwise_conv2d_hwcn_tab, 3); }
static const CF group_conv2d_hwcn_tab[][3] = {
    {{mli_krn_group_conv2d_hwcn_fx16, "mli_krn_group_conv2d_hwcn_fx16", 0}, {mli_krn_group_conv2d_hwcn_fx16_fx8_fx8, "mli_krn_group_conv2d_hwcn_fx16_fx8_fx8", 0}, {mli_krn_group_conv2d_hwcn_sa8_sa8_sa32, "mli_krn_group_conv2d_hwcn_sa8_sa8_sa32", 0}},
    {{mli_krn_group_conv2d_hwcn_fx16_k3x3, "mli_krn_group_conv2d_hwcn_fx16_k3x3", 3}, {mli_krn_group_conv2d_hwcn_fx16_fx8_fx8_k3x3, "mli_krn_group_conv2d_hwcn_fx16_fx8_fx8_k3x3", 3}, {mli_krn_group_conv2d_hwcn_sa8_sa8_sa32_k3x3, "mli_krn_group_conv2d_hwcn_sa8_sa8_sa32_k3x3", 3}},
    {{mli_krn_group_conv2d_hwcn_fx16_k5x5, "mli_krn_group_conv2d_hwcn_fx16_k5x5", 5}, {mli_krn_group_conv2d_hwcn_fx16_fx8_fx8_k5x5, "mli_krn_group_conv2d_hwcn_fx16_fx8_fx8_k5x5", 5}, {mli_krn_group_conv2d_hwcn_sa8_sa8_sa32_k5x5, "mli_krn_group_conv2d_hwcn_sa8_sa8_sa32_k5x5", 5}}};
FAMILY(group_conv2d_hwcn) { return conv_case(r, d, GRP, group_conv2d_hwcn_tab, 3); }
