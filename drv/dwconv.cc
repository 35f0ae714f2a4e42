#include "convdrv.h"
#include "mli_krn_depthwise_conv2d_hwcn.cc"
ALLK(CONV, depthwise_conv2d_hwcn, 1, as2,, 0)
ALLK(CONV, depthwise_conv2d_hwcn, 1, as2, _k3x3, 3)
ALLK(CONV, depthwise_conv2d_hwcn, 1, as2, _k5x5, 5)
