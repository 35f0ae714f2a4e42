#include "convdrv.h"
#include "mli_krn_group_conv2d_hwcn.cc"
ALLK(CONV, group_conv2d_hwcn, wc_, n,, 0)
ALLK(CONV, group_conv2d_hwcn, wc_, n, _k3x3, 3)
ALLK(CONV, group_conv2d_hwcn, wc_, n, _k5x5, 5)
