#include "convdrv.h"
#include "mli_krn_conv2d_hwcn.cc"
ALLK(CONV, conv2d_hwcn, as2, n,, 0)
ALLK(CONV, conv2d_hwcn, as2, n, _k1x1, 1)
ALLK(CONV, conv2d_hwcn, as2, n, _k3x3, 3)
ALLK(CONV, conv2d_hwcn, as2, n, _k5x5, 5)
