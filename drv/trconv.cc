// transpose convolution with the strides HS x WS of the configuration
#define FIXS sh = HS; sw = WS; dh = dw = 1;
#include "convdrv.h"
#include "mli_krn_transpose_conv2d_hwcn.cc"
ALLK(CONV, transpose_conv2d_hwcn, as2, n,, 0)
#if HS == 2 && WS == 2
ALLK(CONV, transpose_conv2d_hwcn, as2, n, _k2x2_str2, 2)
ALLK(CONV, transpose_conv2d_hwcn, as2, n, _k4x4_str2, 4)
#endif
