C = L + 'kernels/convolution/impl/'
P('P03', '2D convolution computes every output element for every geometry',
  'A 2D convolution writes to every output element exactly the bias plus the sum over all kernel taps and input channels of input times weight, where taps that fall outside the input contribute nothing and the asymmetric zero point is subtracted from every input that takes part, turned into the output format (rounded, saturated) and limited by the fused ReLU. This holds for fixed-point 16 bit, mixed 16/8 bit and asymmetric 8 bit data with per-channel weight scales, for the general and the specialised kernel sizes, and for every shape, stride, padding, dilation and memory stride that the parameter checks accept. No other memory is written.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, strides, paddings, dilations, kernel sizes, fused ReLU kinds and quantisation parameters, both rounding modes, with and without full accumulation',
  'Tests run about ten fixed layers; borders, mixed dilation and stride, large geometry parameters and quantisation corners are combinations no test list covers.',
  [C + 'mli_krn_convolution_ref.h', L + 'bricks/impl/mli_krn_dotprod_ref.h', L + 'private/mli_prv_layout.h', L + 'bricks/impl/mli_prv_quant_ref.h'],
  [('window clipping', L + 'private/mli_prv_layout.h'), ('convolution loops', C + 'mli_krn_convolution_ref.h'), ('dot product', L + 'bricks/impl/mli_krn_dotprod_ref.h')])
P('P04', 'Depthwise and group convolution compute every output element',
  'A depthwise convolution writes to every output element of a channel exactly the bias plus the sum over the kernel taps of that channel of the input times the weight of that channel; a group convolution does the same over the input channels of the group the output channel belongs to. Taps outside the input contribute nothing; zero points, per-channel scales, rounding, saturation and the fused ReLU are applied as for the ordinary convolution. This holds for every shape, grouping, stride, padding, dilation and memory stride that the parameter checks accept. No other memory is written.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, group counts, memory strides, strides, paddings, dilations, kernel sizes, fused ReLU kinds and quantisation parameters',
  'Tests run about ten fixed layers per kernel, mostly with equal parameters along both axes.',
  [C + 'mli_krn_convolution_ref.h', C + 'mli_krn_group_conv2d_ref.h', L + 'private/mli_prv_layout.h', L + 'bricks/impl/mli_krn_dotprod_ref.h'],
  [('depthwise loops', C + 'mli_krn_convolution_ref.h'), ('group loops', C + 'mli_krn_group_conv2d_ref.h')])
T = L + 'kernels/transform/impl/'
P('P09', 'ReLU, leaky ReLU and PReLU give every element its specified value',
  'A ReLU writes to every output element the input element limited to the range the configured kind stands for (at least zero; between minus one and one; between zero and six) in the quantisation of the input, which the output takes over. A leaky ReLU writes the input itself where it is not below zero and the input times the slope where it is, and a PReLU does the same with the slope that belongs to the index of the element along the configured axis, rescaled to the output format with the prescribed rounding and saturation. This holds for fixed-point 8 and 16 bit and asymmetric 8 bit tensors of every rank, shape and memory stride. No other element of the output buffer and no input is changed.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, axes, slopes, quantisation parameters and ReLU kinds, both rounding modes',
  'Tests run a few fixed tensors per kernel with similar scales and mostly dense strides; extreme slopes, scale ratios and mixed strides are not sampled.',
  [T + 'mli_krn_relu_ref.h', T + 'mli_krn_leaky_relu_ref.h', T + 'mli_krn_prelu_ref.h', L + 'bricks/impl/mli_prv_quant_ref.h'],
  [('element loops', T + 'mli_krn_leaky_relu_ref.h'), ('axis loops', T + 'mli_krn_prelu_ref.h')])
Q = L + 'kernels/pooling/'
P('P07', 'Pooling gives every output element the maximum or mean of its window',
  'Max pooling writes to every output element the largest input value of its channel among the window positions that lie inside the input, and hands the quantisation of the input on to the output. Average pooling writes the sum of the window positions that lie inside the input times the reciprocal of their number (positions in the padding are not counted), the reciprocal being the 15-bit truncated mantissa and shift of one over that number, rescaled from the input to the output quantisation with the prescribed rounding and saturation. This holds for every kernel size, stride, padding, shape and memory stride that the parameter checks accept, for the general functions and those specialised for 2x2 and 3x3 kernels, and for fixed-point 8 and 16 bit and asymmetric 8 bit data. No other memory is written.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, kernel sizes, strides, paddings and quantisation parameters, both rounding modes',
  'Tests run about ten fixed layers per kernel; the border cases depend on how stride, padding, kernel and size combine along each axis, of which tests sample a few.',
  [Q + 'mli_krn_pool_hwc.h', Q + 'impl/mli_krn_avepool_hwc_ref.h', Q + 'impl/mli_krn_maxpool_hwc_ref.h', L + 'bricks/impl/mli_krn_reduce_sum2d_ref.h', L + 'bricks/impl/mli_krn_reduce_max2d_ref.h'],
  [('window and regions', Q + 'mli_krn_pool_hwc.h'), ('reciprocal', Q + 'impl/mli_krn_avepool_hwc_ref.h')])
F = L + 'kernels/convolution/'
P('P06', 'Fully connected layers and matrix products compute every output element',
  'A fully connected kernel writes to every output element exactly the bias plus the sum over all input elements of input times the weight of that output, with the asymmetric zero point of the input subtracted from every input (the ext_bias variants leave that to the bias), turned into the output format by the combined scale with the library rounding and saturation and then limited by the fused ReLU. The matrix product of the 3.0 interface writes to every output element exactly the sum over the shared dimension of (left minus its zero point) times (right minus its zero point). Both hold for every shape, memory stride, tensor offset and quantisation, and nothing but the output elements is written.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, fused ReLU kinds and quantisation parameters (per tensor and per output), both rounding modes, with and without full accumulation',
  'Tests run a handful of fixed layers per variant, mostly dense and of one size; padded weight and output strides, extreme zero points and scale corners are not sampled.',
  [L + 'kernels/common/impl/mli_krn_fully_connected_ref.h', F + 'mli_krn_matmul_ref.hpp', L + 'bricks/impl/mli_krn_dotprod_ref.h', L + 'bricks/impl/mli_prv_quant_ref.h'],
  [('layer', L + 'kernels/common/impl/mli_krn_fully_connected_ref.h'), ('matrix product', F + 'mli_krn_matmul_ref.hpp')])
P('P11', 'Data movement and permutation put every element where it belongs',
  'A data movement takes the input, adds the zero padding around it, cuts out the configured slice, keeps every step-th element, reorders the dimensions and writes the result at the configured offset of the destination: every destination element of the slice is exactly the input element it stands for, or zero where it comes from the padding. Shape, rank, element type, memory strides and quantisation of the destination describe the result; parameters per index of a dimension follow their elements, into buffers of the destination where it has any. A permute kernel does the same for reordering alone, and a broadcast repeats the single element of a dimension of extent one over the whole destination. This holds for every element type, rank, order, slice, padding, step, offset and memory stride accepted. Nothing outside the slice is written and the source is unchanged.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, slices, paddings, steps, offsets, orders and quantised dimensions of all ranks',
  'Tests run some fifteen fixed movements; the features interact (padding with slice and step, offset with a copy in one piece) in combinations no list of tests covers.',
  [L + 'move/mli_mov_api.cc', L + 'move/impl/mli_mov_ref.h', L + 'kernels/diverse/impl/mli_krn_permute_ref.h', L + 'move/mli_move_broadcast_runtime.cc'],
  [('movement', L + 'move/mli_mov_api.cc'), ('inner loops', L + 'move/impl/mli_mov_ref.h'), ('permute', L + 'kernels/diverse/impl/mli_krn_permute_ref.h')])
V = L + 'kernels/conversion/'
P('P10', 'Rescale, clip and element-wise 3.0 kernels compute every element as encoded',
  'Taken through the whole 3.0 interface (compile-time object, encoded parameters, private data, run-time object), Rescale writes to every output element the input minus the input bias, times the scale, shifted right by the shift with the library rounding, plus the output bias, saturated to the output type, with the parameters of the whole tensor or of the index of the element along the configured axis; Clip writes the input limited to the encoded minimum and maximum; Add, Sub, Mul, Min and Max write the saturated result of the operands, where an operand of one element pairs with every element of the other. This holds for every supported pair of element types, every shape, memory stride, buffer offset and encoded parameter, whatever the memory of the run-time object held before. Nothing but the output elements is written.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, buffer offsets, axes, encoded parameters and prior contents of the object memory',
  'Tests run a handful of layers whose objects live in one zeroed pool; type pairs, extreme biases and shifts, strides and leftovers in memory are not sampled.',
  [V + 'impl/mli_krn_rescale_ref.hpp', V + 'mli_krn_rescale_compiler.cc', V + 'mli_krn_rescale_runtime.cc', L + 'kernels/clip/mli_krn_clip_runtime.cc', L + 'kernels/clip/impl/mli_krn_clip_ref.hpp', L + 'kernels/eltwise/impl/mli_krn_eltwise_ref.h', L + 'kernels/eltwise/mli_krn_add_runtime.cc', 'include/mli_service_functions.hpp', 'include/mli_iterator.hpp'],
  [('rescale', V + 'impl/mli_krn_rescale_ref.hpp'), ('parameter encoding', V + 'mli_krn_rescale_compiler.cc'), ('element-wise objects', L + 'kernels/eltwise/mli_krn_add_runtime.cc')])
P('P13', 'Tensor helpers describe exactly the part of the tensor they are asked for',
  'A sub-tensor made by mli_hlp_create_subtensor points at the first element of the requested part, has the requested sizes and the memory strides of the input along the dimensions that stay (dimensions of size 1 are removed from the front until the requested rank is reached, missing strides are those of a dense tensor), a capacity that ends where the buffer of the input ends, and for every element the quantisation parameters (scale, scale shift, zero point) the input has for it, whichever dimension is quantised and whether or not that dimension is removed. mli_hlp_point_to_subtensor does the same for the part that starts at given leading coordinates of a dense tensor. The element count, element size, default memory strides, scale, scale shift and zero point queries return the values the tensor defines, for every rank and type. Helpers for the quantisation parameters read only the parameter buffers of the tensor.',
  ['inputs', 'configurations'], 'all ranks, types, shapes, memory strides, offsets, sizes, quantised dimensions and buffer sizes',
  'Tests create a few sub-tensors of small dense tensors; which dimensions go, which one is quantised and where strides are missing combine in hundreds of ways.',
  [L + 'helpers/src/mli_helpers.cc', L + 'private/mli_prv_tensor.h'],
  [('sub-tensors', L + 'helpers/src/mli_helpers.cc'), ('queries', L + 'private/mli_prv_tensor.h')])
P('P05', 'Transpose convolution computes every output element for every geometry',
  'A 2D transpose convolution writes to every output element exactly the bias plus the sum, over all input positions and channels and all kernel taps for which input row times vertical stride plus kernel row equals output row plus top padding (and the same along the width), of input times weight, with the asymmetric zero point subtracted from every input that takes part, turned into the output format (rounded, saturated) and limited by the fused ReLU. Every output element is written exactly once. This holds for fixed-point 16 bit, mixed 16/8 bit and asymmetric 8 bit with per-channel weight scales, and the variants specialised for 2x2 and 4x4 kernels with stride 2 give what the general one gives.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, memory strides, kernel sizes, paddings, fused ReLU kinds and quantisation parameters, both rounding modes; strides as listed by the contracts',
  'Tests run about ten fixed layers; the split into kernel patterns depends on stride, padding and kernel size along both axes, of which tests sample a few.',
  [C + 'mli_krn_transpose_conv_ref.h', C + 'mli_krn_convolution_ref.h', L + 'private/mli_prv_layout.h', L + 'bricks/impl/mli_krn_dotprod_ref.h'],
  [('kernel patterns', C + 'mli_krn_transpose_conv_ref.h'), ('convolution loops', C + 'mli_krn_convolution_ref.h')])

P('P16', 'Pooling and reduction of the 3.0 interface give the maximum or sum they name',
  'Taken through the whole 3.0 interface (compile-time object, private data, run-time object), MaxPool2D and SumPool2D write to every output element of every batch the largest value, or the 32-bit sum, of the elements of its channel at the window positions that lie inside the input. ReduceMax and ReduceSum write the largest value, or the sum (which the element type has to be able to hold), of the elements along the configured axis, for every position of the remaining dimensions, whatever the rank. Buffer offsets and memory strides of both tensors are respected, every element of the output is written, nothing else is, and the result depends on nothing but input and configuration.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, ranks, axes, memory strides, buffer offsets, window sizes, window strides and paddings',
  'Tests run a few fixed layers; borders, batches, padded strides and the reordering of the axes per rank and axis are not sampled.',
  [Q + 'mli_krn_maxpool_runtime.cc', Q + 'mli_krn_sumpool_runtime.cc', Q + 'mli_krn_pool_hwc.h', V + 'impl/mli_reduce_sum_ref.hpp', V + 'impl/mli_reduce_max_ref.hpp', V + 'mli_reduce_max_runtime.cc'],
  [('pooling objects', Q + 'mli_krn_maxpool_runtime.cc'), ('reduction loops', V + 'impl/mli_reduce_max_ref.hpp')])

P('P15', 'Convolutions, fully connected and matrix product of the 3.0 interface',
  'Taken through the whole 3.0 interface (compile-time object, private data, run-time object), Conv2d, DepthwiseConv2d (for every image of the batch) and TransposeConv2D write to every 32-bit output element the sum of input times weight over all kernel taps and input channels, where a tap that meets padding (or, for the transpose convolution, a position between two input elements) counts with the input zero point; the zero point is not subtracted from real inputs. MatMul writes the sum over the inner dimension of the products of both operands, each less its encoded zero point. FullyConnected writes the sum of input times weight less the zero point stored behind the weights. Buffer offsets and memory strides of all tensors are respected, every element of the output is written, nothing else is, and the result depends on nothing but input, weights, zero points and configuration.',
  ['inputs', 'configurations'], 'all tensor contents, shapes, batch sizes, memory strides, buffer offsets, kernel sizes, strides, dilations, paddings and input zero points',
  'Tests run a few fixed layers, one image each; borders with a non-zero zero point, batches, dilations and padded strides combine in ways they do not sample.',
  [C + 'mli_krn_convolution_ref.h', C + 'mli_krn_transpose_conv_ref.h', L + 'kernels/convolution/mli_krn_conv2d_runtime.cc', L + 'kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc', L + 'kernels/convolution/mli_krn_transpose_conv_runtime.cc', L + 'kernels/convolution/mli_krn_matmul_ref.hpp', L + 'kernels/common/impl/mli_krn_fully_connected_runtime.cc'],
  [('padding with the zero point', C + 'mli_krn_convolution_ref.h'), ('batch loop', L + 'kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc'), ('matrix product', L + 'kernels/convolution/mli_krn_matmul_ref.hpp')])
