#!/usr/bin/env python3
"""writes properties.jsonl (edit here)"""
import json, os
PR = []
def P(id, title, statement, over, text, why, files, mech):
    PR.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
L = 'lib/src/'
P('P01', 'Scalar fixed-point arithmetic is exact, saturating and rounds as configured',
  'Every scalar fixed-point primitive (add, subtract, negate, absolute value, shifts in both directions, rounding shift, saturating cast between widths, multiply, multiply-accumulate, normalisation, clamp) returns the mathematically exact result clamped to its result type. Rounding shifts return the nearest representable value, half-way cases going up (with a saturating rounding constant) or to the even neighbour as the build is configured. No operand or shift amount makes a result wrap around.',
  ['inputs', 'configurations'], 'all operand values and all shift amounts of every supported width, both rounding configurations',
  'The operand spaces have up to 2^96 points; kernel tests sample a few hundred typical vectors and never reach saturation corners or extreme shifts of most primitives.',
  [L + 'pal/ref/mli_math.h'], [('scalar primitives', L + 'pal/ref/mli_math.h')])
P('P02', 'Conversion between formats re-expresses every element in the new quantisation',
  'Converting a tensor between fixed-point (fx8, fx16) and asymmetric (sa8, sa32) formats writes to every destination element the source element minus its zero point, times the source scale over the destination scale, rounded as configured, plus the destination zero point, saturated to the destination type. The ratio of the scales is held as a normalised 16-bit mantissa and a shift, which are as precise as the 16 bits allow for every pair of scales and fraction bits; 32-bit elements are normalised before the multiplication so that no significant bits are lost. Where a tensor is quantised per index of a dimension, the parameters of the index of that dimension are used, whatever the rank, the strides and the dimension; nothing else in the destination memory or structure changes.',
  ['inputs', 'configurations'], 'all element values, scales, fraction bits, zero points, quantised dimensions, ranks, shapes and memory strides, both rounding modes',
  'Tests convert a handful of tensors with scales that are close to each other; extreme ratios, per-axis parameters on other dimensions and strided tensors are not sampled.',
  [L + 'bricks/impl/mli_prv_quant_ref.h', L + 'helpers/src/impl/mli_hlp_convert_tensor_ref.h', L + 'helpers/src/mli_helpers.cc'],
  [('requantisation parameters', L + 'bricks/impl/mli_prv_quant_ref.h'), ('element conversion', L + 'helpers/src/impl/mli_hlp_convert_tensor_ref.h')])
P('P08', 'Element-wise operations compute every output element correctly',
  'Adding, subtracting, multiplying and taking the minimum or maximum of two tensors, or of a tensor and a scalar in either operand position, writes to every output element exactly the saturated and rounded result of that operation on the two corresponding elements in the quantisation of operands and result. This holds for fixed-point 8 and 16 bit and for asymmetric 8 bit data, for every rank, shape and memory stride. No other memory is written.',
  ['inputs', 'configurations'], 'all element values, shapes, ranks 1 to 4, outer memory strides, fractional bits, scales, zero points, and both rounding configurations',
  'Tests run a few fixed vectors with fixed shapes and quantisation parameters; neither the loop bounds nor the parameter space is covered.',
  [L + 'kernels/eltwise/impl/mli_krn_eltwise_ref.h', L + 'private/mli_prv_tensor.h'],
  [('element operation, parameter calculation and tensor traversal', L + 'kernels/eltwise/impl/mli_krn_eltwise_ref.h'), ('squashing of strided tensors', L + 'private/mli_prv_tensor.h')])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_more.py')) else None
PR.sort(key=lambda p: p['id'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in PR:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
