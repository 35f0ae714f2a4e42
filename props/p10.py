"""P10 rescaling, clipping and the element-wise kernels of the 3.0 interface."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
ID = 'P10'
LEVEL = 'proof'
SRC = build.HERE + '/drv/rescale.cc'
RG = {'as' + i: (1, 1 << 12) for i in '0123'}
RG.update({n + i: (1, 1 << 16) for n in ('am', 'om') for i in '0123'})
RG.update({'ao': (0, 1 << 20), 'oo': (0, 1 << 20), 'po': (0, 1 << 20)})
SZ = {'int8_t': 1, 'int16_t': 2, 'int32_t': 4}
EG = {'as' + i: (1, 1 << 12) for i in '0123'}
EG.update({n + 'm' + i: (1, 1 << 16) for n in 'abo' for i in '012'})
EG.update({n + 'o': (0, 1 << 20) for n in 'abo'})
def rescale(ti, to, R, x, cfg='up'):
    bi, bo = SZ[ti], SZ[to]
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        n = A['as%d' % x] if x >= 0 else ONE
        k = I[x] if x >= 0 else ZERO
        p = A['po']
        ib = LD('p', bi, p + bi * k); p = p + bi * n
        sc = LD('p', 2, p + 2 * k); p = p + 2 * n
        sh = LD('p', 1, p + k); p = p + n
        ob = LD('p', bo, p + bo * k)
        v = LD('a', bi, A['ao'] + bi * sum((I[d] * A['am%d' % d] for d in range(R)), ZERO))
        d = clampw(v - ib, 32)
        r = asr_rnd(64, d * sc, MAX(-63, MIN(sh, 63)))
        return [('eq', 'returns OK', rv, ZERO), Fam('o', bo, [(I[d], A['as%d' % d]) for d in range(R)], A['oo'] + bo * sum((I[d] * A['om%d' % d] for d in range(R)), ZERO), clampw(clampw(r + ob, 64), 8 * bo))]
    return verify(SRC, 'v_rescale', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RG, defs=['-DRI=' + ti, '-DRO=' + to, '-DRR=%d' % R, '-DRX=%d' % x])
OPS = ('add', 'sub', 'mul', 'min', 'max')
def eltwise(op, ti, to, kind, cfg='up'):
    bi, bo = SZ[ti], SZ[to]
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(4)]
        def operand(q, one):
            o = A[q + 'o'] if one else A[q + 'o'] + bi * (sum((I[d] * A[q + 'm%d' % d] for d in range(3)), ZERO) + I[3])
            return LD(q, bi, o)
        x, y = operand('a', kind == 1), operand('b', kind == 2)
        v = {'add': lambda: clampw(clampw(x + y, 32), 8 * bo), 'sub': lambda: clampw(clampw(x - y, 32), 8 * bo), 'mul': lambda: x * y, 'min': lambda: MIN(x, y), 'max': lambda: MAX(x, y)}[op]()
        return [('eq', 'returns OK', rv, ZERO), Fam('o', bo, [(I[d], A['as%d' % d]) for d in range(4)], A['oo'] + bo * (sum((I[d] * A['om%d' % d] for d in range(3)), ZERO) + I[3]), v)]
    return verify(build.HERE + '/drv/elt3.cc', 'v_elt3', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=EG, defs=['-DEI=' + ti, '-DEO=' + to, '-DOPN=%d' % OPS.index(op), '-DKIND=%d' % kind])
def clip(ty, R, cfg='up'):
    b = SZ[ty]
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        off = lambda q: A[q + 'o'] + b * sum((I[d] * A[q + 'm%d' % d] for d in range(R)), ZERO)
        return [('eq', 'returns OK', rv, ZERO), Fam('o', b, [(I[d], A['as%d' % d]) for d in range(R)], off('o'), MIN(MAX(LD('a', b, off('a')), LD('p', b, A['po'])), LD('p', b, A['po'] + b)))]
    return verify(build.HERE + '/drv/clip3.cc', 'v_clip3', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RG, defs=['-DEI=' + ty, '-DRR=%d' % R])
def encode(ti, to, cfg='up'):
    bi, bo = SZ[ti], SZ[to]
    def post(A, st, rv):
        i, n = var('i0'), A['n']
        r = [('eq', 'returns OK', rv, ZERO)]
        at = ZERO
        for src, b in (('ib', bi), ('sc', 2), ('sh', 1), ('ob', bo)):
            r.append(Fam('e', b, [(i, n)], at + b * i, LD(src, b, b * i)))
            at = at + b * n
        return r
    return verify(build.HERE + '/drv/enc3.cc', 'v_enc_rescale', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges={'n': (1, 1 << 16)}, defs=['-DRI=' + ti, '-DRO=' + to])
def encode_clip(cfg='up'):
    post = lambda A, st, rv: [('eq', 'returns OK', rv, ZERO), Fam('e', 1, [], ZERO, LD('lo', 1, ZERO)), Fam('e', 1, [], ONE, LD('hi', 1, ZERO))]
    return verify(build.HERE + '/drv/enc3.cc', 'v_enc_clip', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES)
def task(fn, *a):
    return runner.from_report({'rescale': rescale, 'clip': clip, 'enc': encode, 'encclip': encode_clip, 'elt': eltwise}[fn](*a))
QUICK = {('elt', 'add', 'int8_t', 'int8_t', 0), ('elt', 'add', 'int16_t', 'int16_t', 2), ('elt', 'sub', 'int32_t', 'int32_t', 1), ('elt', 'mul', 'int8_t', 'int32_t', 1),
         ('elt', 'min', 'int32_t', 'int32_t', 0), ('elt', 'max', 'int16_t', 'int16_t', 0),
         ('rescale', 'int32_t', 'int8_t', 4, -1), ('rescale', 'int32_t', 'int8_t', 4, 3), ('rescale', 'int8_t', 'int8_t', 4, 1), ('rescale', 'int8_t', 'int32_t', 3, -1), ('rescale', 'int8_t', 'int32_t', 3, 2), ('rescale', 'int32_t', 'int32_t', 2, 0), ('rescale', 'int8_t', 'int8_t', 1, -1, 'convergent'),
         ('clip', 'int8_t', 4), ('clip', 'int32_t', 3), ('clip', 'int8_t', 1)}
def tasks(tier):
    T = []
    for cfg in ((), ('convergent',)):
        for ti, to in (('int32_t', 'int8_t'), ('int8_t', 'int8_t'), ('int8_t', 'int32_t'), ('int32_t', 'int32_t')):
            T += [('rescale', ti, to, R, x) + cfg for R in (1, 2, 3, 4) for x in range(-1, R)]
    T += [('clip', t, R) for t in ('int8_t', 'int32_t') for R in (1, 2, 3, 4)]
    T += [('elt', op, ti, to, k) for op in OPS for ti, to in ((('int8_t', 'int32_t'), ('int16_t', 'int32_t')) if op == 'mul' else (('int8_t',) * 2, ('int16_t',) * 2, ('int32_t',) * 2)) for k in (0, 1, 2)]
    T = [t for t in T if tier != 'quick' or t in QUICK]
    T.sort(key=lambda t: (t[0] != 'elt', t[0] != 'rescale', -t[3] if t[0] == 'rescale' else 0))
    T += [('enc', ti, to) for ti in ('int8_t', 'int32_t') for to in ('int8_t', 'int32_t')] + [('encclip',)]
    return [(task, t, 300 if tier == 'quick' else 880) for t in T] + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'k3.cc', 'config': 'up', 'procs': 2}, {'src': 'k3.cc', 'config': 'convergent'}, {'src': 'k3.cc', 'config': 'fullaccu'}, {'src': 'k3.cc', 'config': 'dbg'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['the iterators describe one tile: the whole tensor (tiling is a separate matter)', 'shapes up to 4096 per dimension, strides 1 to 65536, buffer offsets up to 2^20; element-wise kernels: rank 4, innermost stride 1',
               'element-wise kernels: operands of the same shape, or one of them a single element; for a 16-bit or 8-bit sum the 32-bit sum is saturated',
               'rescale: one rescaling parameter set, or one per index of the axis, in the encoded layout in_bias, scale, shift, out_bias; buffers that hold the tensors are separate',
               'Clip_CS::EncodeParams encodes 8-bit limits only']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(encode(*a[1:]) if a[0] == 'enc' else encode_clip() if a[0] == 'encclip' else rescale(a[1], a[2], int(a[3]), int(a[4])) if a[0] == 'rescale' else clip(a[1], int(a[2])) if a[0] == 'clip' else eltwise(a[0], a[1], a[2], int(a[3])), False)
