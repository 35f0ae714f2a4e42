"""P16 pooling and reduction kernels of the 3.0 interface, whole chain."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
ID = 'P16'
LEVEL = 'proof'
SZ = {'int8_t': 1, 'int16_t': 2, 'int32_t': 4}
RG = {'as' + i: (1, 1 << 12) for i in '0123'}
RG.update({n + i: (1, 1 << 16) for n in ('am', 'om') for i in '0123'})
RG.update({'ao': (0, 1 << 20), 'oo': (0, 1 << 20)})
PG = {'as' + i: (1, 1 << 12) for i in '0123'}
PG.update({n + i: (1, 1 << 16) for n in ('am', 'om') for i in '012'})
PG.update({x: (1, 1 << 12) for x in ('oh', 'ow')})
PG.update({x: (1, 255) for x in ('sh', 'sw', 'kh', 'kw')})
PG.update({x: (0, 255) for x in ('pt', 'pl', 'pb', 'pr')})
PG.update({'ao': (0, 1 << 20), 'oo': (0, 1 << 20)})
def reduce(op, ty, R, x, cfg='up'):
    b = SZ[ty]
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        k = var('rk')
        at = A['ao'] + b * sum(((k if d == x else I[d]) * A['am%d' % d] for d in range(R)), ZERO)
        v = (mktrunc(8 * b, mksum(k.is_atom(), A['as%d' % x], LD('a', b, at))) if b < 4 else mksum(k.is_atom(), A['as%d' % x], LD('a', b, at))) if op == 'sum' else mkext('max', TT.bind_family('max', k.is_atom(), A['as%d' % x], LD('a', b, at)))
        J = [d for d in range(R) if d != x]
        return [('eq', 'returns OK', rv, ZERO), Fam('o', b, [(I[d], A['as%d' % d]) for d in J], A['oo'] + b * sum((I[d] * A['om%d' % d] for d in J), ZERO), v)]
    return verify(build.HERE + '/drv/red3.cc', 'v_red3', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RG, defs=['-DEI=' + ty, '-DRR=%d' % R, '-DRX=%d' % x, '-DOPN=%d' % (op == 'max')])
def pool(op, ty, cfg='up'):
    b = SZ[ty]
    B = 4 if op == 'sum' else b
    def pre(A):
        return [lt(A['pt'], A['kh']), lt(A['pb'], A['kh']), lt(A['pl'], A['kw']), lt(A['pr'], A['kw']),
                le(A['oh'] * A['sh'] + A['kh'] - A['sh'], A['as1'] + A['pt'] + A['pb']), le(A['ow'] * A['sw'] + A['kw'] - A['sw'], A['as2'] + A['pl'] + A['pr'])]
    def post(A, st, rv):
        n, h, w, c, y, x = (var(v) for v in ('ob', 'oy', 'ox', 'oc', 'ty', 'tx'))
        fy, ny = taps(h, A['as1'], A['oh'], A['kh'], A['sh'], A['pt'], ONE)
        fx, nx = taps(w, A['as2'], A['ow'], A['kw'], A['sw'], A['pl'], ONE)
        a = LD('a', b, A['ao'] + b * (n * A['am0'] + A['am1'] * (h * A['sh'] - A['pt'] + fy + y) + A['am2'] * (w * A['sw'] - A['pl'] + fx + x) + c))
        if op == 'max':
            v = mkext('max', TT.bind_family('max', y.is_atom(), ny, mkext('max', TT.bind_family('max', x.is_atom(), nx, a))))
        else:
            v = TT.mksum(y.is_atom(), ny, TT.mksum(x.is_atom(), nx, a))
        return [('eq', 'returns OK', rv, ZERO), Fam('o', B, [(n, A['as0']), (h, A['oh']), (w, A['ow']), (c, A['as3'])], A['oo'] + B * (n * A['om0'] + A['om1'] * h + A['om2'] * w + c), v)]
    return verify(build.HERE + '/drv/pool3.cc', 'v_pool3', cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=PG, merge_values=True, defs=['-DEI=' + ty, '-DEO=' + ('int32_t' if op == 'sum' else ty), '-DOPN=%d' % (op == 'sum')])
def task(fn, *a):
    return runner.from_report({'red': reduce, 'pool': pool}[fn](*a))
def tasks(tier):
    T = [('pool', 'max', 'int8_t'), ('pool', 'sum', 'int8_t'), ('pool', 'max', 'int16_t')]
    if tier != 'quick':
        T += [t + ('fullaccu_rel',) for t in T]
    for R, x in [(4, 1), (4, 0), (4, 2), (4, 3)] + [(R, x) for R in (3, 2, 1) for x in range(R)]:
        T += [('red', op, ty, R, x) for op in ('sum', 'max') for ty in SZ]
    return [(task, t, 300 if tier == 'quick' else 880) for t in T] + leafdeps.tasks(ID, tier, 's_max_')
HARNESS = [{'src': 'k3p.cc', 'config': 'up', 'procs': 2}, {'src': 'k3p.cc', 'config': 'fullaccu'}, {'src': 'k3p.cc', 'config': 'dbg'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['the iterators describe one tile: the whole tensor (tiling is a separate matter)', 'shapes up to 4096 per dimension, strides 1 to 65536, buffer offsets up to 2^20',
               'pooling: kernel sizes and strides up to 255, padding smaller than the kernel, windows that fit into the padded input; innermost stride 1; buffers that hold the tensors are separate',
               'sums are representable in the element type of the output (the library asserts it)']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(reduce(a[1], a[2], int(a[3]), int(a[4])) if a[0] == 'red' else pool(*a[1:]), False)
