"""P15 convolutions of the 3.0 interface (8-bit in, 32-bit accumulator out), whole chain."""
import sys
import build, runner, kleaf, leafdeps, p05
from spec import *
ID = 'P15'
LEVEL = 'proof'
RG = {'as' + i: (1, 1 << 12) for i in '012'}
RG.update({x: (1, 1 << 12) for x in ('oh', 'ow', 'n')})
RG.update({x: (1, 1 << 16) for x in ('am0', 'am1', 'amb', 'om0', 'om1', 'omb', 'wm0', 'wm1', 'wm2')})
RG.update({x: (1, 255) for x in ('sh', 'sw', 'dh', 'dw', 'kh', 'kw')})
RG.update({x: (0, 255) for x in ('pt', 'pl', 'pb', 'pr')})
RG.update({x: (0, 1 << 20) for x in ('ao', 'oo', 'wo', 'zo')})
RG['nb'] = (1, 256)
def conv(kind, cfg='up'):
    dw = kind == 'dw'
    def pre(A):
        eh, ew = (A['kh'] - 1) * A['dh'] + 1, (A['kw'] - 1) * A['dw'] + 1
        return [lt(A['pt'], eh), lt(A['pb'], eh), lt(A['pl'], ew), lt(A['pr'], ew),
                le(A['oh'] * A['sh'] + eh - A['sh'], A['as0'] + A['pt'] + A['pb']), le(A['ow'] * A['sw'] + ew - A['sw'], A['as1'] + A['pl'] + A['pr'])]
    def post(A, st, rv):
        b, h, w, n, y, x, c = (var(v) for v in ('ob', 'oy', 'ox', 'on', 'ty', 'tx', 'tc'))
        fy, ny = taps_min(h, A['as0'], A['oh'], A['kh'], A['sh'], A['pt'], A['dh'])
        fx, nx = taps_min(w, A['as1'], A['ow'], A['kw'], A['sw'], A['pl'], A['dw'])
        ia = A['ao'] + A['am0'] * (h * A['sh'] - A['pt'] + (fy + y) * A['dh']) + A['am1'] * (w * A['sw'] - A['pl'] + (fx + x) * A['dw'])
        wv = lambda y, x: LD('w', 1, A['wo'] + A['wm0'] * y + A['wm1'] * x + n + (ZERO if dw else A['wm2'] * c))
        ia = ia + (A['amb'] * b + n if dw else c)
        S = lambda e, p, q: (lambda s: s if dw else mksum(c.is_atom(), A['as2'], s))(mksum(y.is_atom(), p, mksum(x.is_atom(), q, e)))
        z = LD('z', 1, A['zo'])
        pad = z * (S(wv(y, x), A['kh'], A['kw']) - S(wv(fy + y, fx + x), ny, nx))
        v = S(LD('a', 1, ia) * wv(fy + y, fx + x), ny, nx) + ite(eq(ny * nx, A['kh'] * A['kw']), ZERO, pad)
        F = [(h, A['oh']), (w, A['ow']), (n, A['as2'] if dw else A['n'])]
        at = A['om0'] * h + A['om1'] * w + n
        if dw:
            F, at = [(b, A['nb'])] + F, at + A['omb'] * b
        return [('eq', 'returns OK', rv, ZERO), Fam('o', 4, F, A['oo'] + 4 * at, v)]
    return verify(build.HERE + '/drv/conv3.cc', 'v_conv3', cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RG, zero=['wz'], merge_values=True, exact_sums=True, defs=['-DKIND=%d' % dw])
TS = [(1, 1), (2, 2), (2, 1), (1, 3), (3, 2)]
TG = dict(RG, sh=(1, 1), sw=(1, 1), dh=(1, 1), dw=(1, 1))
def trans(sh, sw, cfg='up'):
    sh, sw = int(sh), int(sw)
    pre = lambda A: p05.pre_tr(A, 0, sh, sw)
    def post(A, st, rv):
        i, j, n, y, x, c = (var(v) for v in ('oy', 'ox', 'on', 'ty', 'tx', 'tc'))
        kh, kw, z = A['kh'], A['kw'], LD('z', 1, A['zo'])
        S = lambda e, p, q: mksum(c.is_atom(), A['as2'], mksum(y.is_atom(), p, mksum(x.is_atom(), q, e)))
        wv = lambda y, x: LD('w', 1, A['wo'] + A['wm0'] * y + A['wm1'] * x + A['wm2'] * c + n)
        q = [('eq', 'returns OK', rv, ZERO)]
        for mh in range(sh):
            for mw in range(sw):
                fy, ry, ly, ny = p05.axis(i, A['as0'], kh, sh, A['pt'], mh)
                fx, rx, lx, nx = p05.axis(j, A['as1'], kw, sw, A['pl'], mw)
                ia = A['ao'] + A['am0'] * (ry + ly + y) + A['am1'] * (rx + lx + x) + c
                w = wv(kh - 1 - mh - (ly + y) * sh, kw - 1 - mw - (lx + x) * sw)
                pad = z * (S(wv(kh - 1 - y, kw - 1 - x), kh, kw) - S(w, ny, nx))
                v = S(LD('a', 1, ia) * w, ny, nx) + ite(eq(ny * nx, kh * kw), ZERO, pad)
                q.append(Fam('o', 4, [(i, mkfdiv(p05.P(A['oh'] - fy + sh - 1), sh)), (j, mkfdiv(p05.P(A['ow'] - fx + sw - 1), sw)), (n, A['n'])],
                             A['oo'] + 4 * (A['om0'] * (fy + i * sh) + A['om1'] * (fx + j * sw) + n), v, name='o at offset %d %d' % (mh, mw)))
        return q
    return verify(build.HERE + '/drv/conv3.cc', 'v_conv3', cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=TG, zero=['wz'], merge_values=True, exact_sums=True, defs=['-DKIND=2', '-DHS=%d' % sh, '-DWS=%d' % sw])
MG = {x: (1, 1 << 12) for x in ('h', 'n', 'ow')}
MG.update({x: (1, 1 << 16) for x in ('am', 'wm', 'om')})
MG.update({x: (0, 1 << 20) for x in ('ao', 'oo', 'wo', 'zo')})
def matrix(kind, cfg='up'):
    mm = kind == 'matmul'
    def post(A, st, rv):
        h, x, c = var('oh_'), var('ox_'), var('tc')
        l = LD('a', 1, A['ao'] + c + (A['am'] * h if mm else ZERO))
        r = LD('w', 1, A['wo'] + A['wm'] * c + x)
        if mm:
            v = mksum(c.is_atom(), A['n'], (l - LD('z', 1, A['zo'])) * (r - LD('z', 1, A['zo'] + 1)))
            return [('eq', 'returns OK', rv, ZERO), Fam('o', 4, [(h, A['h']), (x, A['ow'])], A['oo'] + 4 * (A['om'] * h + x), v)]
        z = LD('w', 2, A['wo'] + A['wm'] * (A['n'] - 1) + A['ow'])      # behind the weights
        v = mksum(c.is_atom(), A['n'], l * r) + mktrunc(16, -z) * mksum(c.is_atom(), A['n'], l)
        return [('eq', 'returns OK', rv, ZERO), Fam('o', 4, [(x, A['ow'])], A['oo'] + 4 * x, v)]
    return verify(build.HERE + '/drv/mm3.cc', 'v_mm3', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=MG, exact_sums=True, defs=['-DKIND=%d' % (not mm)])
def task(k, *a):
    return runner.from_report({'conv': conv, 'dw': conv, 'tr': lambda k, *a: trans(*a)}.get(k, matrix)(k, *a))
def tasks(tier):
    T = [('conv',), ('dw',), ('tr', 2, 2), ('tr', 1, 1), ('tr', 2, 1), ('tr', 1, 3), ('matmul',), ('fc',)]
    if tier != 'quick':
        T += [('tr', a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4) if (a, b) not in TS and a * b <= 9]
        T += [t + ('fullaccu_rel',) for t in T[:4]]
    return [(task, t, 300 if tier == 'quick' else 880) for t in T] + [(p05.lemma_task, (range(1, 5),), 300)] + leafdeps.tasks(ID, tier, r's_(add|sub|asl|asr|asrrnd|mul)_i(8|32)|s_cast_i32_i32|s_mac_8')
HARNESS = [{'src': 'k3c.cc', 'config': 'up', 'procs': 2}, {'src': 'k3c.cc', 'config': 'fullaccu'}, {'src': 'k3c.cc', 'config': 'dbg'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['the iterators describe one tile: the whole tensor (tiling is a separate matter)', 'shapes up to 4096 per dimension, strides 1 to 65536, buffer offsets up to 2^20',
               'no sum of products of input and weights (nor its negation) leaves 32 bits', 'weight zero points are zero (convolutions)', 'convolutions: padding smaller than the effective kernel, windows that fit into the padded input, dilations, strides and kernel sizes up to 255; innermost stride 1; buffers that hold the tensors are separate',
               'transpose convolution: the strides are checked one by one (the pairs listed in the obligations), all else is symbolic']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report({'conv': conv, 'dw': conv, 'tr': lambda k, *a: trans(*a)}.get(a[0], matrix)(*a), False)
