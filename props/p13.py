"""P13 tensor helpers: sub-tensors, element counts, strides and quantisation parameters."""
import sys
import build, runner, kleaf
from spec import *
ID = 'P13'
LEVEL = 'proof'
SRC = build.HERE + '/drv/helpers.cc'
TY = {'fx8': ('MLI_EL_FX_8', 'int8_t', 1, 8), 'fx16': ('MLI_EL_FX_16', 'int16_t', 2, 16), 'sa8': ('MLI_EL_SA_8', 'int8_t', 1, 264), 'sa32': ('MLI_EL_SA_32', 'int32_t', 4, 288), 'fp32': ('MLI_EL_FP_32', 'float', 4, 544)}
RG = {'cap': (0, (1 << 31) - 1), 'n': (1, 255), 'i': (0, 1 << 12)}
for i in '0123':
    RG.update({'as' + i: (1, 1 << 12), 'am' + i: (1, 1 << 16), 'of' + i: (0, 1 << 12), 'sz' + i: (1, 1 << 12)})
def defs(ty, R, x, **kw):
    e, t = TY[ty][:2]
    d = dict(HE=e, HT=t, HR=R, HX=x, HO=R, HC=1); d.update(kw)
    return ['-D%s=%s' % k for k in d.items() if k[1] is not None]
def Q(k, v, name): return Fam('q', 8, [], 8 * k, v, name=name)
def run(entry, D, pre, post, cfg='up', rg=RG):
    return verify(SRC, entry, cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=rg, defs=D)
def quant(A, ty, x, od, off):
    if ty[0] == 'f':
        return [Q(12, A['f'], 'fraction bits')]
    if x < 0:
        return [Q(12, -1, 'quantised dimension'), Q(13, A['c'], 'scale'), Q(14, A['z'], 'zero point'), Q(15, A['f'], 'scale shift')]
    if od < 0:
        return [Q(12, -1, 'quantised dimension'), Q(13, LD('sc', 2, 2 * off), 'scale'), Q(14, LD('zp', 2, 2 * off), 'zero point'), Q(15, LD('fb', 1, off), 'scale shift'),
                Q(16, 0, 'capacity of the scale'), Q(17, 0, 'capacity of the zero point'), Q(18, 0, 'capacity of the scale shift')]
    return [Q(12, od, 'quantised dimension'), Q(13, 2 * off, 'scale pointer'), Q(14, 2 * off, 'zero point pointer'), Q(15, off, 'scale shift pointer')]
def sub(ty, R, mask, skip, x, dense, cfg='up'):
    """mask: the dimensions whose requested size is 1; skip: how many of them are removed; dense: memory strides of the input left zero"""
    ones = [d for d in range(R) if mask >> d & 1]
    kept = [d for d in range(R) if d not in ones[:skip]]
    b, et = TY[ty][2:]
    drop = ty[0] == 's' and x >= 0 and x not in kept
    rg = dict(RG, **({'am%d' % d: (0, 0) for d in range(R)} if dense else {}))
    def pre(A):
        c = []
        for d in range(R):
            c += [le(A['of%d' % d] + A['sz%d' % d], A['as%d' % d]), eq(A['sz%d' % d], 1) if mask >> d & 1 else le(2, A['sz%d' % d])]
        return c + [le(b * off(A), A['cap'])]
    def ms(A):
        if not dense:
            return [A['am%d' % d] for d in range(R)]
        m = [ONE]
        for d in range(R - 1, 0, -1):
            m.insert(0, m[0] * A['as%d' % d])
        return m
    def off(A): return sum((A['of%d' % d] * ms(A)[d] for d in range(R)), ZERO)
    def post(A, st, rv):
        q = [('eq', 'returns OK', rv, ZERO), Q(0, b * off(A), 'data pointer'), Q(1, A['cap'] - b * off(A), 'capacity'), Q(2, len(kept), 'rank'), Q(3, et, 'element type')]
        for k in range(4):
            q += [Q(4 + k, A['sz%d' % kept[k]] if k < len(kept) else 0, 'shape'), Q(8 + k, ms(A)[kept[k]] if k < len(kept) else 0, 'memory strides')]
        return q + quant(A, ty, x, kept.index(x) if x in kept else -1, A['of%d' % max(x, 0)])
    return run('v_subtensor', defs(ty, R, x, HO=R - skip, HDROP='' if drop else None), pre, post, cfg, rg)
def point(ty, R, n, x, cfg='up'):
    b, et = TY[ty][2:]
    s = n - 1
    def pre(A):
        return [lt(A['of%d' % d], A['as%d' % d]) for d in range(s)] + [le(A['of%d' % s] + A['n'], A['as%d' % s])]
    def post(A, st, rv):
        w = [ONE]
        for d in range(R - 1, 0, -1):
            w.insert(0, w[0] * A['as%d' % d])
        shape = [A['n']] + [A['as%d' % d] for d in range(s + 1, R)]
        cnt = ONE
        for k in shape: cnt = cnt * k
        q = [('eq', 'returns OK', rv, ZERO), Q(0, b * sum((A['of%d' % d] * w[d] for d in range(n)), ZERO), 'data pointer'), Q(1, b * cnt, 'capacity'), Q(2, R - s, 'rank'), Q(3, et, 'element type')]
        q += [Q(4 + k, shape[k], 'shape') for k in range(len(shape))] + [Q(4 + k, 0, 'shape') for k in range(len(shape), 4)] 
        return q + ([] if ty == 'fp32' else quant(A, ty, x, x, ZERO))
    return run('v_point', defs(ty, R, x, HC=n), pre, post, cfg, dict(RG, **{'as%d' % d: (1, 64) for d in range(R)}))
def count(R, k, cfg='up'):
    def post(A, st, rv):
        c = ONE
        for d in range(k, R): c = c * A['as%d' % d]
        return [('eq', 'number of elements', rv, c)]
    return run('v_count_at', defs('fx8', R, -1, HC=k), lambda A: [], post, cfg, dict(RG, **{'as%d' % d: (1, 128) for d in range(R)}))
def strides(R, cfg='up'):
    def post(A, st, rv):
        w = [ONE]
        for d in range(R - 1, 0, -1):
            w.insert(0, w[0] * A['as%d' % d])
        return [Q(k, w[k], 'memory stride') for k in range(R)]
    return run('v_strides', defs('fx8', R, -1), lambda A: [], post, cfg, dict(RG, **{'as%d' % d: (1, 1 << 9) for d in range(R)}))
def params(ty, x, cfg='up'):
    def post(A, st, rv):
        i = A['i']
        s, f, z = (ONE, A['f'], ZERO) if ty[:2] == 'fx' else (ONE, ZERO, ZERO) if ty == 'fp32' else (A['c'], A['f'], A['z']) if x < 0 else (LD('sc', 2, 2 * i), LD('fb', 1, i), LD('zp', 2, 2 * i))
        return [Q(0, s, 'scale'), Q(1, f, 'scale shift'), Q(2, z, 'zero point'), Q(3, TY[ty][2], 'element size')]
    return run('v_params', defs(ty, 4, x), lambda A: [], post, cfg)
FN = {'sub': sub, 'point': point, 'count': count, 'strides': strides, 'params': params}
def task(k, *a):
    return runner.from_report(FN[k](*a))
def tasks(tier):
    T = []
    for ty in TY:
        for x in range(-1, 4 if ty[0] == 's' else 0):
            T.append(('params', ty, x))
            for R in (1, 2, 3, 4):
                if x < R:
                    if ty != 'fp32':
                        T += [('sub', ty, R, mask, skip, x, dense) for mask in range(1 << R) for skip in range(min(bin(mask).count('1'), R - 1) + 1) for dense in (0, 1)]
                    T += [('point', ty, R, n, x) for n in range(1, R + 1)]
    T += [('count', R, k) for R in (1, 2, 3, 4) for k in range(R)] + [('strides', R) for R in (1, 2, 3, 4)]
    if tier == 'quick':
        import zlib
        T = [t for t in T if t[0] not in ('sub', 'point') or zlib.crc32(repr(t).encode()) % (6 if t[0] == 'sub' else 2) == 0]
    return [(task, t, 120) for t in T]
HARNESS = [{'src': 'helpers.cc', 'config': 'up'}, {'src': 'helpers.cc', 'config': 'dbg'}]
SECONDS = {'quick': 5, 'thorough': 60, 'search': 40}
ASSUMPTIONS = ['the requested part lies inside the input and only dimensions of requested size 1 are removed (mli_chk_create_subtensor)', 'shapes up to 4096, strides up to 65536, buffer sizes below 2^31 bytes',
               'mli_hlp_point_to_subtensor (deprecated): dense input; it does not set memory strides; per-axis parameters are handed on as they are']
if __name__ == '__main__':
    a = [int(v) if v.lstrip('-').isdigit() else v for v in sys.argv[1:]]
    show_report(FN[a[0]](*a[1:]), False)
