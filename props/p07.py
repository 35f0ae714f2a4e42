"""P07 max and average pooling: every output element, all kernel sizes, strides, paddings and shapes."""
import sys
import z3, leaf
import build, runner, kleaf, leafdeps, p03
from spec import *
ID = 'P07'
LEVEL = 'proof'
SRC = build.HERE + '/drv/pool.cc'
RANGES = {x: (1, 255) for x in ('sh', 'sw', 'kh', 'kw')}
RANGES.update({x: (0, 255) for x in ('pt', 'pl', 'pb', 'pr')})
RANGES.update({x: (-128, 127) for x in ('z1', 'z2')})
RANGES.update({x: (1, 32767) for x in ('c1', 'c2')})

def kernel(A, k):
    return (const(k), const(k)) if k else (A['kh'], A['kw'])

def pre_pool(A, k):
    kh, kw = kernel(A, k)
    c = [le(1, A[x]) for x in ('as0', 'as1', 'as2', 'oh', 'ow')]
    c += [lt(A['pt'], kh), lt(A['pb'], kh), lt(A['pl'], kw), lt(A['pr'], kw)]
    c += [le(A['oh'] * A['sh'] + kh - A['sh'], A['as0'] + A['pt'] + A['pb']), le(A['ow'] * A['sw'] + kw - A['sw'], A['as1'] + A['pl'] + A['pr'])]
    return c

def ave_sa(A, tot, n, cfg):
    """out = sum/count * sin/sout + (zout - zin * sin/sout)"""
    pre = norm(32, A['c1']) - norm(16, A['c2'])
    ratio, t = normcast(32, 16, tdiv(mk(('op', 'shl', 32, (A['c1'], pre))), A['c2']))
    sh = pre + A['f1'] - A['f2'] - t
    off = clampw(A['z2'] - cast(32, 16, ratio * A['z1'], sh), 16)
    mul, t = normcast(32, 16 if 'fullaccu' in cfg else 8, ratio * n[0])
    sh = sh + n[1] - t
    return cast(32, 8, asl(32, off, sh) + mul * tot, sh)

def run(fn, ty, k, cfg):
    B = 2 if ty == 'fx16' else 1
    def post(A, st, rv):
        kh, kw = kernel(A, k)
        h, w, n = var('oy'), var('ox'), var('on')
        fy, ny = taps(h, A['as0'], A['oh'], kh, A['sh'], A['pt'], ONE)
        fx, nx = taps(w, A['as1'], A['ow'], kw, A['sw'], A['pl'], ONE)
        y, x = var('ty'), var('tx')
        a = LD('a', B, B * (A['am0'] * (h * A['sh'] - A['pt'] + fy + y) + A['am1'] * (w * A['sw'] - A['pl'] + fx + x) + n))
        c, f, z, fr = (A.get('c1'), A.get('f1'), A.get('z1'), A.get('fa')) if fn == 'maxpool' else (A.get('c2'), A.get('f2'), A.get('z2'), A.get('fo'))
        if ty == 'sa8':
            q = [Fam('q', 2, [], 0, c, name='scale of the output'), Fam('q', 2, [], 2, f, name='scale shift of the output'), Fam('q', 2, [], 4, z, name='zero point of the output')]
        else:
            q = [Fam('q', 1, [], 0, fr, name='fraction bits of the output')]
        if fn == 'maxpool':
            v = mkext('max', TT.bind_family('max', y.is_atom(), ny, mkext('max', TT.bind_family('max', x.is_atom(), nx, a))))
        else:
            rc = recip(ny, nx)
            tot = TT.mksum(y.is_atom(), ny, TT.mksum(x.is_atom(), nx, a))
            v = ave_sa(A, tot, rc, cfg) if ty == 'sa8' else cast(64 if ty == 'fx16' else 32, 8 * B, rc[0] * tot, A['fa'] - A['fo'] + rc[1])
        return [('eq', 'returns OK', rv, ZERO), Fam('o', B, [(h, A['oh']), (w, A['ow']), (n, A['as2'])], B * (A['om0'] * h + A['om1'] * w + n), v)] + q
    return verify(SRC, 'v_%s_%s_k%d' % (fn, ty, k), cfg, lambda A: pre_pool(A, k), post, leafs={**kleaf.ALL, kleaf.RECIP_RE: recip_handler}, leaf_res=kleaf.ALL_RES + [kleaf.RECIP_RE], ranges=RANGES)
def task(*a):
    return runner.from_report(run(*a))
def recip_spec(lo, hi):
    """mantissa m and shift s of 1/d: m = floor(2^s / d) with 2^14 <= m < 2^15; s is added to the shift that is there"""
    def f(A, r, m, ex):
        d = A['div']
        s0 = z3.Concat(*[ex.init[('s', i)] for i in (3, 2, 1, 0)]) if all(('s', i) in ex.init for i in range(4)) else None
        if m is None:
            return [z3.ULE(lo, d), z3.ULE(d, hi)]
        M, S = z3.ZeroExt(48, m('m', 0, 2)), m('s', 0, 4)
        sh = z3.ZeroExt(32, S - s0)
        D = z3.ZeroExt(32, d)
        return [z3.UGE(M, 1 << 14), z3.ULT(M, 1 << 15), z3.UGE(sh, 14), z3.ULE(sh, 31), z3.ULE(M * D, leaf.lit(1, 64) << sh), z3.ULT(leaf.lit(1, 64) << sh, M * D + D)]
    return f
def recip_task(lo, hi):
    M, _ = build.kernel_module(SRC, 'up', ['v_recip'])
    r = leaf.check(M, 'v_recip', 'up', recip_spec(lo, hi))
    r.name = 'v_recip[%d..%d]' % (lo, hi)
    return runner.from_leaf(r)
def tasks(tier):
    t = []
    for fn in ('avepool', 'maxpool'):
        for ty in ('sa8', 'fx16', 'fx8'):
            for k in (0, 3, 2):
                for cfg in ('up', 'convergent', 'fullaccu_rel'):
                    q = cfg == 'up' and ((fn, k) in (('avepool', 0), ('maxpool', 0)) or (fn, ty) == ('avepool', 'fx8') or (fn, ty, k) in (('avepool', 'sa8', 3), ('maxpool', 'sa8', 3), ('maxpool', 'sa8', 2), ('avepool', 'fx16', 3))) or (fn, ty, k, cfg) == ('avepool', 'sa8', 0, 'fullaccu_rel') or (fn, ty, k, cfg) == ('avepool', 'fx8', 0, 'convergent')
                    if q or tier != 'quick':
                        t.append((task, (fn, ty, k, cfg), 300 if tier == 'quick' else 880))
    return t + [(recip_task, (1, 31), 100), (recip_task, (32, 65025), 300), (p03.lemma_task, (), 60)] + leafdeps.tasks(ID, tier, r'cast|norm|asl|asrrnd|mul_i', ('up', 'convergent'))
HARNESS = [{'src': 'pool.cc', 'config': 'up'}, {'src': 'pool.cc', 'config': 'fullaccu_rel'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['tensors satisfy mli_chk_maxpool_hwc / mli_chk_avepool_hwc: padding below the kernel size per side, the output fits the padded input, innermost stride 1, as many output as input channels, output buffer separate from the input',
               'kernel sizes and strides 1..255, paddings 0..255 (their uint8 type), SA8 zero points within [-128, 127], positive scales, per-tensor quantisation',
               'accumulators do not overflow: the sums over the window are treated as mathematical integers']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(run(a[0], a[1], int(a[2]), a[3] if len(a) > 3 else 'up'), False)
