"""P03 2D convolution (HWCN kernels): every output element, all strides/paddings/dilations/shapes."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
ID = 'P03'
LEVEL = 'proof'
SRC = build.HERE + '/drv/conv.cc'
RANGES = {x: (1, 255) for x in ('sh', 'sw', 'dh', 'dw')}
RANGES.update({x: (0, 255) for x in ('pt', 'pl', 'pb', 'pr')})
RANGES.update({x: (-128, 127) for x in ('az', 'oz')})
RANGES.update({x: (1, 32767) for x in ('ac', 'oc')})
RANGES.update({x: (1, (1 << 20)) for x in ('kh', 'kw')})

def pre_conv(A, k, kind):
    c = [le(1, A[x]) for x in ('as0', 'as1', 'as2', 'oh', 'ow') + (('n',) if kind != 'dw' else ()) + (('wc_',) if kind == 'grp' else ())]
    kh, kw = (const(k), const(k)) if k else (A['kh'], A['kw'])
    eh, ew = (kh - 1) * A['dh'] + 1, (kw - 1) * A['dw'] + 1
    c += [lt(A['pt'], eh), lt(A['pb'], eh), lt(A['pl'], ew), lt(A['pr'], ew)]
    c += [le(A['oh'] * A['sh'] + eh - A['sh'], A['as0'] + A['pt'] + A['pb']), le(A['ow'] * A['sw'] + ew - A['sw'], A['as1'] + A['pl'] + A['pr'])]
    return c

def dot(A, k, h, w, n, iB, wB, kind):
    """(sum over valid taps and channels of in*w, sum of w over the same taps)"""
    kh, kw = (const(k), const(k)) if k else (A['kh'], A['kw'])
    fy, ny = taps(h, A['as0'], A['oh'], kh, A['sh'], A['pt'], A['dh'])
    fx, nx = taps(w, A['as1'], A['ow'], kw, A['sw'], A['pl'], A['dw'])
    y, x, c = var('ty'), var('tx'), var('tc')
    if k == 1 and kind == 'conv':
        # padding is below the kernel size, hence zero: the single tap always meets the input
        wv = LD('w', wB, wB * (A['wm2'] * c + n))
        return mksum(c.is_atom(), A['as2'], LD('a', iB, iB * (A['am0'] * h * A['sh'] + A['am1'] * w * A['sw'] + c)) * wv), mksum(c.is_atom(), A['as2'], wv)
    ia = A['am0'] * (h * A['sh'] - A['pt'] + (fy + y) * A['dh']) + A['am1'] * (w * A['sw'] - A['pl'] + (fx + x) * A['dw'])
    wa = A['wm0'] * (fy + y) + A['wm1'] * (fx + x) + n
    if kind == 'dw':
        ia = ia + n
    else:
        ia, wa = ia + c, wa + A['wm2'] * c
    if kind == 'grp':
        ia = ia + A['wc_'] * tdiv(n, tdiv(A['n'], tdiv(A['as2'], A['wc_'])))
    def S(b):
        b = mksum(y.is_atom(), ny, mksum(x.is_atom(), nx, b))
        return b if kind == 'dw' else mksum(c.is_atom(), A['wc_'] if kind == 'grp' else A['as2'], b)
    wv = LD('w', wB, wB * wa)
    return S(LD('a', iB, iB * ia) * wv), S(wv)

def fx_out(A, fn, relu, acc, n, wB, oW=16):
    b = LD('b', wB, wB * n)
    bs = A['fa'] + A['fw'] - A['fb']
    W = 64 if wB == 2 else 32
    t = clampw(acc + asr_rnd(W, b, -bs), W)
    v = cast(W, oW, t, A['fa'] + A['fw'] - A['fo'])
    lo, hi = relu_limits(relu, oW, ZERO, ONE, A['fo'])
    return MAX(MIN(v, hi), lo)

def sa_out(A, relu, acc, n, full, per=None):
    b = LD('b', 4, 4 * n)
    t = clampw(acc + (b if full else sa_bias(b)), 32)
    r, rs = sa_ratio(A['ac'], A['af'], A['oc'], A['of'])
    v = (sa_requant_full if full else sa_requant)(t, r, rs, *(per or (LD('wc', 2, 2 * n), LD('wf', 1, n))), A['oz'])
    lo, hi = relu_limits(relu, 8, A['oz'], A['oc'], A['of'])
    return MAX(MIN(v, hi), lo)

def run(ty, k, relu, cfg, fn='conv2d_hwcn', src=SRC, kind='conv'):
    sfx = {'fx16': 'fx16', 'mix': 'fx16_fx8_fx8', 'sa8': 'sa8_sa8_sa32'}[ty]
    e = 'v_%s_%s%s_r%d' % (fn, sfx, '_k%dx%d' % (k, k) if k else '', relu)
    iB, wB = (1, 1) if ty == 'sa8' else (2, 2 if ty == 'fx16' else 1)
    full = cfg == 'fullaccu_rel'
    def post(A, st, rv):
        h, w, n = var('oy'), var('ox'), var('on')
        acc, ws = dot(A, k, h, w, n, iB, wB, kind)
        v = sa_out(A, relu, acc - A['az'] * ws, n, full) if ty == 'sa8' else fx_out(A, fn, relu, acc, n, wB)
        return [('eq', 'returns OK', rv, ZERO),
                Fam('o', iB, [(h, A['oh']), (w, A['ow']), (n, A['as2'] if kind == 'dw' else A['n'])], iB * (A['om0'] * h + A['om1'] * w + n), v)]
    return verify(src, e, cfg, lambda A: pre_conv(A, k, kind), post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, zero=['wz'])
def task(*a):
    return runner.from_report(run(*a))
def lemma_task():
    r = runner.Res('window_lemma')
    r.add('window lemma: tap t of output i is summed exactly when 0 <= i*stride - pad + t*dilation < size', window_lemma())
    r.functions = ['window_lemma']
    return r
def plan(tier, ks, fn, src, kind):
    t = []
    for cfg in ('up', 'fullaccu_rel', 'convergent'):
        for ty in ('sa8', 'fx16', 'mix'):
            for k in ks:
                for relu in (1, 3, 2, 0):
                    q = cfg == 'up' and (k, relu) in ((0, 1), (ks[1], 0), (ks[-1], 0)) or (cfg, ty, k, relu) == ('fullaccu_rel', 'sa8', ks[-1], 1) or (cfg, k, relu) == ('up', 0, 2) and ty != 'sa8' or (cfg, ty, k, relu) == ('convergent', 'mix', ks[1], 3)
                    if (q and tier == 'quick') or (tier != 'quick' and (cfg == 'up' or relu == 1)):
                        t.append((task, (ty, k, relu, cfg, fn, src, kind), 880 if tier != 'quick' else 300))
    return t
def tasks(tier):
    return plan(tier, (0, 1, 3, 5), 'conv2d_hwcn', SRC, 'conv') + [(lemma_task, (), 60)] + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'conv.cc', 'config': 'up'}, {'src': 'conv.cc', 'config': 'fullaccu_rel'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['tensors satisfy mli_chk_conv2d_hwcn: padding below the effective kernel size, the output fits the padded input, innermost stride 1, symmetric weights and bias, output buffer separate from the inputs',
               'strides and dilations 1..255, paddings 0..255 (their uint8 type), kernel sizes up to 2^20, SA8 zero points within [-128, 127], positive scales, per-channel weight scales',
               'accumulators do not overflow: the sums of products are treated as mathematical integers']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(run(a[0], int(a[1]), int(a[2]), a[3] if len(a) > 3 else 'up'), False)
