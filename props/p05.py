"""P05 transpose convolution (HWCN kernels): every output element, all geometries with the listed strides."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
import p03
ID = 'P05'
LEVEL = 'proof'
SRC = build.HERE + '/drv/trconv.cc'
RANGES = dict(p03.RANGES)
for x in ('sh', 'sw', 'dh', 'dw'):
    del RANGES[x]
def geom(A, k):
    return (const(k), const(k)) if k else (A['kh'], A['kw'])
def pre_tr(A, k, sh, sw):
    kh, kw = geom(A, k)
    c = [le(1, A[x]) for x in ('as0', 'as1', 'as2', 'oh', 'ow', 'n')]
    c += [lt(A['pt'], kh), lt(A['pb'], kh), lt(A['pl'], kw), lt(A['pr'], kw), le(sh, kh), le(sw, kw)]
    return c + [eq(A['oh'], (A['as0'] - 1) * sh + kh - A['pt'] - A['pb']), eq(A['ow'], (A['as1'] - 1) * sw + kw - A['pl'] - A['pr'])]
def axis(i, N, K, s, p, m):
    """the outputs y with y + p - (K-1-m) a multiple of s, in order: (first one, first input row of output i, first tap, number of taps);
    tap t of output i is weight K-1-m-t*s and meets input row (row of output i) + t"""
    E = K - p - 1
    first = mkmod(P(E - m + s), s)
    q = mkfdiv(P(first - E + m), s)
    r = i + q
    lo = MAX(-r, 0)
    return first, r, lo, MIN(mkfdiv(P(K - m + s - 1), s), N - r) - lo
def run(ty, k, relu, sh, sw, cfg='up'):
    sfx = {'fx16': 'fx16', 'mix': 'fx16_fx8_fx8', 'sa8': 'sa8_sa8_sa32'}[ty]
    e = 'v_transpose_conv2d_hwcn_%s%s_r%d' % (sfx, '_k%dx%d_str2' % (k, k) if k else '', relu)
    iB, wB = (1, 1) if ty == 'sa8' else (2, 2 if ty == 'fx16' else 1)
    full = cfg == 'fullaccu_rel'
    def post(A, st, rv):
        i, j, n, y, x, c = (var(v) for v in ('oy', 'ox', 'on', 'ty', 'tx', 'tc'))
        kh, kw = geom(A, k)
        q = [('eq', 'returns OK', rv, ZERO)]
        for mh in range(sh):
            for mw in range(sw):
                fy, ry, ly, ny = axis(i, A['as0'], kh, sh, A['pt'], mh)
                fx, rx, lx, nx = axis(j, A['as1'], kw, sw, A['pl'], mw)
                ia = A['am0'] * (ry + ly + y) + A['am1'] * (rx + lx + x) + c
                wa = A['wm0'] * (kh - 1 - mh - (ly + y) * sh) + A['wm1'] * (kw - 1 - mw - (lx + x) * sw) + A['wm2'] * c + n
                def S(b):
                    return mksum(c.is_atom(), A['as2'], mksum(y.is_atom(), ny, mksum(x.is_atom(), nx, b)))
                wv = LD('w', wB, wB * wa)
                acc = S(LD('a', iB, iB * ia) * wv)
                v = p03.sa_out(A, relu, acc - A['az'] * S(wv), n, full) if ty == 'sa8' else p03.fx_out(A, None, relu, acc, n, wB)
                q.append(Fam('o', iB, [(i, mkfdiv(P(A['oh'] - fy + sh - 1), sh)), (j, mkfdiv(P(A['ow'] - fx + sw - 1), sw)), (n, A['n'])],
                             iB * (A['om0'] * (fy + i * sh) + A['om1'] * (fx + j * sw) + n), v, name='o at offset %d %d' % (mh, mw)))
        return q
    return verify(SRC, e, cfg, lambda A: pre_tr(A, k, sh, sw), post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, zero=['wz'], defs=['-DHS=%d' % sh, '-DWS=%d' % sw])
def task(*a):
    return runner.from_report(run(*a))
def pattern_lemma(s):
    """the outputs of the patterns m = 0..s-1 are every output position once, and the taps of an output are exactly the
    pairs (input row r, kernel row kr) with r * s + kr == y + p, 0 <= r < N, 0 <= kr < K"""
    import z3
    N, K, p, n, y, m, i, t, m2, i2, r, kr = z3.Ints('N K p n y m i t m2 i2 r kr')
    mx, mn = (lambda a, b: z3.If(a >= b, a, b)), (lambda a, b: z3.If(a <= b, a, b))
    def ax(m):
        E = K - p - 1
        f = (E - m + s) % s
        q = (f - E + m) / s
        return f, q, (n - f + s - 1) / s
    hyp = [N >= 1, K >= s, p >= 0, p < K, n >= 1, 0 <= m, m < s, 0 <= i, i < ax(m)[2]]
    f, q, _ = ax(m)
    y_ = f + i * s
    lo = mx(-(i + q), 0)
    cnt = mn((K - m + s - 1) / s, N - (i + q)) - lo
    def holds(extra, goal):
        S = z3.Solver(); S.set('timeout', 60000)
        S.add(*hyp, *extra)
        S.add(z3.Not(goal))
        return S.check() == z3.unsat
    f2, _, c2 = ax(m2)
    ok = [('inside', holds([], z3.And(0 <= y_, y_ < n))),
          ('once', holds([0 <= m2, m2 < s, 0 <= i2, i2 < c2, f2 + i2 * s == y_], z3.And(m2 == m, i2 == i)))]
    S = z3.Solver(); S.set('timeout', 60000)
    mm = (K - p - 1 - y) % s                       # the pattern that produces output y
    fm, _, cm = ax(mm)
    S.add(N >= 1, K >= s, p >= 0, p < K, n >= 1, 0 <= y, y < n, z3.Not(z3.And(fm <= y, (y - fm) % s == 0, (y - fm) / s < cm)))
    ok.append(('every output', S.check() == z3.unsat))
    ok.append(('a tap is a meeting pair', holds([lo <= t, t < lo + cnt], z3.And(0 <= i + q + t, i + q + t < N, 0 <= K - 1 - m - t * s, K - 1 - m - t * s < K, (i + q + t) * s + K - 1 - m - t * s == y_ + p))))
    ok.append(('a meeting pair is a tap', holds([0 <= r, r < N, 0 <= kr, kr < K, r * s + kr == y_ + p, t == r - i - q], z3.And(lo <= t, t < lo + cnt, kr == K - 1 - m - t * s))))
    return ok
def lemma_task(strides):
    r = runner.Res('pattern_lemma')
    for s in strides:
        for n, ok in pattern_lemma(s):
            r.add('pattern lemma, stride %d: %s' % (s, n), ok)
    r.functions = ['pattern_lemma']
    return r
def tasks(tier):
    T = [(ty, k, relu, 2, 2, 'up') for ty in ('sa8', 'fx16', 'mix') for k, relu in ((0, 1), (2, 3), (4, 2))]
    T += [('sa8', 0, 0, 1, 1, 'up'), ('fx16', 0, 3, 1, 2, 'up'), ('mix', 0, 1, 3, 2, 'up'), ('sa8', 0, 2, 2, 3, 'up'), ('fx16', 0, 0, 4, 1, 'up'), ('fx16', 0, 1, 3, 3, 'up'), ('mix', 0, 2, 1, 5, 'up'), ('sa8', 0, 1, 2, 2, 'fullaccu_rel'), ('mix', 0, 0, 2, 2, 'convergent')]
    big = 5
    if tier != 'quick':
        T += [(ty, 0, 1, a, b, 'up') for ty in ('fx16', 'sa8', 'mix') for a in range(1, 6) for b in range(1, 6)]
        T += [(ty, k, relu, 2, 2, cfg) for ty in ('sa8', 'fx16', 'mix') for k in (0, 2, 4) for relu in (0, 1, 2, 3) for cfg in ('up', 'convergent', 'fullaccu_rel')]
        T += [('fx16', 0, 1, a, b, 'up') for a, b in ((8, 1), (1, 8), (6, 2), (7, 3), (8, 8))]
        big = 8
    return [(task, t, 880 if tier != 'quick' else 300) for t in dict.fromkeys(T)] + [(lemma_task, (range(1, big + 1),), 300)] + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'trconv.cc', 'config': 'up'}, {'src': 'trconv.cc', 'config': 'fullaccu_rel'}]
SECONDS = {'quick': 6, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['tensors satisfy mli_chk_transpose_conv2d_hwcn: padding below the kernel size, strides up to the kernel size, output of exactly the transposed size, dilation 1, innermost stride 1, symmetric weights and bias, output buffer separate from the inputs',
               'proved for the strides listed by the contracts (quick: up to 5 per axis, among them 2x2 and all kernel specialisations; thorough: up to 8), every other parameter symbolic; larger strides are only sampled (bounded)',
               'kernel sizes up to 2^20, SA8 zero points within [-128, 127], positive scales, per-channel weight scales', 'accumulators do not overflow: the sums of products are treated as mathematical integers']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(run(a[0], *map(int, a[1:5]), *a[5:]), False)
