"""P08 element-wise add/sub/mul/min/max: value of every output element, nothing else written."""
import sys
import build, runner, kleaf, leafdeps
from kern import *
from kleaf import *
ID = 'P08'
LEVEL = 'proof'
SRC = build.HERE + '/drv/eltwise.cc'
OPS = ('add', 'sub', 'mul', 'min', 'max')
def MIN(a, b): return mkext('min', [P(a), P(b)])
def MAX(a, b): return mkext('max', [P(a), P(b)])
def norm(w, x): return TT.uf('norm%d' % w, [P(x)], 32, (0, w - 1))
def normcast(wi, wo, x):
    sh = wi - wo - norm(wi, x)
    return cast(wi, wo, x, sh), sh

def fx_value(op, w, a, b, f1, f2, f3):
    if op == 'mul':
        return cast(64, w, a * b, MIN(f1 + f2 - f3, 2 * w - 1))
    if op in ('min', 'max'):
        return asr_rnd(w, (MIN if op == 'min' else MAX)(a, b), MIN(f1 - f3, w - 1))
    x = asr_rnd(32, a, MIN(f1 - f2, 0))
    y = asr_rnd(32, b, MIN(f2 - f1, 0))
    return cast(64, w, clampw(x + y if op == 'add' else x - y, 32), MIN(MAX(f1, f2) - f3, 2 * w - 1))

def scale16(s1, so, sh0, hi):
    """s1/so as a 16-bit mantissa and the right shift that goes with it, kept within [-31, hi]"""
    n, t = normcast(32, 32, s1)
    m, t2 = normcast(32, 16, mkdiv('tdiv', n, so))
    sh = sh0 - t - t2
    k = MAX(sh - hi, 0) + MIN(31 + sh, 0)
    return asr_rnd(16, m, mktrunc(32, k)), sh - k

def sa_value(op, a, b, A):
    x, y = clampw(a - A['z1'], 16), clampw(b - A['z2'], 16)
    f1, f2, f3 = A['f1'], A['f2'], A['f3']
    if op == 'mul':
        m, sh = scale16(A['c1'] * A['c2'], A['c3'], f1 + f2 - f3, 31)
        pre = MIN(MAX(sh - 21, 0), 3)
        t = cast(32, 16, cast(32, 16, x * y, pre) * m, sh - pre)
    elif op in ('min', 'max'):
        m, sh = scale16(A['c1'], A['c3'], f1 - f3, 23)
        t = cast(32, 16, (MIN if op == 'min' else MAX)(x * m, y * m), sh)
    else:
        m1, s1 = scale16(A['c1'], A['c3'], f1 - f3, 23)
        m2, s2 = scale16(A['c2'], A['c3'], f2 - f3, 23)
        u, v = asr_rnd(32, x * m1, s1), asr_rnd(32, y * m2, s2)
        t = cast(64, 16, clampw(u + v if op == 'add' else u - v, 32))
    return cast(16, 8, clampw(t + A['z3'], 16))

def run(op, sfx, kind, R, cfg):
    w = 16 if sfx == 'fx16' else 8
    def pre(A):
        p = 'b' if kind == 'sv' else 'a'
        c = [le(1, A[p + 's%d' % i]) for i in range(R)]
        c += [eq(A[x + 'm%d' % (R - 1)], 1) for x in (('a', 'b', 'o') if kind == 'vv' else (p, 'o'))]
        if sfx == 'sa8':
            c += [le(1, A['c%d' % i]) for i in (1, 2, 3)]
            c += [le(-128, A['z%d' % i]) for i in (1, 2, 3)] + [le(A['z%d' % i], 127) for i in (1, 2, 3)]
        return c
    def post(A, st, rv):
        p = 'b' if kind == 'sv' else 'a'
        i = [var('i%d' % j) for j in range(R)]
        N = [A[p + 's%d' % j] for j in range(R)]
        B = w // 8
        off = lambda q: B * sum((i[j] * A[q + 'm%d' % j] for j in range(R)), ZERO)
        ld = lambda q: mk(('load', q, B, off(q)))
        a = A['a'] if kind == 'sv' else ld('a')
        b = A['b'] if kind == 'vs' else ld('b')
        val = sa_value(op, a, b, A) if sfx == 'sa8' else fx_value(op, w, a, b, A['f1'], A['f2'], A['f3'])
        return [('eq', 'returns OK', rv, ZERO), Fam('o', B, list(zip(i, N)), off('o'), val)]
    return verify(SRC, 'v_%s_%s_%s%d' % (op, sfx, kind, R), cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES)
QUICK = {('up', 'add', 'fx8', 'vv', 4), ('up', 'mul', 'sa8', 'vv', 4), ('up', 'min', 'fx16', 'vv', 4), ('up', 'sub', 'fx16', 'sv', 4), ('up', 'max', 'sa8', 'vs', 4),
         ('up', 'add', 'sa8', 'vs', 3), ('up', 'mul', 'fx8', 'sv', 3), ('up', 'add', 'fx8', 'vv', 2), ('up', 'mul', 'fx16', 'vs', 2),
         ('convergent', 'add', 'fx8', 'vv', 1), ('convergent', 'add', 'sa8', 'vv', 1), ('convergent', 'mul', 'sa8', 'vv', 1), ('convergent', 'min', 'sa8', 'vv', 1)}
def task(*a):
    return runner.from_report(run(*a))
def tasks(tier):
    t = []
    for cfg in ('up', 'convergent'):
        for op in OPS:
            for sfx in ('fx8', 'fx16', 'sa8'):
                for kind in ('vv', 'sv', 'vs'):
                    for R in (4, 3, 2, 1):
                        if tier == 'quick' and (cfg, R) != ('up', 1) and (cfg, op, sfx, kind, R) not in QUICK:
                            continue
                        t.append((task, (op, sfx, kind, R, cfg), 250))
    return t + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'eltwise.cc', 'config': 'up'}, {'src': 'eltwise.cc', 'config': 'convergent'}]
SECONDS = {'quick': 4, 'thorough': 60, 'search': 40}
ASSUMPTIONS = ['operands and result lie in separate buffers, innermost stride 1, every dimension at least 1',
               'SA8: positive scales, zero points within [-128, 127]; min/max with operands of equal quantisation']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(run(a[0], a[1], a[2], int(a[3]), a[4] if len(a) > 4 else 'up'), False)
