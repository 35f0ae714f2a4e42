"""P09 ReLU, leaky ReLU and PReLU: value of every output element, nothing else written."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
ID = 'P09'
LEVEL = 'proof'
SRC = build.HERE + '/drv/act.cc'
RANGES = {x: (1, 32767) for x in ('c1', 'c2', 'c3')}
RANGES.update({x: (-128, 127) for x in ('z1', 'z3')})
RANGES['z2'] = (-16384, 16383)

def idx(A, R):
    i = [var('i%d' % j) for j in range(R)]
    return i, [A['as%d' % j] for j in range(R)], lambda q, B: B * sum((i[j] * A[q + 'm%d' % j] for j in range(R)), ZERO)

def leaky_fx(w, a, s, shift, wide):
    if wide:                       # 16 bit: the slope is normalised first
        s, t = normcast(16, 16, s)
        shift = shift - t
    return clampw(MAX(a, 0) + cast(32, w, MIN(a, 0) * s, MIN(shift, 31)), w)

def leaky_sa(A, a, slope):
    """out = (in - zin) * sin/sout [* slope] + zout"""
    pre = norm(32, A['c1']) - norm(16, A['c3'])
    ident, t = normcast(32, 16, tdiv(shl2(A['c1'], pre), A['c3']))
    sh = pre + A['f1'] - A['f3'] - t
    ident, sh = asl(16, ident, MAX(-sh, 0)), MAX(sh, 0)
    al, t1 = normcast(32, 16, (slope - A['z2']) * A['c2'])
    m, t2 = normcast(32, 16, ident * al)
    x = clampw(a - A['z1'], 16)
    pos = clampw(asr_rnd(32, ident * x, sh) + A['z3'], 32)
    neg = clampw(asr_rnd(32, m * x, sh + A['f2'] - t1 - t2) + A['z3'], 32)
    return cast(32, 8, ite(le(A['z1'], a), pos, neg))

def shl2(x, n):
    return mk(('op', 'shl', 32, (P(x), P(n))))

def run(fn, ty, R, par, cfg):
    w = 16 if ty == 'fx16' else 8
    e = {'relu': 'v_relu_%s_k%d_r%d' % (ty, par, R), 'leaky': 'v_leaky_%s_r%d' % (ty, R), 'preluall': 'v_preluall_%s_r%d' % (ty, R), 'prelu': 'v_prelu_%s_a%d_r%d' % (ty, par, R)}[fn]
    def pre(A):
        return [le(1, A['as%d' % i]) for i in range(R)] + [eq(A['am%d' % (R - 1)], 1), eq(A['om%d' % (R - 1)], 1)]
    def post(A, st, rv):
        B = w // 8
        i, N, off = idx(A, R)
        a = LD('a', B, off('a', B))
        q = []
        if fn == 'relu':
            if ty == 'sa8':
                lo, hi = relu_limits(par, 8, A['z1'], A['c1'], A['f1'])
                q = [Fam('q', 2, [], 0, A['c1'], name='scale of the output'), Fam('q', 2, [], 2, A['f1'], name='scale shift of the output'), Fam('q', 2, [], 4, A['z1'], name='zero point of the output')]
            else:
                lo, hi = relu_limits(par, w, ZERO, ONE, A['fa'])
                q = [Fam('q', 1, [], 0, A['fa'], name='fraction bits of the output')]
            v = MIN(MAX(a, lo), hi)
        else:
            s = A['b'] if fn != 'prelu' else LD('b', B, B * i[par])
            if ty == 'sa8':
                v = leaky_sa(A, a, s)
            else:
                v = leaky_fx(w, a, s, A['fa'] + A['fb'] - A['fo'], fn != 'prelu' and w == 16)
        return [('eq', 'returns OK', rv, ZERO), Fam('o', B, list(zip(i, N)), off('o', B), v)] + q
    return verify(SRC, e, cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES)
def task(*a):
    return runner.from_report(run(*a))
def tasks(tier):
    t = []
    for cfg in ('up', 'convergent'):
        for R in (4, 3, 2, 1):
            for ty in ('sa8', 'fx8', 'fx16'):
                l = [('relu', k) for k in (3, 2, 1, 0)] + [('leaky', 0), ('preluall', 0)] + [('prelu', x) for x in range(R)]
                for n, (fn, p) in enumerate(l):
                    if tier == 'quick' and not (cfg == 'up' and (R == 4 or R == 2 and ty != 'fx8') or cfg == 'convergent' and R == 3 and ty == 'sa8'):
                        continue
                    t.append((task, (fn, ty, R, p, cfg), 250))
    return t + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'act.cc', 'config': 'up'}, {'src': 'act.cc', 'config': 'convergent'}]
SECONDS = {'quick': 4, 'thorough': 60, 'search': 40}
ASSUMPTIONS = ['input and output lie in separate buffers with innermost stride 1, every dimension at least 1',
               'SA8: positive scales, zero points of input and output within [-128, 127]']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(run(a[0], a[1], int(a[2]), int(a[3]), a[4] if len(a) > 4 else 'up'), False)
