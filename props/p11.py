"""P11 data movement and permutation: every destination element is the source element it stands for."""
import sys
import build, runner, kleaf
from spec import *
ID = 'P11'
LEVEL = 'proof'
SRC = build.HERE + '/drv/mov.cc'
RANGES = {}
for i in '0123':
    RANGES.update({'pb' + i: (0, 255), 'pe' + i: (0, 255), 'as' + i: (1, 1 << 16), 'am' + i: (1, 1 << 20), 'om' + i: (1, 1 << 20), 'of' + i: (0, 1 << 16), 'sz' + i: (1, 1 << 16), 'ss' + i: (1, 1 << 10), 'dof' + i: (0, 1 << 16)})
V_ET = {'fx8': 8, 'fx16': 16, 'fx4': 4, 'fp32': 544, 'sa8': 264, 'sa32': 288}
TYPES = {'fx16': ('MLI_EL_FX_16', 'int16_t', 2), 'fx8': ('MLI_EL_FX_8', 'int8_t', 1), 'fx4': ('MLI_EL_FX_4', 'int8_t', 1), 'sa32': ('MLI_EL_SA_32', 'int32_t', 4), 'sa8': ('MLI_EL_SA_8', 'int8_t', 1), 'fp32': ('MLI_EL_FP_32', 'float', 4)}

def geom(A, R, perm, S, P_):
    """source position and extent along every destination dimension"""
    g = lambda n, i: A.get(n + str(i))
    ws = []
    for d in range(R):
        s = perm[d]
        cs = g('sz', s) if S else g('as', s) - g('of', s) + (g('pb', s) + g('pe', s) if P_ else ZERO)
        ws.append(ceil_div(cs, g('ss', s)))
    def src(d, i):
        """(position in the source, condition that it lies inside)"""
        s = perm[d]
        p = i * g('ss', s) + g('of', s) - (g('pb', s) if P_ else ZERO)
        return p, [le(0, p), lt(p, g('as', s))] if P_ else []
    return ws, src
def pre_mov(A, R, S, P_):
    g = lambda n, i: A.get(n + str(i))
    c = []
    for s in range(R):
        tot = g('as', s) + (g('pb', s) + g('pe', s) if P_ else ZERO)
        c.append(le(g('of', s) + g('sz', s), tot) if S else lt(g('of', s), tot))
    return c
def data(A, R, perm, S, P_, D, B):
    ws, src = geom(A, R, perm, S, P_)
    I = [var('i%d' % d) for d in range(R)]
    if D:
        dm = [A['om%d' % d] for d in range(R)]
    else:
        dm = [ONE]
        for d in range(R - 1, 0, -1):
            dm.insert(0, dm[0] * (ws[d] + A['dof%d' % d]))
    dst, so, ok = ZERO, ZERO, []
    for d in range(R):
        dst = dst + (I[d] + A['dof%d' % d]) * dm[d]
        p, c = src(d, I[d])
        so = so + p * A['am%d' % perm[d]]
        ok += c
    v = LD('a', B, B * so)
    if ok:
        v = ite(conj(*ok), v, ZERO)
    return ws, src, dm, Fam('o', B, list(zip(I, ws)), B * dst, v)
def mov(ty, R, perm, S, P_, D, cfg='up'):
    et, T, B = TYPES[ty]
    e = 'v_mov_%s_n%d_%d%d%d%d_s%d_p%d_d%d' % ((ty, R) + perm + (S, P_, D))
    def post(A, st, rv):
        ws, _, dm, f = data(A, R, perm, S, P_, D, B)
        q = [Fam('q', 4, [], 4 * d, ws[d] + A['dof%d' % d], name='shape of the destination') for d in range(R)]
        q += [Fam('q', 4, [], 16 + 4 * d, dm[d], name='memory stride of the destination') for d in range(R)]
        q += [Fam('q', 4, [], 32, R, name='rank of the destination'), Fam('q', 4, [], 36, V_ET[ty], name='type of the destination'), Fam('q', 4, [], 40, A['fa'], name='quantisation of the destination')]
        return [('eq', 'returns OK', rv, ZERO), f] + q
    return verify(SRC, e, cfg, lambda A: pre_mov(A, R, S, P_), post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, defs=['-DENT=%s,%s,%s,%d,%d,%d,%d,%d' % ((ty, et, T, R) + perm)])
def movq(R, perm, x, N, cfg='up'):
    """per-axis quantisation: the parameters follow the elements of their axis (padding gets scale 1, shift 0, zero point 0)"""
    xd = perm.index(x)
    def pre(A):
        # without buffers of its own the destination shares the parameters: the quantised dimension must be copied whole (mli_chk_data_movement)
        k = str(x)
        return pre_mov(A, R, 1, 1) + ([eq(A['sz' + k], A['as' + k]), eq(A['of' + k], 0), eq(A['pb' + k], 0), eq(A['pe' + k], 0), eq(A['ss' + k], 1), eq(A['dof%d' % xd], 0)] if not N else [])
    def post(A, st, rv):
        ws, src, dm, f = data(A, R, perm, 1, 1, 1, 1)
        q = [Fam('q', 4, [], 0, xd, name='quantised dimension')] + [Fam('q', 4, [], 4 * k, 1, name='parameter buffers of the destination') for k in (1, 2, 3)]
        i = var('iq')
        p, ok = src(xd, i)
        if N:
            for o, s, B, dflt in (('dsc', 'sc', 2, 1), ('dzp', 'zp', 2, 0), ('dfb', 'fb', 1, 0)):
                q.append(Fam(o, B, [(i, ws[xd])], B * (i + A['dof%d' % xd]), ite(conj(*ok), LD(s, B, B * p), dflt)))
        return [('eq', 'returns OK', rv, ZERO), f] + q
    return verify(SRC, 'v_movq_n%d_%d%d%d%d_x%d_b%d' % ((R,) + perm + (x, N)), cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, defs=['-DQENT=%d,%d,%d,%d,%d,%d' % ((R,) + perm + (x,))])
PSRC = build.HERE + '/drv/permute.cc'
def perm(ty, R, pm, cfg='up'):
    et, T, B = TYPES[ty]
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        return [('eq', 'returns OK', rv, ZERO), pfam(A, R, pm, I, B), Fam('q', 4, [], 0, A['fa'], name='fraction bits of the output')]
    return verify(PSRC, 'v_perm_%s_n%d_%d%d%d%d' % ((ty, R) + pm), cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, defs=['-DPENT=%s,%s,%s,%d,%d,%d,%d,%d' % ((ty, et, T, R) + pm)])
def pfam(A, R, pm, I, B):
    return Fam('o', B, [(I[d], A['as%d' % pm[d]]) for d in range(R)], B * sum((I[d] * A['om%d' % d] for d in range(R)), ZERO), LD('a', B, B * sum((I[d] * A['am%d' % pm[d]] for d in range(R)), ZERO)))
def permq(R, pm, x, N, cfg='up'):
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        q = [('eq', 'returns OK', rv, ZERO), pfam(A, R, pm, I, 1), Fam('q', 4, [], 0, pm.index(x) if x < 9 else -1, name='quantised dimension')]
        if x == 9:
            q += [Fam('q', 4, [], 4 * k, A[n], name='quantisation parameters of the output') for k, n in ((1, 's'), (2, 'z'), (3, 'f'))]
        else:
            q += [Fam('q', 4, [], 4 * k, 1, name='parameter buffers of the output') for k in (1, 2, 3)]
            i = var('iq')
            for o, s, B in (('dsc', 'sc', 2), ('dzp', 'zp', 2), ('dfb', 'fb', 1)) if N else ():
                q.append(Fam(o, B, [(i, A['as%d' % x])], B * i, LD(s, B, B * i)))
        return q
    return verify(PSRC, 'v_permq_n%d_%d%d%d%d_x%d_b%d' % ((R,) + pm + (x, N)), cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, defs=['-DPQENT=%d,%d,%d,%d,%d,%d' % ((R,) + pm + (x,))])
BSRC = build.HERE + '/drv/bcast.cc'
BR = {n + i: (1, 1 << 16) for n in ('as', 'os') for i in '0123'}
BR.update({n + i: (0, 1 << 20) for n in ('am', 'om') for i in '0123'})
BR.update({'ao': (0, 1 << 20), 'oo': (0, 1 << 20)})
def bcast(R, B, cfg='up'):
    def pre(A):
        return [disj(eq(A['as%d' % i], A['os%d' % i]), eq(A['as%d' % i], 1)) for i in range(R)]
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        si = [ite(eq(A['as%d' % d], A['os%d' % d]), I[d], ZERO) for d in range(R)]
        return [Fam('o', B, [(I[d], A['os%d' % d]) for d in range(R)], A['oo'] + B * sum((I[d] * A['om%d' % d] for d in range(R)), ZERO), LD('a', B, A['ao'] + B * sum((si[d] * A['am%d' % d] for d in range(R)), ZERO)))]
    return verify(BSRC, 'v_bcast', cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=BR, defs=['-DBR=%d' % R, '-DBES=%d' % B])
def task(f, *a):
    return runner.from_report(globals()[f](*a))
def tasks(tier):
    import itertools
    full = tier != 'quick'
    t = []
    tys = ['fx8', 'fx16', 'sa32', 'sa8', 'fp32']
    var_ = [(S, P_, D) for S in (0, 1) for P_ in (0, 1) for D in (0, 1, 2)]
    n = 0
    for R in (1, 2, 3, 4):
        for k, pm in enumerate(itertools.permutations(range(R))):
            pm = pm + tuple(range(R, 4))
            if R == 4 and not full and pm not in ((0, 1, 2, 3), (3, 0, 1, 2), (0, 3, 1, 2), (2, 1, 3, 0)):
                continue
            for S, P_, D in var_:
                if not full and R == 4 and k and (S, P_, D) not in ((0, 0, 1), (1, 1, 2), (1, 0, 0)) or not full and R == 4 and (S, P_, D) in ((0, 1, 1), (0, 1, 2), (1, 1, 1), (1, 0, 2)):
                    continue
                n += 1
                for q, ty in enumerate(tys):
                    if q == n % 5 or full:
                        t.append((task, ('mov', ty, R, pm, S, P_, D), 880 if full else 300))
            for x in range(R):
                for N in (0, 1):
                    if full or R < 3 or (R == 3 and N == (x + k) % 2) or (R == 4 and k and N and x == (k + 1) % 4):
                        t.append((task, ('movq', R, pm, x, N), 880 if full else 300))
        for k, pm in enumerate(itertools.permutations(range(R))):
            pm = pm + tuple(range(R, 4))
            for ty in ('fx8', 'fx16'):
                t.append((task, ('perm', ty, R, pm), 100))
            for x in list(range(R)) + [9]:
                for N in (0, 1):
                    if full or (x + N + k) % 3 == 0:
                        t.append((task, ('permq', R, pm, x, N), 100))
        t += [(task, ('bcast', R, B), 200) for B in (1, 2, 4)]
    return sorted(t, key=lambda x: -(x[1][2] if x[1][0] == 'mov' else x[1][1] if x[1][0] == 'movq' else 0))
HARNESS = [{'src': 'mov.cc', 'config': 'up'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['the permutation is a permutation of the dimensions and the slice lies within the padded input (mli_chk_data_movement, mli_chk_permute); the destination does not overlap the source and different destination positions have different addresses',
               'extents up to 65536, memory strides and offsets up to 2^20, sub-sampling steps up to 1024; source memory strides are given (zero strides, which stand for a dense tensor, are exercised natively only)',
               'every variant is verified with the element type, rank and permutation as constants and everything else symbolic; the quick run takes all permutations up to rank 3 with one element type per variant and 4 of the 24 of rank 4, the thorough run all of them',
               'no DMA engine (USE_DMA 0), as in the reference build']
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'b':
        show_report(bcast(int(a[1]), int(a[2])), False)
    elif a[0] == 'p':
        show_report(perm(a[1], int(a[2]), tuple(int(c) for c in a[3])), False)
    elif a[0] == 'pq':
        show_report(permq(int(a[1]), tuple(int(c) for c in a[2]), int(a[3]), int(a[4])), False)
    elif a[0] == 'q':
        show_report(movq(int(a[1]), tuple(int(c) for c in a[2]), int(a[3]), int(a[4])), False)
    else:
        show_report(mov(a[0], int(a[1]), tuple(int(c) for c in a[2]), int(a[3]), int(a[4]), int(a[5])), False)
