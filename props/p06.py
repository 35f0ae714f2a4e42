"""P06 fully connected layers and matrix products: every output element, all shapes and strides."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
from p03 import sa_out, fx_out
ID = 'P06'
LEVEL = 'proof'
SRC = build.HERE + '/drv/fc.cc'
RANGES = {x: (-128, 127) for x in ('az', 'oz')}
RANGES.update({x: (1, 32767) for x in ('ac', 'oc')})
RANGES.update({x: (1, 1 << 15) for x in ('as0', 'as1', 'as2', 'as3')})

def run(ty, R, relu, cfg, per=0):
    iB, wB = (1, 1) if ty.startswith('sa8') or ty == 'fx8' else (2, 2 if ty == 'fx16' else 1)
    sa = ty.startswith('sa8')
    e = 'v_fc_%s_n%d%s_r%d' % (ty, R, '_p%d' % per if sa else '', relu)
    def pre(A):
        return [le(1, A[x]) for x in ('as0', 'n') + (('as1', 'as2', 'as3') if R == 4 else ())]
    def post(A, st, rv):
        n, c = var('on'), var('tc')
        tot = A['as0'] * A['as1'] * A['as2'] * A['as3'] if R == 4 else A['as0']
        S = lambda b: mksum(c.is_atom(), tot, b)
        wv = LD('w', wB, wB * (A['wm0'] * c + n))
        acc, ws = S(LD('a', iB, iB * c) * wv), S(wv)
        v = sa_out(A, relu, acc if 'ext' in ty else acc - A['az'] * ws, n, cfg == 'fullaccu_rel', (A['pc'], A['pf']) if per else None) if sa else fx_out(A, None, relu, acc, n, wB, 8 if ty == 'fx8' else 16)
        return [('eq', 'returns OK', rv, ZERO), Fam('o', iB, [(n, A['n'])], iB * n, v)]
    return verify(SRC, e, cfg, pre, post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RANGES, zero=['wz'])
MSRC = build.HERE + '/drv/matmul.cc'
MR = {x: (1, 1 << 12) for x in ('h', 'k', 'n')}
MR.update({x: (0, 1 << 14) for x in ('am0', 'bm0', 'om0', 'ao', 'bo', 'oo')})
def matmul(cfg):
    def post(A, st, rv):
        h, n, c = var('oh'), var('on'), var('tc')
        s = mksum(c.is_atom(), A['k'], (LD('a', 1, A['ao'] + A['am0'] * h + c) - LD('z', 1, ZERO)) * (LD('b', 1, A['bo'] + A['bm0'] * c + n) - LD('z', 1, ONE)))
        return [Fam('o', 4, [(h, A['h']), (n, A['n'])], 4 * (A['oo'] + A['om0'] * h + n), s)]
    return verify(MSRC, 'v_matmul', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=MR)
def task(*a):
    return runner.from_report(run(*a))
def mm_task(cfg):
    return runner.from_report(matmul(cfg))
def tasks(tier):
    t = []
    for cfg in ('up', 'convergent', 'fullaccu_rel'):
        for ty in ('fx8', 'fx16', 'fx16_fx8_fx8', 'sa8_sa8_sa32', 'sa8_sa8_sa32_ext_bias'):
            for R in (1, 4):
                for per in (0, 1) if ty.startswith('sa8') else (0,):
                    for relu in (0, 1, 2, 3):
                        if tier != 'quick' or cfg == 'up' or relu == 3 - R // 2:
                            t.append((task, (ty, R, relu, cfg, per), 300 if tier == 'quick' else 880))
    return t + [(mm_task, (c,), 100) for c in ('up', 'dbg')] + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'fc.cc', 'config': 'up'}, {'src': 'fc.cc', 'config': 'fullaccu_rel'}]
SECONDS = {'quick': 8, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['tensors satisfy mli_chk_fully_connected: contiguous input, bias and output, innermost weight stride 1, symmetric weights and bias, output buffer separate from the inputs; the ranks 1 and 4 of the input are verified (the code only uses the product of its shape)',
               'SA8 zero points within [-128, 127], positive scales, weight scales per tensor or per output',
               'accumulators do not overflow: the sums of products are treated as mathematical integers',
               'matrix product: int8 inputs, int32 output (the only types the runtime issues), sizes up to 4096, strides and offsets up to 16384']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(run(a[0], int(a[1]), int(a[2]), a[3], int(a[4]) if len(a) > 4 else 0), False)
