"""P02 conversion between quantised formats (requantisation parameters and element conversion)."""
import sys
import build, runner, kleaf, leafdeps
from spec import *
ID = 'P02'
LEVEL = 'proof'
SRC = build.HERE + '/drv/convert.cc'
TY = {'fx8': ('MLI_EL_FX_8', 'int8_t', 1), 'fx16': ('MLI_EL_FX_16', 'int16_t', 2), 'sa8': ('MLI_EL_SA_8', 'int8_t', 1), 'sa32': ('MLI_EL_SA_32', 'int32_t', 4)}
RG = {'as' + i: (1, 1 << 12) for i in '0123'}
RG.update({n + i: (1, 1 << 16) for n in ('am', 'om') for i in '0123'})
RG.update({'ac': (1, 32767), 'oc': (1, 32767)})
def ratio(ic, ifr, oc, ofr):
    """in scale / out scale: 16-bit mantissa and right shift; as much precision as the 32-bit division allows"""
    t = norm(32, ic) - norm(16, oc)
    m, sh = normcast(32, 16, mkdiv('tdiv', mk(('op', 'shl', 32, (P(ic), t))), P(oc)))
    return m, t + ifr - ofr - sh
def convert(ta, xa, to, xo, R, cfg='up'):
    ea, ca, ba = TY[ta]
    eo, co, bo = TY[to]
    wide = 'sa32' in (ta, to)
    def q(A, n, ty, x, I):
        if ty[0] == 'f':
            return ONE, A[n + 'f'], ZERO
        if x < 0:
            return A[n + 'c'], A[n + 'f'], A[n + 'z']
        return LD(n + 'sc', 2, 2 * I[x]), LD(n + 'fb', 1, I[x]), LD(n + 'zp', 2, 2 * I[x])
    def post(A, st, rv):
        I = [var('i%d' % d) for d in range(R)]
        ic, ifr, iz = q(A, 'a', ta, xa, I)
        oc, ofr, oz = q(A, 'o', to, xo, I)
        m, sh = ratio(ic, ifr, oc, ofr)
        sh = MIN(sh, 63 if wide else 31)
        v = LD('a', ba, ba * sum((I[d] * A['am%d' % d] for d in range(R)), ZERO))
        if wide:
            d = clampw(v - iz, 32)
            n1, n2 = norm(32, d), norm(32, m)
            hi = TT.mkfdiv(asl(32, d, n1) * asl(32, m, n2), 1 << 32)
            r = asr_rnd(32, hi, sh + n1 + n2 - 32)
        else:
            r = asr_rnd(32, clampw(v - iz, 16) * m, sh)
        return [('eq', 'returns OK', rv, ZERO), Fam('o', bo, [(I[d], A['as%d' % d]) for d in range(R)], bo * sum((I[d] * A['om%d' % d] for d in range(R)), ZERO), cast(32, 8 * bo, clampw(r + oz, 32), 0))]
    return verify(SRC, 'v_convert', cfg, lambda A: [], post, leafs=kleaf.ALL, leaf_res=kleaf.ALL_RES, ranges=RG,
                  defs=['-DAE=' + ea, '-DAT=' + ca, '-DAX=%d' % xa, '-DOE=' + eo, '-DOT=' + co, '-DOX=%d' % xo, '-DRK=%d' % R])
def task(*a):
    return runner.from_report(convert(*a))
AXES = [(-1, -1), (0, -1), (-1, 0), (0, 0)]
def tasks(tier):
    T = []
    for cfg in ('up', 'convergent'):
        for ta in TY:
            for to in TY:
                for R in (1, 2, 3, 4):
                    for x in range(-1, R):
                        for xa, xo in sorted({(x if ta[0] == 's' else -1, x if to[0] == 's' else -1), (x if ta[0] == 's' else -1, -1), (-1, x if to[0] == 's' else -1)}):
                            T.append((ta, xa, to, xo, R, cfg))
    T = sorted(set(T))
    if tier == 'quick':     # every pair of formats; every rank and axis with one of the pairs
        T = [t for k, t in enumerate(T) if t[5] == 'up' and (t[4] == 4 and t[1] in (-1, 2) and t[3] in (-1, 2) or t[0] == t[2] == 'sa8') or t[5] == 'convergent' and t[4] == 2 and t[1] == t[3] == -1]
    return [(task, t, 200) for t in T] + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'convert.cc', 'config': 'up', 'procs': 2}, {'src': 'convert.cc', 'config': 'convergent'}]
SECONDS = {'quick': 6, 'thorough': 90, 'search': 60}
ASSUMPTIONS = ['scales are positive; source and destination have the same shape; the two lie in separate buffers (in-place conversion is exercised natively only)', 'shapes up to 4096 per dimension, strides 1 to 65536',
               'conversion from and to floating point is not specified (the verifier does not model floating-point arithmetic)', 'a value wider than 32 bits is saturated before the destination zero point is added']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(convert(a[0], int(a[1]), a[2], int(a[3]), int(a[4])), False)
