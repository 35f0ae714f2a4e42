"""Contracts of scalar leaf functions as seen by kernel proofs (each is proven bit-precisely by the scalar-arithmetic tasks)."""
import re
from term import *
import term as TT
import kexec
from kexec import Unsupported, B

SUF = {'signed char': 8, 'short': 16, 'int': 32, 'long': 64}
def lim(w):
    return -(1 << (w-1)), (1 << (w-1)) - 1

def clampw(x, w):
    lo, hi = lim(w)
    return mkext('max', [const(lo), mkext('min', [const(hi), x])])

def asr_rnd(w, x, n):
    x, n = P(x), P(n)
    if n == ZERO:
        return x
    return TT.uf('asr_rnd%d' % w, [x, n], w)
def asr(w, x, n):
    x, n = P(x), P(n)
    if n == ZERO:
        return x
    return TT.uf('asr%d' % w, [x, n], w)
def asl(w, x, n):
    x, n = P(x), P(n)
    if n == ZERO or x == ZERO:
        return x
    return TT.uf('asl%d' % w, [x, n], w)
def cast(wi, wo, x, n=None):
    """wo-bit saturation of asr_rnd in wi bits"""
    if n is None:
        n = ZERO
    wr = max(wi, wo)
    r = asr_rnd(wr, x, n)
    if wo < wr:
        r = clampw(r, wo)
    return r

LEAF_RE = re.compile(r'\bmli_math_(add_fx|sub_fx|asr_rnd_fx|asr_fx|asl_fx|asl_rnd_fx|acc_ashift_fx|ashift_right_fx|cast_fx|acc_cast_fx|norm_fx|norm_cast_fx|neg_fx|abs_fx|sat_fx|mul_fx_high)<([^>]*)>\(')

def parse(dem):
    m = LEAF_RE.search(dem)
    if not m:
        return None
    return m.group(1), [t.strip() for t in m.group(2).split(',')]

def handler(dem):
    p = parse(dem)
    if not p:
        return None
    name, ty = p
    try:
        w = [SUF[t] for t in ty if t not in ('true', 'false')]
    except KeyError:
        return None
    def I(ex, v):
        return ex.int(v)
    # an operand is a value of its type: adding or subtracting zero never saturates
    if name == 'add_fx':
        def h(ex, st, v, ins):
            x, y = I(ex, v[0]), I(ex, v[1])
            return x if y == ZERO else y if x == ZERO else clampw(x + y, w[0])
        return h
    if name == 'sub_fx':
        def h(ex, st, v, ins):
            x, y = I(ex, v[0]), I(ex, v[1])
            return x if y == ZERO else clampw(x - y, w[0])
        return h
    if name == 'neg_fx':
        return lambda ex, st, v, ins: clampw(-I(ex, v[0]), w[0])
    if name == 'abs_fx':
        return lambda ex, st, v, ins: clampw(mkext('max', [I(ex, v[0]), -I(ex, v[0])]), w[0])
    if name in ('asr_rnd_fx', 'acc_ashift_fx', 'ashift_right_fx'):
        return lambda ex, st, v, ins: asr_rnd(w[0], I(ex, v[0]), I(ex, v[1]))
    if name == 'asl_rnd_fx':
        return lambda ex, st, v, ins: asr_rnd(w[0], I(ex, v[0]), -I(ex, v[1]))
    if name == 'asr_fx':
        return lambda ex, st, v, ins: asr(w[0], I(ex, v[0]), I(ex, v[1]))
    if name == 'asl_fx':
        return lambda ex, st, v, ins: asl(w[0], I(ex, v[0]), I(ex, v[1]))
    if name == 'sat_fx':
        def h(ex, st, v, ins):
            n = I(ex, v[1]).const()
            if n is None:
                return TT.uf('sat%d' % w[0], [I(ex, v[0]), I(ex, v[1])], w[0])
            return clampw(I(ex, v[0]), w[0] - n)
        return h
    if name == 'cast_fx':
        wi, wo = w[0], w[1]
        if (wi, wo) == (16, 64):
            return lambda ex, st, v, ins: asr_rnd(64, I(ex, v[0]), I(ex, v[1]))
        return lambda ex, st, v, ins: cast(wi, wo, I(ex, v[0]), I(ex, v[1]) if len(v) > 1 else None)
    if name == 'acc_cast_fx':
        wo, wi = w[0], w[1]
        return lambda ex, st, v, ins: cast(wi, wo, I(ex, v[0]), I(ex, v[1]))
    if name == 'norm_fx':
        return lambda ex, st, v, ins: TT.uf('norm%d' % w[0], [I(ex, v[0])], 32, (0, w[0]-1))
    if name == 'norm_cast_fx':
        wi, wo = w
        def h(ex, st, v, ins):
            x = I(ex, v[0])
            sh = const(wi - wo) - TT.uf('norm%d' % wi, [x], 32, (0, wi-1))
            p = v[1]
            ex.store(st, p, ('int', 32), 4, sh, ins.text)
            return cast(wi, wo, x, sh)
        return h
    if name == 'mul_fx_high':
        return lambda ex, st, v, ins: TT.uf('mulhigh', [I(ex, v[0]), I(ex, v[1])], 32)
    return None

ALL = {LEAF_RE: handler}
ALL_RES = [LEAF_RE]

# 1/n as a 15-bit mantissa and a shift: get_mul_shift_value (contract proved bit-precisely by the recip task of P07)
RECIP_RE = re.compile(r'\bget_mul_shift_value\(unsigned int, short\*, int\*\)')
def recip(*factors):
    """(mantissa, shift) of 1 / product of the factors"""
    fs = sorted((P(f) for f in factors), key=show)
    return TT.uf('recip_m', fs, 16, (1 << 14, (1 << 15) - 1)), TT.uf('recip_s', fs, 32, (14, 31))
def recip_handler(dem):
    def h(ex, st, v, ins):
        m, s = recip(ex.int(v[0]))
        ex.store(st, v[1], ('int', 16), 2, m, ins.text)
        ex.store(st, v[2], ('int', 32), 4, ex.int(ex.load(st, v[2], ('int', 32), 4)) + s, ins.text)
        return None
    return h
