"""Specification vocabulary shared by the kernel properties (numeric formats, ReLU limits, convolution windows)."""
from kern import *
from kleaf import *
import term as TT
def MIN(*a): return mkext('min', [P(x) for x in a])
def MAX(*a): return mkext('max', [P(x) for x in a])
def V(n): return var(n)
def LD(obj, size, off): return mk(('load', obj, size, P(off)))
def norm(w, x): return TT.uf('norm%d' % w, [P(x)], 32, (0, w - 1))
def normcast(wi, wo, x):
    sh = wi - wo - norm(wi, x)
    return cast(wi, wo, x, sh), sh
def shl(c, n, w=32): return TT.uf('shlnn', [P(c), P(n)], w, (0, (1 << (w - 1)) - 1))
def shr(c, n, w=32): return TT.uf('lshrnn', [P(c), P(n)], w, (0, (1 << (w - 1)) - 1))
def tdiv(a, b): return mkdiv('tdiv', P(a), P(b))
def ceil_div(a, d): return tdiv(a + d - 1, d)

def relu_limits(kind, w, zero, scale, shift):
    """kind: 0 none, 1 ReLU, 2 ReLU1, 3 ReLU6; limits of a w-bit container holding value = (q - zero) * scale * 2^-shift"""
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if kind == 0:
        return const(lo), const(hi)
    if kind == 1:
        return MAX(zero, lo), const(hi)
    c, fit = (6, 28) if kind == 3 else (1, 30)
    small = ite(lt(-3, shift), tdiv(shr(6, -shift), scale), ZERO) if kind == 3 else ZERO
    lim = ite(le(0, shift), ite(lt(shift, fit), tdiv(shl(c, shift), scale), const(hi - lo)), small)
    return (MAX(zero, lo) if kind == 3 else MAX(zero - lim, lo)), MIN(lim + zero, hi)

def taps(i, N, nout, k, s, p, d):
    """kernel taps of output position i that meet the input: first tap, number of taps.
    equivalent (lemma window_lemma): tap t is counted iff 0 <= i*s - p + t*d < N"""
    first = ceil_div(MAX(p - i * s, 0), d)
    # last output column may stop short of the end of the input: only what its window covers counts
    n2 = MIN(N, nout * s + (k - 1) * d + 1 - s - p)
    past = ceil_div(MAX(i * s - p + (k - 1) * d + 1 - n2, 0), d)
    return first, k - first - past

def taps_min(i, N, nout, k, s, p, d):
    """the same as taps, with every maximum written as a minimum"""
    first = ceil_div(-MIN(i * s - p, ZERO), d)
    e = nout * s + (k - 1) * d + 1 - s - p - N
    past = ceil_div(-MIN(p + N + MIN(e, ZERO) - i * s - (k - 1) * d - 1, ZERO), d)
    return first, k - first - past

def window_lemma():
    """for every output position: 0 <= i*s-p+t*d < N  <=>  first <= t < first+count   (0<=t<k)"""
    import z3
    i, N, n, k, s, p, d, t = z3.Ints('i N n k s p d t')
    f, g, a, b = z3.Ints('f g a b')          # first, past; d*f >= a > d*(f-1) characterise the ceiling
    mx = lambda x, y: z3.If(x >= y, x, y)
    mn = lambda x, y: z3.If(x <= y, x, y)
    A = mx(p - i * s, 0)
    n2 = mn(N, n * s + (k - 1) * d + 1 - s - p)
    B = mx(i * s - p + (k - 1) * d + 1 - n2, 0)
    hyp = [N >= 1, n >= 1, k >= 1, s >= 1, p >= 0, d >= 1, 0 <= i, i < n, 0 <= t, t < k]
    # step 1 (linear in d*f, d*t): with x=d*t etc.; products are introduced as d*(t-f) with known sign
    ok = []
    S = z3.Solver(); S.set('timeout', 20000)
    r = z3.Int('r')                          # i*s
    q = z3.Int('q')                          # n*s - s  (>= r)
    K, T, F, G = z3.Ints('K T F G')          # (k-1)*d, t*d, f*d, g*d
    A_ = mx(p - r, 0); n2_ = mn(N, q + K + 1 - p); B_ = mx(r - p + K + 1 - n2_, 0)
    base = [N >= 1, p >= 0, d >= 1, r >= 0, q >= r, T >= 0, T <= K, F >= A_, F < A_ + d, G >= B_, G < B_ + d]
    inb = z3.And(0 <= r - p + T, r - p + T < N)
    # t >= f <=> t*d >= f*d ; otherwise t*d <= f*d - d.  t < k-g <=> t*d <= (k-1)*d - g*d ; otherwise t*d >= (k-1)*d - g*d + d
    c1, c2 = z3.Bools('c1 c2')
    S.add(*base, z3.Implies(c1, T >= F), z3.Implies(z3.Not(c1), T <= F - d), z3.Implies(c2, T <= K - G), z3.Implies(z3.Not(c2), T >= K - G + d))
    S.add(z3.And(c1, c2) != inb)
    return S.check() == z3.unsat

def scale16(s1, so, sh0, hi):
    """s1/so as a 16-bit mantissa and the right shift that goes with it, kept within [-31, hi]"""
    n, t = normcast(32, 32, s1)
    m, t2 = normcast(32, 16, mkdiv('tdiv', n, so))
    sh = sh0 - t - t2
    k = MAX(sh - hi, 0) + MIN(31 + sh, 0)
    return asr_rnd(16, m, mktrunc(32, k)), sh - k

def sa_ratio(ic, ifr, oc, ofr):
    """in scale / out scale as a 16-bit mantissa and a right shift"""
    n, t = normcast(32, 32, ic)
    u = tdiv(n, oc)
    k = 16 - norm(32, u)
    return cast(32, 16, u, k), ifr - t - ofr - k

def sa_requant(acc, ratio, rsh, wscale, wshift, oz):
    """accumulator -> SA8 with the output multiplier ratio*wscale (build without FULL_ACCU)"""
    m = ratio * wscale
    nm = norm(32, m)
    mul = mk(('op', 'shl', 32, (m, nm)))
    sh = rsh + wshift + nm - 16
    mul = asr_rnd(32, mul, 16)
    pre = MIN(MAX(sh - 21, 0), 8)
    a = clampw(asr_rnd(32, acc, pre), 16)
    t = cast(64, 16, a * mul, MIN(sh - pre, 63))
    return cast(16, 8, clampw(t + oz, 16))

def sa_requant_full(acc, ratio, rsh, wscale, wshift, oz):
    t = cast(64, 16, acc * (ratio * wscale), MIN(rsh + wshift, 63))
    return cast(16, 8, clampw(t + oz, 16))

def sa_bias(b):
    """bias with 16 significant bits (build without FULL_ACCU)"""
    sh = MAX(16 - norm(32, b), 0)
    return asl(32, mk(('op', 'ashr', 32, (b, sh))), sh)
