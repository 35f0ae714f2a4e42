"""Contracts of the scalar functions, in z3 bit-vectors of generous width (no wrap-around in the specification itself)."""
import time, traceback
import z3
import ir, build, bvx
from bvx import bv
from kexec import Unsupported

def sx(x, W):
    return z3.SignExt(W - x.size(), x) if x.size() < W else x
def lit(v, W):
    return bv(v, W)
def clamp(x, w):
    """clamp the (wide) x to the range of a w-bit signed integer"""
    W = x.size()
    mx, mn = lit((1 << (w - 1)) - 1, W), lit(-(1 << (w - 1)), W)
    return z3.If(x > mx, mx, z3.If(x < mn, mn, x))
def limit(x, w):
    W = x.size()
    return z3.If(x < 0, lit(-(1 << (w - 1)), W), lit((1 << (w - 1)) - 1, W))

def asl(x, m, w):
    """saturating left shift by m >= 0 (m: 32-bit)"""
    W = 2 * w + 8
    X = sx(x, W)
    big = m >= w
    mm = z3.ZeroExt(W - 32, m) if W > 32 else z3.Extract(W - 1, 0, m)
    r = z3.If(big, z3.If(X == 0, lit(0, W), limit(X, w)), clamp(X << mm, w))
    return z3.Extract(w - 1, 0, r)
def asr_floor(x, n, w):
    """floor(x / 2^n), n >= 0"""
    W = 2 * w + 8
    X = sx(x, W)
    nn = z3.ZeroExt(W - 32, n) if W > 32 else z3.Extract(W - 1, 0, n)
    r = z3.If(n >= w, z3.If(X < 0, lit(-1, W), lit(0, W)), X >> nn)
    return z3.Extract(w - 1, 0, r)
def asl_any(x, n, w):
    return z3.If(n >= 0, asl(x, n, w), asr_floor(x, -n, w))
def asr_any(x, n, w):
    return z3.If(n >= 0, asr_floor(x, n, w), asl(x, -n, w))
def asr_rnd(x, n, w, config):
    """x * 2^-n rounded to the nearest integer.  Half-way cases go up (the rounding constant is added with saturation) or,
    in the convergent configuration, to the even neighbour; negative n: saturating left shift."""
    W = 2 * w + 8
    X = sx(x, W)
    nn = z3.ZeroExt(W - 32, n) if W > 32 else z3.Extract(W - 1, 0, n)
    half = lit(1, W) << (nn - 1)
    q = X >> nn
    if config == 'convergent':
        rem = X - (q << nn)
        r = q + z3.If(z3.Or(rem > half, z3.And(rem == half, (q & 1) == 1)), lit(1, W), lit(0, W))
    else:
        r = clamp(X + half, w) >> nn
    r = z3.If(n >= w, lit(0, W), r)
    r = z3.Extract(w - 1, 0, r)
    return z3.If(n == 0, x, z3.If(n > 0, r, asl(x, -n, w)))
def cast(x, n, wi, wo, config, wr=None):
    """clamp to wo bits of asr_rnd in wr (default wi) bits"""
    wr = wr or wi
    r = asr_rnd(sx(x, wr), n, wr, config)
    if wo >= wr:
        return sx(r, wo)
    return z3.Extract(wo - 1, 0, clamp(r, wo))
def is_norm(x, r, w):
    """r (32 bit) is the number of redundant sign bits of x"""
    W = 2 * w + 40
    X = sx(x, W)
    R = z3.ZeroExt(W - 32, r)
    return z3.And(r >= 0, r <= w - 1, clamp(X << R, w) == X << R,
                  z3.Or(r == w - 1, clamp(X << (R + 1), w) != X << (R + 1)))
def fits(x, w):
    return clamp(x, w) == x

class LeafResult:
    def __init__(s, name):
        s.name, s.ok, s.detail, s.cex = name, False, '', None
        s.time = 0
        s.paths = 0

def check(M, name, config, spec, leafs=None, timeout=120, checkub=True, mem=None):
    """spec(args, ret, mem_after) -> (pre, post) z3 terms.  Proves: for every input with pre, every path ends with post."""
    r = LeafResult('%s[%s]' % (name, config))
    t0 = time.time()
    try:
        F = M.funcs['@' + name]
        ex = bvx.BV(M, leafs=leafs)
        args, names = [], []
        for ty, n in F.params:
            if M.resolve(ty)[0] == 'ptr':
                args.append(bvx.Ptr(n[1:], 0))
            elif M.resolve(ty)[0] == 'fp':
                args.append(z3.FP(n[1:], ex.fsort(ty)))
            else:
                args.append(z3.BitVec(n[1:], ex.width(ty)))
            names.append(n[1:])
        A = dict(zip(names, args))
        pre = spec(A, None, None, ex)
        outs = ex.run(F, args, pre=list(pre))
        if not outs:
            r.detail = 'no execution satisfies the precondition'
        r.paths = len(outs)
        r.ok = bool(outs)
        for st, rv in outs:
            post = spec(A, rv, lambda obj, off, n, st=st: mem_read(ex, st, obj, off, n), ex)
            goal = list(post)
            s = z3.Solver()
            s.set('timeout', timeout * 1000)
            s.add(*st.pc)
            bad = [z3.Not(g) for g in goal]
            if checkub:
                bad += [u for u in st.ub]
            s.add(z3.Or(*bad))
            ex.queries += 1
            c = s.check()
            if c != z3.unsat:
                r.ok = False
                if c == z3.sat:
                    m = s.model()
                    r.cex = {n: sval(m, a) for n, a in A.items() if z3.is_bv(a)}
                    for (o, f), b in ex.init.items():
                        r.cex['%s.%d' % (o, f)] = sval(m, b)
                    ubs = [u for u in st.ub if z3.is_true(m.eval(u, True))]
                    r.detail = 'counterexample %r%s' % (r.cex, ' (undefined operation)' if ubs else '')
                else:
                    r.detail = 'solver gave up: ' + s.reason_unknown()
                break
        r.queries = ex.queries
    except (Unsupported, ir.IRError) as e:
        r.ok = False
        r.detail = 'outside the verifier: ' + str(e)
    except Exception:
        r.ok = False
        r.detail = 'verifier internal: ' + traceback.format_exc()[-1200:]
    r.time = time.time() - t0
    return r

def mem_read(ex, st, obj, off, n):
    bs = [ex.byte(st, obj, off + i) for i in range(n)]
    return z3.Concat(*reversed(bs)) if n > 1 else bs[0]

def sval(m, a):
    v = m.eval(a, True)
    return v.as_signed_long()
