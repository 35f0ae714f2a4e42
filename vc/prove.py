"""Discharging first-order obligations over terms with z3 (linear pass with product lemmas first, then full non-linear)."""
import time, z3
from term import *
import term as T

class Stats:
    def __init__(s):
        s.queries = 0
        s.time = 0.0
        s.syntactic = 0
        s.unknown = 0
        s.expanded = 0
STATS = Stats()

_ctx = z3.main_ctx()
_R = _ctx.ref()
_INT = z3.IntSort().ast
def _nary(f, ts):
    arr = (z3.Ast * len(ts))(*[t.ast for t in ts])
    return z3.ArithRef(f(_R, len(ts), arr), _ctx)
def _num(c):
    return z3.ArithRef(z3.Z3_mk_numeral(_R, str(c), _INT), _ctx)
def _le0(t):
    return z3.BoolRef(z3.Z3_mk_le(_R, t.ast, _ZERO.ast), _ctx)
_ZERO = _num(0)
NODEP = frozenset()
MONO = -1

class Enc:
    """z3 encoding, kept for all queries. lin: every non-linear monomial is an opaque integer; otherwise products are
    products. Each encoded object comes with the set of side conditions (indices in sides) of the atoms inside it."""
    def __init__(s, lin):
        s.lin = lin
        s.sides = []
        s.ac = {}
        s.pc = {}
        s.cc = {}
        s.monos = {}
        s.ufs = {}
    def uf(s, name, n):
        f = s.ufs.get((name, n))
        if f is None:
            f = z3.Function(name, *([z3.IntSort()]*(n+1)))
            s.ufs[(name, n)] = f
        return f
    def side(s, c):
        s.sides.append(c)
        return frozenset((len(s.sides) - 1,))
    def poly(s, p):
        r = s.pc.get(p)
        if r is None:
            ts = []
            dep = NODEP
            for k, c in p.m.items():
                if not k:
                    ts.append(_num(c))
                    continue
                if len(k) == 1:
                    t, d = s.atom(k[0])
                elif s.lin:
                    r = s.monos.get(k)
                    if r is None:
                        d = frozenset((MONO,))
                        for a in k:
                            d |= s.atom(a)[1]
                        t = z3.Int('m!' + '_'.join(map(str, k)))
                        b = bounds(Poly({k: 1}))
                        if b:
                            d |= s.side(z3.And(t >= b[0], t <= b[1]))
                        r = s.monos[k] = t, d
                    t, d = r
                else:
                    l = [s.atom(a) for a in k]
                    t = _nary(z3.Z3_mk_mul, [x for x, _ in l])
                    d = NODEP.union(*[x for _, x in l])
                dep |= d
                ts.append(t if c == 1 else _nary(z3.Z3_mk_mul, [_num(c), t]))
            r = s.pc[p] = _ZERO if not ts else ts[0] if len(ts) == 1 else _nary(z3.Z3_mk_add, ts), dep
        return r
    def atom(s, a):
        r = s.ac.get(a)
        if r is None:
            dep = [NODEP]
            def P_(q):
                x, d = s.poly(q)
                dep[0] |= d
                return x
            def S_(c):
                dep[0] |= s.side(c)
            r = s.atom_(a, T.atom(a), P_, S_, dep)
            r = s.ac[a] = r, dep[0]
        return r
    def atom_(s, a, t, P_, S_, dep):
        k = t[0]
        if k == 'var':
            r = z3.Int(t[1])
            b = var_bounds.get(t[1])
            if b:
                S_(z3.And(r >= b[0], r <= b[1]))
        elif k == 'bv':
            r = z3.Int('bv!%d' % t[1])
        elif k == 'load':
            r = s.uf('ld!%s!%d' % (t[1], t[2]), 1)(P_(t[3]))
            lo, hi = rng_of_width(8*t[2])
            S_(z3.And(r >= lo, r <= hi))
        elif k in ('sum', 'fold'):
            r = z3.Int('s!%d' % a)
        elif k in ('max', 'min'):
            its = []
            for x in t[1]:
                if isinstance(x, Poly):
                    its.append(P_(x))
                else:
                    its.append(z3.Int('f!%d' % atom_id(('famkey', x))))
            r = its[0]
            for x in its[1:]:
                r = z3.If(r >= x, r, x) if k == 'max' else z3.If(r <= x, r, x)
            if any(not isinstance(x, Poly) for x in t[1]):
                v = z3.Int('mx!%d' % a)
                S_(v == r)
                r = v
        elif k == 'trunc':
            lo, hi = rng_of_width(t[1])
            r = z3.Int('tr!%d' % a)
            q = z3.Int('trq!%d' % a)
            S_(z3.And(r >= lo, r <= hi, P_(t[2]) == r + (1 << t[1])*q))
        elif k == 'fdiv':
            r = z3.Int('fd!%d' % a)
            p = P_(t[1])
            S_(z3.And(t[2]*r <= p, p < t[2]*r + t[2]))
        elif k == 'mod':
            p = P_(t[1])
            q = z3.Int('md!%d' % a)
            r = p - t[2]*q
            S_(z3.And(r >= 0, r < t[2]))
        elif k in ('tdiv', 'trem'):
            x, y = P_(t[1]), P_(t[2])
            q = s.uf('tdiv', 2)(x, y)
            rr = s.uf('trem', 2)(x, y)
            r = q if k == 'tdiv' else rr
            c = t[2].const()
            if c is not None and c > 0 or not s.lin:
                S_(z3.Implies(y > 0, x == q*y + rr))
            S_(z3.Implies(z3.And(y > 0, x >= 0), z3.And(rr >= 0, rr < y, q >= 0)))
            S_(z3.Implies(z3.And(y > 0, x <= 0), z3.And(rr <= 0, rr > -y, q <= 0)))
        elif k == 'ite':
            c, d = s.cond(t[1])
            dep[0] |= d
            r = z3.If(c, P_(t[2]), P_(t[3]))
        elif k == 'call':
            r = s.uf('c!' + t[1], len(t[2]))(*[P_(x) for x in t[2]]) if t[2] else z3.Int('c!' + t[1])
            b = call_bounds.get(t[1])
            if b:
                S_(z3.And(r >= b[0], r <= b[1]))
        elif k == 'op':
            r = s.uf('o!%s!%d' % (t[1], t[2]), len(t[3]))(*[P_(x) for x in t[3]])
        else:
            raise ValueError(t)
        return r
    def cond(s, c):
        r = s.cc.get(c)
        if r is None:
            r = s.cc[c] = s.cond_(c)
        return r
    def cond_(s, c):
        k = c[0]
        if k == 'T':
            return z3.BoolVal(True), NODEP
        if k == 'F':
            return z3.BoolVal(False), NODEP
        if k in ('le', 'eq'):
            p, d = s.poly(c[1])
            return _le0(p) if k == 'le' else p == _ZERO, d
        if k == 'not':
            x, d = s.cond(c[1])
            return z3.Not(x), d
        l = [s.cond(x) for x in c[1]]
        return z3.And(*[x for x, _ in l]), NODEP.union(*[d for _, d in l])

LIN, NL = Enc(True), Enc(False)
def reset():
    _zs.clear()
    """forget everything that depends on the declared bounds of variables"""
    global LIN, NL
    LIN, NL = Enc(True), Enc(False)
    for c in (_cache, _er, _mc, _pe, T._ab):
        c.clear()

_cache = {}
SCALE = 1
def limit(sv, ms):
    """a deterministic resource limit, with a wall-clock limit far above it for loaded machines"""
    sv.set('rlimit', ms * RL * SCALE)
    sv.set('timeout', ms * 10 * SCALE)
RL = 5000

def lemmas(hyps, goal):
    """products of pairs of linear hypotheses p<=0, q<=0 give p*q>=0; products with equalities likewise."""
    les = []
    def collect(c):
        if c[0] == 'le':
            les.append(c[1])
        elif c[0] == 'and':
            for x in c[1]:
                collect(x)
        elif c[0] == 'eq':
            pass
    for h in hyps:
        collect(h)
    out = []
    lin = [p for p in les if all(len(k) <= 2 for k in p.m)]
    lin = list(dict.fromkeys(lin))[:40]
    for i in range(len(lin)):
        for j in range(i, len(lin)):
            if len(lin[i].m) * len(lin[j].m) <= 12:
                q = lin[i] * lin[j]
                if max(len(k) for k in q.m) <= 3:
                    out.append(le(-q, 0))
    eqs = []
    def ceq(c):
        if c[0] == 'eq':
            eqs.append(c[1])
        elif c[0] == 'and':
            for x in c[1]:
                ceq(x)
    for h in hyps:
        ceq(h)
    return out

def relevant(hyps, goal):
    return hyps

def prove(hyps, goal, timeout=4000, nl=True, quick=False):
    """True if hyps => goal proved; False if refuted or unknown."""
    if goal == TRUE:
        return True
    hs = tuple(dict.fromkeys(hyps))
    if goal in hs:
        STATS.syntactic += 1
        return True
    if FALSE in hs:
        return True
    key = (hs, goal, quick)
    r = _cache.get(key)
    if r is None:
        r = _prove(hs, goal, timeout, nl, quick)
        _cache[key] = r
    return r

def _bnd(goal):
    if goal[0] == 'le':
        b = bounds(goal[1])
        if b and b[1] <= 0:
            return True
    return False

def _prove(hyps, goal, timeout, nl, quick=False):
    if _bnd(goal):
        STATS.syntactic += 1
        return True
    t0 = time.time()
    STATS.queries += 1
    try:
        sv, dep = query(LIN, hyps, goal, timeout)
        r = sv.check()
        if r == z3.unsat:
            return True
        if quick or MONO not in dep:
            if r == z3.unknown:
                STATS.unknown += 1
            return False
        # product lemmas
        more = NODEP
        for l in lemmas(hyps + (neg(goal),) if goal[0] == 'le' else hyps, goal):
            x, d = LIN.cond(l)
            sv.add(x)
            more |= d
        add_sides(sv, LIN, more - dep)
        r = sv.check()
        if r == z3.unsat:
            return True
        if not nl:
            return False
        sv, dep = query(NL, hyps, goal, timeout)
        r = sv.check()
        if r == z3.unknown:
            STATS.unknown += 1
        return r == z3.unsat
    finally:
        STATS.time += time.time() - t0

def query(e, hyps, goal, timeout):
    sv = z3.Solver()
    limit(sv, timeout)
    dep = NODEP
    for h in hyps:
        x, d = e.cond(h)
        z3.Z3_solver_assert(_R, sv.solver, x.ast)
        dep |= d
    x, d = e.cond(goal)
    z3.Z3_solver_assert(_R, sv.solver, z3.Not(x).ast)
    dep |= d
    add_sides(sv, e, dep)
    return sv, dep

def add_sides(sv, e, dep):
    for i in sorted(dep):
        if i != MONO:
            z3.Z3_solver_assert(_R, sv.solver, e.sides[i].ast)

def infeasible(hyps):
    return prove(hyps, FALSE, nl=False, timeout=2000)

# ---------------------------------------------------------------- equality with sums
def flat_sum(a):
    """sum atom -> (binders [(level,T)..], body Poly) with nested product sums flattened when the body is a single sum factor"""
    t = T.atom(a)
    assert t[0] == 'sum'
    binders = [(t[3], t[1])]
    body = t[2]
    while True:
        (k, c), = body.m.items()
        done = True
        for i, x in enumerate(k):
            tx = T.atom(x)
            if tx[0] == 'sum' and c == 1:
                rest = Poly({tuple(k[:i] + k[i+1:]): 1})
                # capture check: inner binder level must not occur in the rest
                lv = tx[3]
                if atom_id(('bv', lv)) in free(rest) or any(l == lv for l, _ in binders):
                    continue
                binders.append((lv, tx[1]))
                body = rest * tx[2]
                done = False
                break
        if done:
            return binders, body
        if len(body.m) != 1:
            return binders, body

_fresh = itertools.count()
def sum_eq(hyps, a, b, prove_eq):
    """prove two sum atoms equal"""
    ba, pa = flat_sum(a)
    bb, pb = flat_sum(b)
    if len(ba) != len(bb):
        return False
    n = len(ba)
    ks = [var('q!%d' % next(_fresh)) for _ in range(n)]
    sa = Subst({atom_id(('bv', l)): k for (l, _), k in zip(ba, ks)})
    Ta = [sa.poly(t) for _, t in ba]
    body_a = sa.poly(pa)
    return binders_eq(hyps, ks, Ta, body_a, bb, pb, prove_eq)

def binders_eq(hyps, ks, Ta, body_a, bb, pb, prove_eq):
    """the same index set under a permutation of the binders, each possibly run through backwards, gives equal bodies"""
    n = len(ks)
    da = directions(body_a, ks)
    for perm in itertools.permutations(range(n)):
        # binder i of a  <->  binder perm[i] of b
        sb = Subst({atom_id(('bv', bb[perm[i]][0])): ks[i] for i in range(n)})
        Tb = [sb.poly(bb[perm[i]][1]) for i in range(n)]
        hy = list(hyps)
        ok = True
        for i in range(n):
            if not prove_eq(hy, Ta[i], Tb[i]):
                ok = False
                break
            hy += [le(0, ks[i]), lt(ks[i], Ta[i])]
        if not ok:
            continue
        body_b = sb.poly(pb)
        db = directions(body_b, ks)
        ways = []
        for i in range(n):
            if da[i] == db[i] or any(k.is_atom() in free(t) for k in ks for t in Tb):
                ways.append((1,))
            elif da[i] == frozenset(-c for c in db[i]):
                ways.append((-1,))
            else:
                ways.append((1, -1))
        for w in itertools.product(*ways):
            rv = {ks[i].is_atom(): Ta[i] - 1 - ks[i] for i in range(n) if w[i] < 0}
            if prove_eq(hy, body_a, Subst(rv).poly(body_b) if rv else body_b):
                return True
    return False

def directions(p, ks):
    """per binder: the coefficients with which it occurs in the addresses loaded from"""
    ids = [k.is_atom() for k in ks]
    r = [set() for _ in ks]
    for a in all_atoms(p):
        t = T.atom(a)
        if t[0] == 'load':
            for q in children(t):
                for m, c in q.m.items():
                    for j, i in enumerate(ids):
                        if i in m:
                            r[j].add(Poly({tuple(x for x in m if x != i): c}))
    return [frozenset(x) for x in r]

def fam_eq(hyps, x, y, prove_eq):
    if len(x[1]) != len(y[1]):
        return False
    n = len(x[1])
    ks = [var('q!%d' % next(_fresh)) for _ in range(n)]
    sa = Subst({atom_id(('bv', l)): k for (l, _), k in zip(x[1], ks)})
    return binders_eq(hyps, ks, [sa.poly(t) for _, t in x[1]], sa.poly(x[2]), list(y[1]), y[2], prove_eq)

def drop_redundant(hyps, items):
    """remove plain items that are instances (all binders 0) of a family with non-empty range"""
    fams = [x for x in items if not isinstance(x, Poly)]
    out = []
    for x in items:
        if isinstance(x, Poly) and fams:
            hit = False
            for f in fams:
                sb = Subst({atom_id(('bv', l)): ZERO for l, _ in f[1]})
                if sb.poly(f[2]) == x or prove_eq(hyps, sb.poly(f[2]), x):
                    if all(prove(hyps, lt(0, sb.poly(t))) for _, t in f[1]):
                        hit = True
                        break
            if hit:
                continue
        out.append(x)
    return out

def prove_eq(hyps, a, b):
    """hyps => a == b, with structural matching of sums / extrema / folds inside."""
    if a == b:
        STATS.syntactic += 1
        return True
    hyps = list(hyps)
    # bottom-up: match the smallest closed sums / extrema / folds, rewrite b, and continue with the larger ones
    KIND = ('sum', 'max', 'min', 'fold')
    if any(T.atom(x)[0] == 'call' and T.atom(x)[1] in PRODUCT for x in all_atoms(b)):
        KIND += ('call',)
    failed = set()
    while True:
        A, B = all_atoms(a), all_atoms(b)
        oa = sorted((x for x in A if x not in B and T.atom(x)[0] in KIND and closed(x)), key=size_atom)
        ob = sorted((x for x in B if x not in A and T.atom(x)[0] in KIND and closed(x)), key=size_atom)
        hit = None
        for y in ob:
            for x in sorted(oa, key=lambda z: (abs(size_atom(z) - size_atom(y)))):
                if (x, y) in failed:
                    continue
                if match_atom(hyps, x, y):
                    hit = (x, y)
                    break
                failed.add((x, y))
            if hit:
                break
        if not hit:
            break
        b = Subst({hit[1]: Poly({(hit[0],): 1})}).poly(b)
        if a == b:
            return True
    # loads whose addresses are equal stride by stride
    d = {}
    A, B = all_atoms(a), all_atoms(b)
    oa = [x for x in A if x not in B and T.atom(x)[0] == 'load' and closed(x)]
    for y in sorted((x for x in B if x not in A and T.atom(x)[0] == 'load' and closed(x)), key=size_atom):
        for x in oa:
            tx, ty = T.atom(x), T.atom(y)
            if tx[1] == ty[1] and tx[2] == ty[2] and zero_by_stride(hyps, tx[3] - ty[3]):
                d[y] = Poly({(x,): 1})
                break
    if d:
        return prove_eq(hyps, a, Subst(d).poly(b))
    # sums over a range that is empty under the hypotheses
    d = {}
    for p, q in ((a, b), (b, a)):
        other = all_atoms(q)
        for x in all_atoms(p):
            t = T.atom(x)
            if t[0] == 'sum' and x not in other and x not in d and not any(T.atom(v)[0] == 'bv' for v in free_outer(t[1])):
                if empty_range(hyps, t[1]):
                    d[x] = Poly({})
                else:
                    c = small_range(hyps, t[1])
                    if c:
                        STATS.expanded += 1
                        d[x] = sum((Subst({atom_id(('bv', t[3])): const(n)}).poly(t[2]) for n in range(c)), Poly({}))
    if not d:      # extrema of index expressions that the hypotheses decide
        d = decidable(hyps, all_atoms(a) ^ all_atoms(b))
    if d:
        return prove_eq(hyps, Subst(d).poly(a), Subst(d).poly(b))
    return prove(hyps, eq(a, b))

_zs = {}
def zero_by_stride(hyps, p):
    """p == 0 because the factor of every stride (a variable that only occurs in products) is 0"""
    if not p.m:
        return True
    k = (tuple(hyps), p)
    if k not in _zs:
        _zs[k] = zero_by_stride1(hyps, p)
    return _zs[k]
def zero_by_stride1(hyps, p):
    for v in sorted({x for m in p.m if len(m) > 1 for x in m if T.atom(x)[0] == 'var'}):
        c, rest = {}, {}
        for m, n in p.m.items():
            if m.count(v) == 1 and len(m) > 1:
                q = list(m)
                q.remove(v)
                c[tuple(q)] = n
            else:
                rest[m] = n
        c, rest = Poly(c), Poly(rest)
        if v in free(c) or v in free(rest):
            continue
        return zero_by_stride(hyps, c) and zero_by_stride(hyps, rest)
    if any(n % 2 for n in p.m.values()) is False:
        p = Poly({m: n // 2 for m, n in p.m.items()})
    return prove(hyps, eq(p, ZERO))

def decidable(hyps, atoms):
    d = {}
    for x in sorted(atoms, key=size_atom):
        t = T.atom(x)
        if t[0] in ('max', 'min') and closed(x) and any(not isinstance(u, Poly) for u in t[1]):
            u = single(hyps, t)
            if u is not None:
                d[x] = u
        if t[0] in ('max', 'min') and closed(x) and all(isinstance(u, Poly) for u in t[1]) and not any(T.atom(y)[0] in ('load', 'sum', 'call') for y in all_atoms(Poly({(x,): 1}))):
            u = decided(hyps, t)
            if u is not None:
                d[x] = u
    return d
def decide_extrema(hyps, p):
    while True:
        d = decidable(hyps, all_atoms(p))
        if not d:
            return p
        p = Subst(d).poly(p)

def single(hyps, t):
    """families over an index that the hypotheses confine to 0 become their only element"""
    out, ch = [], False
    for u in t[1]:
        if not isinstance(u, Poly) and len(u[1]) == 1 and prove(hyps, eq(u[1][0][1], 1), nl=False):
            out.append(Subst({atom_id(('bv', u[1][0][0])): Poly({})}).poly(u[2]))
            ch = True
        else:
            out.append(u)
    return T.mkext(t[0], out) if ch else None

def decided(hyps, t):
    for u in t[1]:
        if all(v is u or prove(hyps, le(v, u) if t[0] == 'max' else le(u, v), nl=False) for v in t[1]):
            return u
    return None

def small_range(hyps, t):
    if t.const() is not None:
        return t.const() if 1 <= t.const() <= 5 else None
    for c in range(1, 6):
        if prove(hyps, eq(t, c)):
            return c
    return None

_er = {}
def empty_range(hyps, n):
    k = (tuple(hyps), n)
    if k not in _er:
        _er[k] = prove(hyps, le(n, 0), 2000)
    return _er[k]

def closed(a):
    return not any(T.atom(v)[0] == 'bv' for v in free_atom_outer(a))

_fo = {}
def free_outer(p):
    r = frozenset()
    for a in p.atoms():
        r |= free_atom_outer(a)
    return r
def free_atom_outer(a):
    """free variables with bound ones removed"""
    r = _fo.get(a)
    if r is None:
        t = T.atom(a)
        if t[0] in ('var', 'bv'):
            r = frozenset([a])
        elif t[0] == 'sum':
            r = free_outer(t[1]) | (free_outer(t[2]) - {atom_id(('bv', t[3]))})
        elif t[0] in ('max', 'min'):
            r = frozenset()
            for x in t[1]:
                if isinstance(x, Poly):
                    r |= free_outer(x)
                else:
                    q = free_outer(x[2])
                    for l, tt in x[1]:
                        q |= free_outer(tt)
                    q -= {atom_id(('bv', l)) for l, _ in x[1]}
                    r |= q
        elif t[0] == 'fold':
            q = frozenset()
            for x in t[2]:
                q |= free_outer(x)
            r = frozenset(v for v in q if not (T.atom(v)[0] == 'bv' and t[1][2] <= T.atom(v)[1] <= t[1][2] + t[1][1]))
        else:
            r = frozenset()
            for q in children(t):
                r |= free_outer(q)
        _fo[a] = r
    return r

def size_atom(a, memo={}):
    r = memo.get(a)
    if r is None:
        r = 1 + sum(size_poly(q) for q in children(T.atom(a)))
        memo[a] = r
    return r
def size_poly(p):
    return sum(sum(size_atom(x) for x in k) + 1 for k in p.m)

_mc = {}
def match_atom(hyps, x, y):
    if T.atom(x)[0] != T.atom(y)[0]:
        return False
    k = (tuple(hyps), x, y)
    r = _mc.get(k)
    if r is None:
        r = _mc[k] = match_atom1(hyps, x, y)
    return r
def match_atom1(hyps, x, y):
    tx, ty = T.atom(x), T.atom(y)
    if tx[0] != ty[0]:
        return False
    if tx[0] == 'sum':
        return sum_eq(hyps, x, y, prove_eq)
    if tx[0] in ('max', 'min'):
        ix, iy = list(tx[1]), list(ty[1])
        shape = lambda l: sorted(0 if isinstance(u, Poly) else len(u[1]) for u in l)
        if shape(ix) != shape(iy):
            ix, iy = drop_redundant(hyps, ix), drop_redundant(hyps, iy)
        if shape(ix) != shape(iy):
            ix, iy = [drop_redundant(hyps, list(dict.fromkeys(v for u in l for v in expand(hyps, u)))) for l in (ix, iy)]
        if shape(ix) != shape(iy):
            return False
        for u in ix:
            hit = None
            for v in sorted(iy, key=lambda v: v != u):
                if isinstance(u, Poly) != isinstance(v, Poly):
                    continue
                if u == v or (prove_eq(hyps, u, v) if isinstance(u, Poly) else fam_eq(hyps, u, v, prove_eq)):
                    hit = v
                    break
            if hit is None:
                return False
            iy.remove(hit)
        return True
    if tx[0] == 'fold':
        return fold_eq(hyps, tx, ty)
    if tx[0] == 'call' and tx[1] == ty[1] and tx[1] in PRODUCT:
        return product_eq(hyps, tx[2], ty[2])
    return False

PRODUCT = ('recip_m', 'recip_s')      # functions of the product of their arguments
def factors(p):
    """constant content and non-constant polynomial factors"""
    import sympy
    ats = sorted({a for k in p.m for a in k})
    sy = {a: sympy.Symbol('x%d' % a) for a in ats}
    e = sympy.Add(*[c * sympy.Mul(*[sy[a] for a in k]) for k, c in p.m.items()])
    c, fs = sympy.factor_list(e)
    out = []
    for f, n in fs:
        q = sympy.Poly(f, *[sy[a] for a in ats])
        r = Poly({})
        for mono, co in q.terms():
            r = r + Poly({tuple(sorted(a for a, d in zip(ats, mono) for _ in range(d))): int(co)})
        out += [r] * n
    return int(c), out
_pe = {}
def product_eq(hyps, X, Y):
    """the product of the terms X equals the product of the terms Y"""
    key = (tuple(hyps), X, Y)
    if key not in _pe:
        _pe[key] = product_eq1(list(hyps), list(X), list(Y))
    return _pe[key]
def product_eq1(hyps, X, Y):
    if len(X) > len(Y):
        X, Y = Y, X
    if len(X) == len(Y) and any(all(prove_eq(hyps, x, y) for x, y in zip(X, q)) for q in itertools.permutations(Y)):
        return True
    if len(Y) != 2:
        return False
    c, fs = 1, []
    for x in X:
        d, f = factors(decide_extrema(hyps, x))
        c, fs = c * d, fs + f
    for r in range(len(fs) + 1):
        for g in itertools.combinations(range(len(fs)), r):
            u, v = const(1), const(1)
            for i, f in enumerate(fs):
                if i in g:
                    u = u * f
                else:
                    v = v * f
            for d in range(1, abs(c) + 1):
                if c % d == 0 and d <= 64:
                    for sg in (1, -1):
                        if prove(hyps, eq(u * (d * sg), Y[0])) and prove(hyps, eq(v * (c // d * sg), Y[1])):
                            return True
    return False

def expand(hyps, u):
    """a family whose ranges are provably small constants, written out (binder by binder)"""
    if isinstance(u, Poly):
        return [u]
    for i, (l, t) in enumerate(u[1]):
        if any(T.atom(v)[0] == 'bv' for v in free_outer(t)):
            continue
        c = small_range(hyps, t)
        if c:
            r = []
            for n in range(c):
                sb = Subst({atom_id(('bv', l)): const(n)})
                rest = tuple((l2, sb.poly(t2)) for j, (l2, t2) in enumerate(u[1]) if j != i)
                r.append((u[0], rest, sb.poly(u[2])) if rest else sb.poly(u[2]))
            return [w for v in r for w in expand(hyps, v)]
    return [u]

def fold_eq(hyps, tx, ty):
    """('fold', (idx, n, level), (T, init_1..n, step_1..n)); bound: bv level = index, level+1.. = state"""
    if tx[1][1] != ty[1][1]:
        return False
    n = tx[1][1]
    X, Y = tx[2], ty[2]
    if not prove_eq(hyps, X[0], Y[0]):
        return False
    for perm in itertools.permutations(range(n)):
        if perm[tx[1][0]] != ty[1][0]:
            continue
        if not all(prove_eq(hyps, X[1+i], Y[1+perm[i]]) for i in range(n)):
            continue
        ks = [var('q!%d' % next(_fresh)) for _ in range(n+1)]
        sx = Subst({atom_id(('bv', tx[1][2])): ks[0], **{atom_id(('bv', tx[1][2]+1+i)): ks[1+i] for i in range(n)}})
        sy = Subst({atom_id(('bv', ty[1][2])): ks[0], **{atom_id(('bv', ty[1][2]+1+perm[i])): ks[1+i] for i in range(n)}})
        hy = list(hyps) + [le(0, ks[0]), lt(ks[0], X[0])]
        if all(prove_eq(hy, sx.poly(X[1+n+i]), sy.poly(Y[1+n+perm[i]])) for i in range(n)):
            return True
    return False
