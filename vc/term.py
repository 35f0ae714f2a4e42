"""Terms: integer polynomials over hash-consed atoms, conditions, sums and max-reductions, plus translation to z3.

A Poly is an immutable mapping monomial -> int coefficient; a monomial is a sorted tuple of atom ids.
Atoms (interned tuples):
  ('var', name)                      free integer variable (argument, Skolem or loop counter)
  ('bv', level)                      variable bound by the enclosing sum/max of that level
  ('load', obj, size, off)           signed value of `size` bytes at byte offset `off` in the initial content of obj
  ('sum', T, body)                   sum_{0<=bv<T} body    (body: single monomial with coefficient 1)
  ('max', items) ('min', items)      items: frozenset of Poly | ('fam', ((level,T),..), Poly)
  ('trunc', w, p) ('fdiv', p, c) ('mod', p, c) ('tdiv', a, b) ('trem', a, b)
  ('ite', c, a, b)  ('call', name, args)  ('op', name, w, args)
Conditions: ('T',) ('F',) ('le', p) p<=0 ; ('eq', p) p==0 ; ('not', c) ; ('and', cs) ; ('or', cs)
"""
import itertools, sys
sys.setrecursionlimit(100000)

_atoms = {}
_alist = []

def atom_id(t):
    i = _atoms.get(t)
    if i is None:
        i = len(_alist)
        _atoms[t] = i
        _alist.append(t)
    return i

def atom(i):
    return _alist[i]

class Poly:
    __slots__ = ('m', 'h', '_vars')
    def __init__(s, m):
        s.m = m
        s.h = hash(frozenset(m.items()))
        s._vars = None
    def __hash__(s):
        return s.h
    def __eq__(s, o):
        return s is o or (isinstance(o, Poly) and s.h == o.h and s.m == o.m)
    def __add__(s, o):
        if isinstance(o, int):
            o = const(o)
        if len(o.m) > len(s.m):
            s, o = o, s
        m = dict(s.m)
        for k, c in o.m.items():
            v = m.get(k, 0) + c
            if v:
                m[k] = v
            else:
                m.pop(k, None)
        return Poly(m)
    __radd__ = __add__
    def __neg__(s):
        return Poly({k: -c for k, c in s.m.items()})
    def __sub__(s, o):
        if isinstance(o, int):
            o = const(o)
        return s + (-o)
    def __rsub__(s, o):
        return const(o) - s
    def __mul__(s, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            return Poly({k: c*o for k, c in s.m.items()})
        m = {}
        for k1, c1 in s.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
                v = m.get(k, 0) + c1*c2
                if v:
                    m[k] = v
                else:
                    m.pop(k, None)
        return Poly(m)
    __rmul__ = __mul__
    def const(s):
        """integer value if constant else None"""
        if not s.m:
            return 0
        if len(s.m) == 1:
            (k, c), = s.m.items()
            if k == ():
                return c
        return None
    def atoms(s):
        r = set()
        for k in s.m:
            r.update(k)
        return r
    def is_atom(s):
        if len(s.m) == 1:
            (k, c), = s.m.items()
            if len(k) == 1 and c == 1:
                return k[0]
        return None
    def __repr__(s):
        return show(s)

def const(c):
    return Poly({(): c} if c else {})
ZERO = const(0)
ONE = const(1)
def mk(t):
    return Poly({(atom_id(t),): 1})
def var(n):
    return mk(('var', n))
def P(x):
    return const(x) if isinstance(x, int) else x

# ---------------------------------------------------------------- conditions
TRUE = ('T',)
FALSE = ('F',)
def le(a, b):
    """a <= b"""
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return ('le', p)
def lt(a, b):
    return le(P(a) + 1, b)
def eq(a, b):
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # sign normal form
    k = min(p.m)
    if p.m[k] < 0:
        p = -p
    return ('eq', p)
def ne(a, b):
    return neg(eq(a, b))
def neg(c):
    k = c[0]
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'not':
        return c[1]
    if k == 'le':
        return le(1 - c[1], 0)
    return ('not', c)
def conj(*cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c[0] == 'and':
            out.extend(c[1])
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))
def disj(*cs):
    ds = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c[0] == 'not' and c[1][0] == 'and':
            ds.extend(neg(x) for x in c[1][1])
        elif c != FALSE:
            ds.append(c)
    ds = list(dict.fromkeys(ds))
    if 1 < len(ds) <= 24:
        # absorption and resolution: A | A&b = A,  A&l | A&b&!l = A&l | A&b
        L = [dict.fromkeys(d[1] if d[0] == 'and' else (d,)) for d in ds]
        ch = True
        while ch:
            ch = False
            for i, a in enumerate(L):
                for j, b in enumerate(L):
                    if i == j or a is None or b is None or len(a) > len(b):
                        continue
                    out = [l for l in a if l not in b]
                    if not out:
                        L[j] = None
                        ch = True
                    elif len(out) == 1 and neg(out[0]) in b:
                        L[j] = {l: None for l in b if l != neg(out[0])}
                        ch = True
            L = [x for x in L if x is not None]
        ds = [conj(*x) for x in L]
    return neg(conj(*[neg(c) for c in ds]))
def implies(a, b):
    return disj(neg(a), b)

# ---------------------------------------------------------------- traversal
def map_atoms(p, f, memo):
    """Rebuild p with every atom replaced by Poly f(atom tuple)."""
    r = memo.get(p)
    if r is not None:
        return r
    ch = False
    acc = {}
    res = ZERO
    for k, c in p.m.items():
        t = const(c)
        for a in k:
            q = f(a)
            t = t * q
        res = res + t
    memo[p] = res
    return res

class Subst:
    """Simultaneous substitution atom-id -> Poly."""
    def __init__(s, d):
        s.d = d
        s.pm = {}
        s.am = {}
        s.cm = {}
    def poly(s, p):
        r = s.pm.get(p)
        if r is None:
            r = ZERO
            simple = {}
            for k, c in p.m.items():
                reps = [s.atom(a) for a in k]
                if all(q.is_atom() == a for q, a in zip(reps, k)):
                    simple[k] = c
                else:
                    t = const(c)
                    for q in reps:
                        t = t * q
                    r = r + t
            if simple:
                r = r + Poly(simple)
            s.pm[p] = r
        return r
    def atom(s, a):
        r = s.am.get(a)
        if r is None:
            if a in s.d:
                r = s.d[a]
            else:
                r = s.atom_(a)
            s.am[a] = r
        return r
    def atom_(s, a):
        t = atom(a)
        k = t[0]
        if k in ('var', 'bv'):
            return Poly({(a,): 1})
        return rebuild(t, s.poly, s.cond)
    def cond(s, c):
        r = s.cm.get(c)
        if r is None:
            r = map_cond(c, s.poly)
            s.cm[c] = r
        return r

def map_cond(c, f):
    k = c[0]
    if k in ('T', 'F'):
        return c
    if k == 'le':
        return le(f(c[1]), 0)
    if k == 'eq':
        return eq(f(c[1]), 0)
    if k == 'not':
        return neg(map_cond(c[1], f))
    if k == 'and':
        return conj(*[map_cond(x, f) for x in c[1]])
    raise ValueError(c)

def rebuild(t, fp, fc):
    k = t[0]
    if k in ('var', 'bv'):
        return mk(t)
    if k == 'load':
        return mk(('load', t[1], t[2], fp(t[3])))
    if k == 'sum':
        return mksum_raw(fp(t[1]), fp(t[2]), t[3])
    if k in ('max', 'min'):
        items = []
        for it in t[1]:
            if isinstance(it, Poly):
                items.append(fp(it))
            else:
                items.append(('fam', tuple((l, fp(T)) for l, T in it[1]), fp(it[2])))
        return mkext(k, items)
    if k == 'trunc':
        return mktrunc(t[1], fp(t[2]))
    if k == 'fdiv':
        return mkfdiv(fp(t[1]), t[2])
    if k == 'mod':
        return mkmod(fp(t[1]), t[2])
    if k in ('tdiv', 'trem'):
        return mkdiv(k, fp(t[1]), fp(t[2]))
    if k == 'ite':
        return ite(fc(t[1]), fp(t[2]), fp(t[3]))
    if k == 'call':
        return mk(('call', t[1], tuple(fp(x) for x in t[2])))
    if k == 'op':
        return mk(('op', t[1], t[2], tuple(fp(x) for x in t[3])))
    if k == 'fold':
        return mk(('fold', t[1], tuple(fp(x) for x in t[2])))
    raise ValueError(t)

def subst(p, d):
    return Subst(d).poly(p)

def children(t):
    k = t[0]
    if k in ('var', 'bv'):
        return []
    if k == 'load':
        return [t[3]]
    if k == 'sum':
        return [t[1], t[2]]
    if k in ('max', 'min'):
        r = []
        for it in t[1]:
            if isinstance(it, Poly):
                r.append(it)
            else:
                r.extend(T for _, T in it[1])
                r.append(it[2])
        return r
    if k == 'trunc':
        return [t[2]]
    if k in ('fdiv', 'mod'):
        return [t[1]]
    if k in ('tdiv', 'trem'):
        return [t[1], t[2]]
    if k == 'ite':
        return cond_polys(t[1]) + [t[2], t[3]]
    if k == 'call':
        return list(t[2])
    if k == 'op':
        return list(t[3])
    if k == 'fold':
        return list(t[2])
    raise ValueError(t)

def cond_polys(c):
    k = c[0]
    if k in ('T', 'F'):
        return []
    if k in ('le', 'eq'):
        return [c[1]]
    if k == 'not':
        return cond_polys(c[1])
    r = []
    for x in c[1]:
        r.extend(cond_polys(x))
    return r

_fv = {}
def free(p):
    """ids of all leaf variables ('var'/'bv') occurring anywhere in p"""
    if p._vars is None:
        r = set()
        for a in p.atoms():
            r |= free_atom(a)
        p._vars = frozenset(r)
    return p._vars
def free_atom(a):
    r = _fv.get(a)
    if r is None:
        t = atom(a)
        if t[0] in ('var', 'bv'):
            r = frozenset([a])
        else:
            r = frozenset().union(*[free(x) for x in children(t)]) if children(t) else frozenset()
        _fv[a] = r
    return r
def free_cond(c):
    r = frozenset()
    for p in cond_polys(c):
        r |= free(p)
    return r

def all_atoms(p, acc=None):
    if acc is None:
        acc = set()
    for a in p.atoms():
        if a not in acc:
            acc.add(a)
            for q in children(atom(a)):
                all_atoms(q, acc)
    return acc

_lv = {}
def level(p):
    m = 0
    for a in p.atoms():
        m = max(m, level_atom(a))
    return m
def level_atom(a):
    r = _lv.get(a)
    if r is None:
        t = atom(a)
        r = t[1] if t[0] == 'bv' else max([level(q) for q in children(t)] + [0])
        if t[0] == 'sum':
            r = max(r, t[3])
        _lv[a] = r
    return r

# ---------------------------------------------------------------- smart constructors
def mksum(k, T, body):
    """sum_{0<=k<T} body, k a var atom id. Linear in monomials; invariant factors pulled out."""
    res = ZERO
    if T.const() == 0:
        return ZERO
    body = assume_nonempty(T, body)
    for m, c in body.m.items():
        inv = []
        dep = []
        for a in m:
            (dep if k in free_atom(a) else inv).append(a)
        f = Poly({tuple(inv): c})
        if not dep:
            res = res + f * T
            continue
        b = Poly({tuple(dep): 1})
        l = max(level(b), 0) + 1
        b2 = subst(b, {k: mk(('bv', l))})
        if len(b2.m) == 1:
            res = res + f * mk(('sum', T, b2, l))
        else:       # substitution re-normalised the monomial
            res = res + f * sum((mksum_raw(T, Poly({mm: 1}), l) * cc for mm, cc in b2.m.items()), ZERO)
    return res

class Assume(Subst):
    """rewrite under the assumption T>=1 (inside a sum with count T)"""
    def __init__(s, T):
        super().__init__({})
        s.t, s.n = ('le', T), ('le', 1 - T)
    def cond(s, c):
        if c == s.t:
            return FALSE
        if c == s.n:
            return TRUE
        return super().cond(c)
_asm = {}
def assume_nonempty(T, body):
    if T.const() is not None:
        return body
    r = _asm.get((T, body))
    if r is None:
        r = body
        if any(atom(a)[0] == 'ite' and has_cond(atom(a)[1], T) for a in all_atoms(body)):
            r = Assume(T).poly(body)
        _asm[T, body] = r
    return r
def has_cond(c, T):
    if c[0] == 'and':
        return any(has_cond(x, T) for x in c[1])
    if c[0] == 'not':
        return has_cond(c[1], T)
    return c[0] == 'le' and (c[1] == T or c[1] == 1 - T)

def mksum_raw(T, body, l):
    kb = atom_id(('bv', l))
    res = ZERO
    if T.const() == 0:
        return ZERO
    body = assume_nonempty(T, body)
    for m, c in body.m.items():
        inv = []
        dep = []
        for a in m:
            (dep if kb in free_atom(a) else inv).append(a)
        f = Poly({tuple(inv): c})
        if not dep:
            res = res + f * T
        else:
            res = res + f * mk(('sum', T, Poly({tuple(dep): 1}), l))
    return res

def mkext(kind, items):
    """n-ary max/min; flattens."""
    out = []
    cst = None
    for it in items:
        if isinstance(it, Poly):
            a = it.is_atom()
            if a is not None and atom(a)[0] == kind:
                sub = atom(a)[1]
            else:
                sub = [it]
        else:
            sub = [it]
        for x in sub:
            if isinstance(x, Poly) and x.const() is not None:
                v = x.const()
                cst = v if cst is None else (max(cst, v) if kind == 'max' else min(cst, v))
            elif not isinstance(x, Poly) and any(T.const() == 0 for _, T in x[1]):
                pass
            else:
                out.append(x)
    if cst is not None:
        out.append(const(cst))
    s = frozenset(out)
    if len(s) == 1:
        x, = s
        if isinstance(x, Poly):
            return x
    return mk((kind, s))

def bind_family(kind, k, T, p):
    """max/min over 0<=k<T of p, as item(s) list (p may itself be a max/min of the same kind)."""
    a = p.is_atom()
    items = atom(a)[1] if a is not None and atom(a)[0] == kind else [p]
    out = []
    for it in items:
        binders, body = ((), it) if isinstance(it, Poly) else (it[1], it[2])
        if k not in free(body) and all(k not in free(t) for _, t in binders):
            out.append(('fam', (('c', T),) + binders, body) if False else (('fam', ((0, T),) + binders, body)))
            continue
        l = max([level(body)] + [level(t) for _, t in binders] + [b[0] for b in binders]) + 1
        sb = Subst({k: mk(('bv', l))})
        out.append(('fam', ((l, T),) + tuple((lv, sb.poly(t)) for lv, t in binders), sb.poly(body)))
    return out

def rng_of_width(w):
    return -(1 << (w-1)), (1 << (w-1)) - 1

def bounds(p):
    """cheap interval (lo,hi) or None"""
    lo = hi = 0
    for m, c in p.m.items():
        l, h = 1, 1
        for a in m:
            r = abounds(a)
            if r is None:
                return None
            c4 = [l*r[0], l*r[1], h*r[0], h*r[1]]
            l, h = min(c4), max(c4)
        if c >= 0:
            lo += c*l
            hi += c*h
        else:
            lo += c*h
            hi += c*l
    return lo, hi

var_bounds = {}
_ab = {}
def abounds(a):
    t = atom(a)
    k = t[0]
    if k == 'var':
        return var_bounds.get(t[1])
    if a in _ab:
        return _ab[a]
    r = None
    if k == 'load':
        r = rng_of_width(8*t[2])
    elif k == 'trunc':
        r = rng_of_width(t[1])
    elif k == 'mod':
        r = (0, t[2]-1)
    elif k == 'op':
        r = rng_of_width(t[2])
    elif k == 'fold':
        r = None
    elif k == 'ite':
        x, y = bounds(t[2]), bounds(t[3])
        if x and y:
            r = (min(x[0], y[0]), max(x[1], y[1]))
    elif k in ('max', 'min'):
        bs = [bounds(x if isinstance(x, Poly) else x[2]) for x in t[1]]
        plain = [b for b, x in zip(bs, t[1]) if isinstance(x, Poly)]
        if all(bs) and plain:
            if k == 'max':
                r = (max(b[0] for b in plain if b), max(b[1] for b in bs))
            else:
                r = (min(b[0] for b in bs), min(b[1] for b in plain))
    elif k == 'fdiv':
        x = bounds(t[1])
        if x:
            r = (x[0] // t[2], x[1] // t[2])
    elif k == 'call':
        r = call_bounds.get(t[1])
    elif k == 'tdiv':
        x = bounds(t[1])
        if x:
            y = bounds(t[2])
            m = max(abs(x[0]), abs(x[1]))
            r = (-m, m)
            if y and y[0] > 0:
                r = (-(abs(x[0]) // y[0]) if x[0] < 0 else 0, x[1] // y[0] if x[1] > 0 else 0)
    _ab[a] = r
    return r
call_bounds = {}

def mktrunc(w, p):
    lo, hi = rng_of_width(w)
    c = p.const()
    if c is not None:
        return const(((c - lo) % (1 << w)) + lo)
    b = bounds(p)
    if b and lo <= b[0] and b[1] <= hi:
        return p
    # strip inner truncations to >= w, reduce coefficients mod 2^w
    m = {}
    M = 1 << w
    for k, cc in p.m.items():
        cc %= M
        if cc >= M//2:
            cc -= M
        if cc:
            m[k] = cc
    q = Poly(m)
    d = {}
    for a in q.atoms():
        t = atom(a)
        if t[0] == 'trunc' and t[1] >= w:
            d[a] = t[2]
        elif t[0] == 'op' and t[1] == 'lshr':        # the low bits of a logical and of an arithmetic shift agree
            k = t[3][1].const()
            if k is not None and 0 < k <= t[2] - w:
                d[a] = mkfdiv(t[3][0], 1 << k)
    if d:
        r = ZERO
        for k, cc in q.m.items():
            x = const(cc)
            for a in k:
                x = x * d.get(a, Poly({(a,): 1}))
            r = r + x
        return mktrunc(w, r)
    b = bounds(q)
    if b and lo <= b[0] and b[1] <= hi:
        return q
    if q.const() is not None:
        return q
    return mk(('trunc', w, q))

def mkfdiv(p, c):
    if c == 1:
        return p
    v = p.const()
    if v is not None:
        return const(v // c)
    if all(x % c == 0 for x in p.m.values()):
        return Poly({k: x//c for k, x in p.m.items()})
    lo = Poly({k: x for k, x in p.m.items() if x % c})
    if len(lo.m) < len(p.m):
        b = bounds(lo)
        if b and 0 <= b[0] and b[1] < c:      # floor((c*q + r)/c) = q
            return Poly({k: x//c for k, x in p.m.items() if x % c == 0})
    return mk(('fdiv', p, c))
def mkmod(p, c):
    v = p.const()
    if v is not None:
        return const(v % c)
    q = Poly({k: x % c for k, x in p.m.items() if x % c})
    d = {}
    for a in q.atoms():      # trunc to w bits keeps the value modulo 2^w
        t = atom(a)
        if t[0] == 'trunc' and (1 << t[1]) % c == 0:
            d[a] = t[2]
    if d:
        return mkmod(Subst(d).poly(q), c)
    if q.const() is not None:
        return const(q.const() % c)
    b = bounds(q)
    if b and 0 <= b[0] and b[1] < c:
        return q
    return mk(('mod', q, c))
def mkdiv(k, a, b):
    if k == 'tdiv':
        d = (b - a).const()
        if d is not None and d > 0:
            r = bounds(a)
            if r and r[0] >= 0:          # 0 <= a < b
                return ZERO
    x, y = a.const(), b.const()
    if x is not None and y:
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return const(q if k == 'tdiv' else x - q*y)
    if y == 1:
        return a if k == 'tdiv' else ZERO
    return mk((k, a, b))

def has_shl(p):
    for k in p.m:
        for x in k:
            t = atom(x)
            if t[0] == 'op' and t[1] == 'shl' or t[0] == 'ite' and (has_shl(t[2]) or has_shl(t[3])):
                return True
    return False

def shl_args(p):
    r = []
    for k in p.m:
        for x in k:
            t = atom(x)
            if t[0] == 'op' and t[1] == 'shl' and t[3][0].const() is not None:
                r.append(t[3][1])
            elif t[0] == 'ite':
                r += shl_args(t[2]) + shl_args(t[3])
    return r

def guarded(p, facts):
    """rewrite constant << x as shlnn where the enclosing ite conditions keep the result positive and in range"""
    r = ZERO
    for k, c in p.m.items():
        q = const(c)
        for x in k:
            t = atom(x)
            if t[0] == 'op' and t[1] == 'shl':
                a, b = t[3]
                w, ca = t[2], t[3][0].const()
                if ca is not None and ca > 0:
                    top = w - 1 - ca.bit_length()
                    lo = hi = None
                    ba = b.is_atom()
                    if ba is not None and atom(ba)[0] == 'mod' and atom(ba)[2] > top:
                        b = atom(ba)[1]            # equal to its residue once 0 <= b <= top is known
                    for f in facts:
                        d = (f - b).const()
                        if d is not None:           # b + d <= 0
                            hi = -d if hi is None else min(hi, -d)
                        d = (f + b).const()
                        if d is not None:
                            lo = d if lo is None else max(lo, d)
                    if lo is not None and hi is not None and lo >= 0 and hi <= top:
                        q = q * uf('shlnn', [a, b], w, (0, (1 << (w-1)) - 1))
                        continue
            elif t[0] == 'ite' and t[1][0] == 'le' and (has_shl(t[2]) or has_shl(t[3])):
                q = q * ite(t[1], guarded(t[2], facts + [t[1][1]]), guarded(t[3], facts + [1 - t[1][1]]))
                continue
            q = q * Poly({(x,): 1})
        r = r + q
    return r

def ite(c, a, b):
    a, b = P(a), P(b)
    if c[0] == 'le' and (has_shl(a) or has_shl(b)):
        a, b = guarded(a, [c[1]]), guarded(b, [1 - c[1]])
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    # sums over an empty range are zero: (T<=0 ? a : a + c*Sum{T}) is a + c*Sum{T}
    if c[0] == 'le':
        if all(any(atom(x)[0] == 'sum' and atom(x)[1] == c[1] for x in k) for k in (b - a).m):
            return b
        T = 1 - c[1]
        if all(any(atom(x)[0] == 'sum' and atom(x)[1] == T for x in k) for k in (b - a).m):
            return a
    # min/max recognition: a<=b ? a : b
    if c[0] == 'le':
        d = a - b
        if c[1] == d or c[1] == d + 1:      # a<=b or a<b
            return mkext('min', [a, b])
        if c[1] == -d or c[1] == 1 - d:
            return mkext('max', [a, b])
    return mk(('ite', c, a, b))

# ---------------------------------------------------------------- printing
def show(p, d=0):
    if not p.m:
        return '0'
    out = []
    for k, c in p.m.items():
        fs = [show_atom(a, d) for a in k]
        if not fs:
            out.append(str(c))
        else:
            out.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + '*'.join(fs))
    return ' + '.join(out)
def show_atom(a, d=0):
    t = atom(a)
    k = t[0]
    if d > 12:
        return '...'
    if k == 'var':
        return t[1]
    if k == 'bv':
        return '$%d' % t[1]
    if k == 'load':
        return '%s[%s]:%d' % (t[1], show(t[3], d+1), t[2])
    if k == 'sum':
        return 'Sum{$%d<%s}(%s)' % (t[3], show(t[1], d+1), show(t[2], d+1))
    if k in ('max', 'min'):
        its = []
        for x in t[1]:
            its.append(show(x, d+1) if isinstance(x, Poly) else 'fam{%s}(%s)' % (','.join('$%s<%s' % (l, show(T, d+1)) for l, T in x[1]), show(x[2], d+1)))
        return '%s(%s)' % (k, ', '.join(its))
    if k == 'ite':
        return 'ite(%s, %s, %s)' % (show_cond(t[1], d+1), show(t[2], d+1), show(t[3], d+1))
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(show(x, d+1) for x in t[2]))
    if k == 'op':
        return '%s%d(%s)' % (t[1], t[2], ', '.join(show(x, d+1) for x in t[3]))
    return '%s(%s)' % (k, ', '.join(show(x, d+1) if isinstance(x, Poly) else str(x) for x in t[1:]))
def show_cond(c, d=0):
    k = c[0]
    if k in ('T', 'F'):
        return k
    if k == 'le':
        return '%s <= 0' % show(c[1], d)
    if k == 'eq':
        return '%s == 0' % show(c[1], d)
    if k == 'not':
        return '!(%s)' % show_cond(c[1], d)
    return '(' + ' && '.join(show_cond(x, d) for x in c[1]) + ')'

def uf(name, args, w, bounds=None):
    """uninterpreted function symbol with a result range"""
    call_bounds[name] = bounds or (-(1 << (w-1)), (1 << (w-1)) - 1)
    return mk(('call', name, tuple(args)))
