"""Checking a driver entry (= real functions of /repo called on symbolic arguments) against a contract."""
import itertools, time, traceback
import ir, kexec, build, prove as PV
from term import *
import term as TT
from prove import prove, prove_eq, infeasible

class Fam:
    """postcondition: for all i in box(binders): obj[off .. off+size) == val   and nothing else of obj changes"""
    def __init__(s, obj, size, binders, off, val, when=TRUE, name=None):
        s.obj, s.size, s.binders, s.off, s.val, s.when = obj, size, binders, off, val, when
        s.name = name or obj

class Obl:
    def __init__(s, name, ok, detail=''):
        s.name, s.ok, s.detail = name, ok, detail

class Report:
    def __init__(s, entry):
        s.entry = entry
        s.obls = []
        s.error = None
        s.paths = 0
        s.loops = 0
        s.assumptions = set()
        s.time = 0
        s.leafs = []
    def add(s, name, ok, detail=''):
        s.obls.append(Obl(s.entry + ': ' + name, ok, detail))
        return ok
    @property
    def ok(s):
        return s.error is None and s.obls and all(o.ok for o in s.obls)
    def failed(s):
        r = [o for o in s.obls if not o.ok]
        if s.error:
            r.append(Obl(s.entry + ': within reach of the verifier', False, s.error))
        return r

def declare(F, cells=(), ranges=()):
    ranges = dict(ranges)
    args, names = [], {}
    for ty, n in F.params:
        n = n[1:]
        if ty[0] == 'ptr':
            a = kexec.Ptr(n, ZERO)
        else:
            w = ty[1]
            var_bounds[n] = (0, 1) if w == 1 else ranges.get(n) or rng_of_width(w)
            a = var(n) if w > 1 else kexec.B(eq(var(n), 1))
        args.append(a)
        names[n] = a if isinstance(a, Poly) else (var(n) if isinstance(a, kexec.B) else a)
    return args, names

def coeff(p, kid):
    r = ZERO
    for m, c in p.m.items():
        if m.count(kid) == 1 and not any(kid in free_atom(x) for x in m if x != kid):
            mm = list(m)
            mm.remove(kid)
            r = r + Poly({tuple(mm): c})
        elif any(x == kid or kid in free_atom(x) for x in m):
            return None
    return r

def box(binders):
    h = []
    for k, T in binders:
        h += [le(0, k), lt(k, T)]
    return h

def simplify_store(st, x):
    """drop empty families, unit binders"""
    hy = list(st.conds)
    d = {}
    binders = []
    for k, T in x.binders:
        T = Subst(d).poly(T) if d else T
        if T == ONE or (T.const() is None and prove(hy + box(binders), eq(T, 1))):
            d[k.is_atom()] = ZERO
        else:
            binders.append((k, T))
    sb = Subst(d)
    conds = [sb.cond(c) for c in x.conds]
    for k, T in binders:
        if T.const() is not None and T.const() <= 0:
            return None
    if infeasible(hy + box(binders) + conds):
        return None
    r = kexec.Store(x.obj, sb.poly(x.off), x.size, sb.poly(x.val) if isinstance(x.val, Poly) else x.val, binders, [c for c in conds if c != TRUE], x.text)
    return r

def align(st, x, f, fb, foff):
    """yield substitutions {k id: Poly over spec binders}, guard list; fb = non-unit spec binders"""
    hy = list(st.conds)
    xb = {k.is_atom() for k, _ in x.binders}
    hy += [c for c in x.conds if not (TT.free_cond(c) & xb)]
    hb = hy + box(x.binders)
    sids = [i.is_atom() for i, _ in fb]
    scoef = [coeff(foff, i) for i in sids]
    xids = [k.is_atom() for k, _ in x.binders]
    xcoef = [coeff(x.off, k) for k in xids]
    if any(c is None for c in scoef + xcoef):
        return
    n, m = len(xids), len(sids)
    if n == m:
        for perm in itertools.permutations(range(m)):
            ok = True
            sg = {}
            for j in range(n):
                a, b = xcoef[j], scoef[perm[j]]
                sg[j] = 1
                if a == b:
                    continue
                if a == -b:          # the loop runs through this dimension backwards
                    sg[j] = -1
                    continue
                if prove(hy + [lt(1, x.binders[j][1])], eq(a, b)):
                    continue
                ok = False
                break
            if not ok:
                continue
            d = {xids[j]: fb[perm[j]][0] * sg[j] for j in range(n)}
            # constant shift per binder: off_x(k) = off_f(i) with k = i - c
            diff = Subst(d).poly(x.off) - foff
            if diff == ZERO or prove(hy + box(fb), eq(diff, 0)):
                yield d, None
                continue
            # decompose diff = sum c_j * coef_j
            cs = {}
            rest = diff
            for j in range(n):
                q = scoef[perm[j]]
                if q.const() is not None:
                    continue
                from kexec import polydiv
                part = ZERO
                for mm, c in list(rest.m.items()):
                    t = polydiv(Poly({mm: c}), q) if len(q.m) == 1 else None
                    if t is not None and not (free(t) & set(sids)):
                        part = part + t
                        rest = rest - Poly({mm: c})
                cs[j] = part
            for j in range(n):
                q = scoef[perm[j]].const()
                if q and all(c % q == 0 for c in rest.m.values()) and not (free(rest) & set(sids)):
                    cs[j] = cs.get(j, ZERO) + Poly({mm: c//q for mm, c in rest.m.items()})
                    rest = ZERO
                    break
            if rest == ZERO:
                yield {xids[j]: (fb[perm[j]][0] - cs.get(j, ZERO)) * sg[j] for j in range(n)}, None
        return
    if n < m:
        # squashed loops: partition the spec binders into n ordered groups
        for assign in itertools.product(range(n), repeat=m):
            if set(assign) != set(range(n)):
                continue
            groups = [[i for i in range(m) if assign[i] == j] for j in range(n)]
            opts = [list(itertools.permutations(g)) for g in groups]
            for orders in itertools.product(*opts):
                ok = True
                d = {}
                for j in range(n):
                    g = orders[j]
                    prod = ONE
                    e = ZERO
                    for i in g:
                        e = e * fb[i][1] + fb[i][0]
                        prod = prod * fb[i][1]
                    T = x.binders[j][1]
                    if not (T == prod or prove(hy, eq(T, prod))):
                        ok = False
                        break
                    d[xids[j]] = e
                if not ok:
                    continue
                diff = Subst(d).poly(x.off) - foff
                if diff == ZERO or prove(hy + box(fb), eq(diff, 0)):
                    # exact re-indexing: the guard is the whole box for multi-groups
                    yield d, orders

def same_value(hy, v, w):
    """hy => v == w, after replacing variables that hy fixes to a constant"""
    d = {}
    for c in hy:
        for e in (c[1] if c[0] == 'and' else (c,)):
            if e[0] == 'eq' and len(e[1].m) <= 2:
                ks = [k for k in e[1].m if k]
                if len(ks) == 1 and len(ks[0]) == 1 and abs(e[1].m[ks[0]]) == 1 and TT.atom(ks[0][0])[0] == 'var':
                    d[ks[0][0]] = const(-e[1].m.get((), 0) * e[1].m[ks[0]])
    if d:
        sb = Subst(d)
        hy = [sb.cond(c) for c in hy]
        v, w = sb.poly(v), sb.poly(w)
    return prove_eq(hy, resolve(hy, v), resolve(hy, w))

def resolve(hy, p):
    """replace conditional terms whose condition hy decides"""
    while True:
        d = {}
        for a in all_atoms(p):
            t = TT.atom(a)
            if t[0] == 'ite' and not any(TT.atom(x)[0] == 'bv' for x in free_cond(t[1])):
                if prove(hy, t[1], nl=False, timeout=1000):
                    d[a] = t[2]
                elif prove(hy, neg(t[1]), nl=False, timeout=1000):
                    d[a] = t[3]
        if not d:
            return p
        p = Subst(d).poly(p)

def merge_bytes(st, x, B):
    """a family of byte copies that moves whole elements of B bytes, as a family of element copies (little endian: the element is its bytes)"""
    if x.size != 1 or not x.binders or not isinstance(x.val, Poly):
        return None
    for j in range(len(x.binders) - 1, -1, -1):
        k, T = x.binders[j]
        if any(c % B for c in T.m.values()):
            continue
        xb = {q.is_atom() for q, _ in x.binders}
        hx = list(st.conds) + [c for c in x.conds if not (TT.free_cond(c) & xb)]
        cf = coeff(x.off, k.is_atom())
        if cf is None or not (cf == ONE or prove(hx, eq(cf, 1))):
            continue
        n = Poly({m: c // B for m, c in T.m.items()})
        e = var(kexec.fresh('k'))
        vs, cs = [], []
        for b in range(B):
            sb = Subst({k.is_atom(): e * B + b})
            vs.append(sb.poly(x.val))
            cs.append(conj(*[sb.cond(c) for c in x.conds]))
        hy = hx + box(x.binders[:j] + [(e, n)] + x.binders[j+1:])
        def same(c, d):
            return c == d or prove(hy + [c], d) and prove(hy + [d], c)
        if not all(same(cs[0], c) for c in cs[1:]):
            continue
        def join(vs):
            if all(v == ZERO for v in vs):
                return ZERO
            t = [TT.atom(v.is_atom()) if v.is_atom() is not None else None for v in vs]
            if any(a is None for a in t) or len({a[0] for a in t}) != 1:
                return None
            if t[0][0] == 'load' and all(a[1] == t[0][1] and a[2] == 1 and (a[3] == t[0][3] + b or prove(hx, eq(a[3], t[0][3] + b))) for b, a in enumerate(t)):
                return mk(('load', t[0][1], B, t[0][3]))
            if t[0][0] == 'ite' and all(same(t[0][1], a[1]) for a in t[1:]):
                u, w = join([a[2] for a in t]), join([a[3] for a in t])
                return None if u is None or w is None else ite(t[0][1], u, w)
            return None
        v = join(vs)
        if v is None:
            continue
        off = Subst({k.is_atom(): e * B}).poly(x.off)
        return kexec.Store(x.obj, off, B, v, x.binders[:j] + [(e, n)] + x.binders[j+1:], [c for c in (cs[0][1] if cs[0][0] == 'and' else [cs[0]]) if c != TRUE], x.text)
    return None

def check_family(rep, st, fams, xs, tag):
    """xs: simplified stores on one object; fams: spec families on that object (normally one)"""
    hy0 = list(st.conds)
    todo = list(xs)
    for f in fams:
        hy = hy0 + [f.when] if f.when != TRUE else hy0
        # unit spec binders
        d = {}
        fb = []
        for i, N in f.binders:
            N = P(N)
            if N == ONE or prove(hy, eq(N, 1)):
                d[i.is_atom()] = ZERO
            else:
                fb.append((i, N))
        sb = Subst(d)
        foff, fval = sb.poly(P(f.off)), sb.poly(P(f.val))
        guards = []
        matched = []
        for x0 in todo:
            x = x0
            if x.size == 1 and f.size > 1:
                x = merge_bytes(st, x0, f.size) or x0
            if x.size != f.size:
                continue
            hit = None
            why = 'no alignment of the store with the specified element addresses: stored at %s over %s, specified %s over %s' % (
                show(x.off), [(show(k), show(T)) for k, T in x.binders], show(foff), [(show(k), show(T)) for k, T in fb])
            for dd, groups in align(st, x, f, fb, foff):
                sx = Subst(dd)
                g = [sx.cond(c) for c in x.conds]
                if groups is None:
                    for k, T in x.binders:
                        kk = dd[k.is_atom()]
                        g += [le(0, kk), lt(kk, sx.poly(T))]
                    inbox = all(prove(hy + g, c) for c in box(fb))
                else:
                    g += box(fb)
                    inbox = True
                if not inbox:
                    why = 'store outside the specified index range'
                    continue
                v = sx.poly(x.val) if isinstance(x.val, Poly) else None
                if v is not None and NOSAT[0]:
                    v = ExactSums().poly(v)
                if v is None:
                    why = 'pointer stored'
                    continue
                if not (sx.poly(x.off) == foff or prove(hy + g, eq(sx.poly(x.off), foff))):
                    why = 'address'
                    continue
                if same_value(hy + g + box(fb), v, fval):
                    hit = g
                    break
                why = 'stored value differs from the specified value\n   stored:    %s\n   specified: %s\n   under: %s' % (show(v), show(fval), [show_cond(c) for c in hy[-12:]])
                hit = None
                badval = why
            if hit is not None:
                guards.append(conj(*hit))
                matched.append(x0)
                rep.add('%s: value and address of every write to %s (%s)' % (tag, f.name, x.text.strip()[:40]), True)
            else:
                pass
                whys[id(x0)] = why
        for x in matched:
            todo.remove(x)
        cov = prove(hy + box(fb), disj(*guards)) if guards else infeasible(hy + box(fb))
        rep.add('%s: every element of %s is written' % (tag, f.name), cov, '' if cov else 'guards: ' + ' | '.join(show_cond(g) for g in guards))
    for x in todo:
        rep.add('%s: write to %s conforms' % (tag, x.obj), False, whys.get(id(x), 'no specified family') + '\n   ' + x.text)

whys = {}
NOSAT = [False]

class ExactSums(Subst):
    """under the assumption that no sum of products (nor its negation) leaves 32 bits: saturating one to 32 bits changes nothing"""
    def __init__(s):
        Subst.__init__(s, {})
    def atom_(s, a):
        q = Subst.atom_(s, a)
        for k1, k2 in (('max', 'min'), ('min', 'max')):
            x = sat_arg(q, k1)
            y = x and sat_arg(x, k2)
            if y and any(TT.atom(z)[0] == 'sum' for z in PV.all_atoms(y)):
                return y
        return q

def sat_arg(q, kind):
    a = q.is_atom()
    if a is None or TT.atom(a)[0] != kind:
        return None
    it = list(TT.atom(a)[1])
    lim = const(-(1 << 31) if kind == 'max' else (1 << 31) - 1)
    if len(it) != 2 or lim not in it or not all(isinstance(i, Poly) for i in it):
        return None
    return it[0] if it[1] == lim else it[1]


def solve_eqs(st, extra=()):
    """(state, substitution): variables that a path condition fixes are replaced by their value; their declared bounds stay as facts"""
    conds = list(st.conds)
    subs = []
    while True:
        best = None
        for c in conds:
            for e in (c[1] if c[0] == 'and' else (c,)):
                if e[0] != 'eq':
                    continue
                for m, k in e[1].m.items():
                    if len(m) == 1 and abs(k) == 1 and TT.atom(m[0])[0] == 'var':
                        rest = Poly({q: -v * k for q, v in e[1].m.items() if q != m})
                        if m[0] in free(rest):
                            continue
                        r = (0 if rest.const() is not None else 1, len(rest.m), TT.atom(m[0])[1])
                        if best is None or r < best[0]:
                            best = (r, m[0], rest)
        if best is None:
            break
        _, a, rest = best
        lo, hi = TT.var_bounds.get(TT.atom(a)[1], (None, None))
        sb = Subst({a: rest})
        conds = [sb.cond(c) for c in conds]
        if lo is not None:
            conds += [le(lo, rest)]
        if hi is not None:
            conds += [le(rest, hi)]
        conds = [c for c in conds if c != TRUE]
        subs.append(sb)
    if not subs:
        return None, None
    st2 = st.clone()
    st2.conds = conds
    return st2, subs

def subst_all(subs, p):
    for sb in subs:
        p = sb.poly(p)
    return p
def check_object(rep, st, fs, xs, tag):
    """check_family, and once more with the path's equalities solved if that does not succeed"""
    r = Report(rep.entry)
    check_family(r, st, fs, xs, tag)
    if not all(o.ok for o in r.obls):
        st2, subs = solve_eqs(st)
        if st2 is not None:
            def C(c):
                for sb in subs:
                    c = sb.cond(c)
                return c
            xs2 = []
            for x in xs:
                y = kexec.Store(x.obj, subst_all(subs, x.off), x.size, subst_all(subs, x.val) if isinstance(x.val, Poly) else x.val,
                                [(k, subst_all(subs, T)) for k, T in x.binders], [d for d in (C(c) for c in x.conds) if d != TRUE], x.text)
                y = simplify_store(st2, y)
                if y is not None:
                    xs2.append(y)
            fs2 = [Fam(f.obj, f.size, [(i, subst_all(subs, P(T))) for i, T in f.binders], subst_all(subs, P(f.off)), subst_all(subs, P(f.val)), C(f.when), f.name) for f in fs]
            r2 = Report(rep.entry)
            check_family(r2, st2, fs2, xs2, tag)
            if all(o.ok for o in r2.obls):
                r = r2
    rep.obls += r.obls


def verify(src, entry, config, pre, post, leafs=None, leaf_res=(), cells=(), defs=(), maxtime=300, inline=True, ranges=(), zero=(), merge_values=False, exact_sums=False):
    """pre(names)->list of conds; post(names, st, ret)->list of Fam ; cells: {name: size} pointer args that are plain structs"""
    rep = Report('%s[%s]' % (entry, config))
    t0 = time.time()
    PV.reset()
    NOSAT[0] = exact_sums
    try:
        M, found = build.kernel_module(src, config, [entry], leaf_res, defs, inline)
        F = M.funcs['@' + entry]
        lf = {}
        for mangled, dem in found.items():
            h = None
            if '@llvm.' in mangled:
                continue
            for r, fn in (leafs or {}).items():
                if r.search(dem):
                    h = fn(dem)
            if h is None:
                continue      # no contract: a call to it is executed from its body, or is out of reach
            lf[mangled] = h
        rep.leafs = sorted(found.values())
        objs = {n: {'kind': 'cell', 'size': sz} for n, sz in dict(cells).items()}
        ex = kexec.Exec(M, leafs=lf, objs=objs)
        ex.zero_objs = set(zero)
        ex.merge_values = merge_values
        args, names = declare(F, (), ranges)
        conds = [c for c in pre(names) if c != TRUE]
        outs = ex.run(F, args, conds=conds)
        rep.loops = ex.loops_closed
        rep.assumptions |= ex.assumptions
        outs = [(st, rv) for st, rv in outs if not infeasible(st.conds)]
        rep.paths = len(outs)
        rep.add('some execution reaches the end', len(outs) > 0)
        for n, (st, rv) in enumerate(outs):
            tag = 'path %d' % n
            fams = post(names, st, rv)
            byobj = {}
            for f in fams:
                if isinstance(f, Fam):
                    byobj.setdefault(f.obj, []).append(f)
                else:      # ('cond', name, cond)
                    ok = prove(st.conds, f[2]) if f[0] == 'cond' else prove_eq(st.conds, f[2], f[3])
                    rep.add('%s: %s' % (tag, f[1]), ok, '' if ok else 'cannot prove %s under %s' % (' '.join(map(lambda z: show_cond(z) if isinstance(z, tuple) else show(z), f[2:])), [show_cond(c) for c in st.conds[-12:]]))
            xs = {}
            for x in st.stores:
                y = simplify_store(st, x)
                if y is not None:
                    xs.setdefault(y.obj, []).append(y)
            for o in xs:
                if o not in byobj:
                    rep.add('%s: only specified memory is written' % tag, False, 'write to %s: %s' % (o, xs[o][0].text))
            for o, fs in byobj.items():
                check_object(rep, st, fs, xs.get(o, []), tag)
    except (kexec.Unsupported, ir.IRError) as e:
        rep.error = '%s: %s' % (type(e).__name__, e)
    except build.ToolError as e:
        rep.error = 'build: ' + str(e)[-1500:]
    except (RecursionError, KeyError, IndexError, ValueError, AttributeError, TypeError, AssertionError) as e:
        rep.error = 'verifier internal: ' + traceback.format_exc()[-1500:]
    rep.time = time.time() - t0
    return rep

def show_report(r, full=False):
    print(r.entry, 'OK' if r.ok else 'FAIL', 'paths', r.paths, 'loops', r.loops, 'obligations %d/%d' % (sum(o.ok for o in r.obls), len(r.obls)), '%.1fs' % r.time, 'queries', PV.STATS.queries)
    for o in (r.obls + ([Obl('error', False, r.error)] if r.error else []) if full else r.failed()):
        print('   ', 'ok  ' if o.ok else 'FAIL', o.name, o.detail[:3000])
