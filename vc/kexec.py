"""Symbolic execution of LLVM IR with loop summarisation (deductive: every loop is replaced by the closed form of its
recurrences, valid for every trip count; nothing is unrolled except loops whose trip count is a literal)."""
import itertools, re
from term import *
import term as TT
import ir
from prove import prove, infeasible

class Unsupported(Exception):
    pass
class MemDep(Unsupported):
    """a loop reads a data object it also writes; cands: loop-invariant addresses stored to"""
    def __init__(s, msg, cands):
        Unsupported.__init__(s, msg)
        s.cands = cands
class ForkEx(Exception):
    def __init__(s, cond):
        s.cond = cond

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off):
        s.obj, s.off = obj, off
    def __repr__(s):
        return '&%s[%s]' % (s.obj, show(s.off))
    def __eq__(s, o):
        return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off
    def __hash__(s):
        return hash((s.obj, s.off))
class B:
    __slots__ = ('c',)
    def __init__(s, c):
        s.c = c
    def __eq__(s, o):
        return isinstance(o, B) and s.c == o.c
    def __hash__(s):
        return hash(s.c)
    def __repr__(s):
        return 'B(%s)' % show_cond(s.c)
class Undef:
    def __repr__(s):
        return 'undef'
UNDEF = Undef()

class Store:
    """val written at obj+off (size bytes) for every value of the binders (k in [0,T)) satisfying conds; binders outermost first"""
    __slots__ = ('obj', 'off', 'size', 'val', 'binders', 'conds', 'text')
    def __init__(s, obj, off, size, val, binders, conds, text):
        s.obj, s.off, s.size, s.val, s.binders, s.conds, s.text = obj, off, size, val, binders, conds, text

class State:
    __slots__ = ('env', 'cells', 'stores', 'conds', 'loads', 'prev', 'written', 'promo', 'base')
    def __init__(s):
        s.promo = ()       # addresses kept in a cell while a loop runs: (obj, off, size, cell)
        s.base = 0         # stores from this index on belong to the current iteration of the innermost loop
    def clone(s):
        n = State()
        n.env = dict(s.env)
        n.cells = {o: dict(c) for o, c in s.cells.items()}
        n.stores = list(s.stores)
        n.conds = list(s.conds)
        n.loads = s.loads
        n.prev = s.prev
        n.written = set(s.written)
        n.promo, n.base = s.promo, s.base
        return n

_ctr = itertools.count()
def fresh(pfx):
    return '%s!%d' % (pfx, next(_ctr))

MAXPATHS = 400

def div_exact(p, n):
    """p / n when every coefficient is a multiple of n"""
    if p.m and all(c % n == 0 for c in p.m.values()):
        return TT.Poly({k: c // n for k, c in p.m.items()})
    return None

ADDR = 'addr(%s)'
def mkptr(p):
    """an integer that is the address of exactly one object plus an offset is a pointer into that object"""
    a = [x for x in p.atoms() if TT.atom(x)[0] == 'var' and TT.atom(x)[1].startswith('addr(')]
    if len(a) == 1 and p.m.get((a[0],)) == 1 and not any(a[0] in m and m != (a[0],) for m in p.m):
        return Ptr(TT.atom(a[0])[1][5:-1], p - var(TT.atom(a[0])[1]))
    return Ptr('int', p)

class Exec:
    merge_values = False
    def __init__(s, mod, leafs=None, objs=None):
        s._chain, s._live, s.joins = {}, {}, 0
        s.M = mod
        s.leafs = leafs or {}
        s.objs = objs or {}      # name -> dict(kind='cell'|'data', size)
        s.assumptions = set()
        s.npaths = 0
        s.loops_closed = 0
        s.modcells = {}
        s.unroll_max = 70

    # ------------------------------------------------------------ values
    def ival(s, st, ty, v):
        """evaluate operand"""
        k = v[0]
        if k == 'l':
            return st.env[v[1]]
        if k == 'c':
            if ty == ('int', 1):
                return B(TRUE if v[1] else FALSE)
            return const(s.norm(v[1], ty))
        if k == 'null':
            return Ptr('null', ZERO)
        if k == 'undef':
            return UNDEF
        if k == 'g':
            return Ptr('@' + v[1][1:], ZERO)
        if k == 'zero':
            t = s.M.resolve(ty)
            if t[0] == 'int':
                return const(0)
            if t[0] == 'ptr':
                return Ptr('null', ZERO)
            if t[0] == 'struct':
                return [s.ival(st, f, ('zero',)) for f in t[1]]
            if t[0] == 'array':
                return [s.ival(st, t[2], ('zero',)) for _ in range(t[1])]
            return mk(('op', 'fpconst', 64, (const(0),)))
        if k == 'fp':
            return mk(('op', 'fp:' + v[1], 64, ()))
        if k == 'ce':
            if v[1] == 'gep':
                return s.gep(st, v[2], v[3])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return s.cast(st, v[1], v[2], s.ival(st, v[2], v[3]), v[4])
        if k == 'agg':
            return [s.ival(st, t, x) for t, x in v[1]]
        raise Unsupported('operand %r' % (v,))
    def norm(s, c, ty):
        if ty[0] == 'int':
            w = ty[1]
            c &= (1 << w) - 1
            if c >= 1 << (w-1):
                c -= 1 << w
        return c
    def int(s, x, what=''):
        if isinstance(x, Poly):
            return x
        if isinstance(x, Undef):
            return var(fresh('undef'))
        if isinstance(x, B):
            return ite(x.c, const(1), const(0))
        if isinstance(x, Ptr):
            return var(ADDR % x.obj) + x.off if x.obj != 'null' and x.obj != 'int' else x.off
        raise Unsupported('int? %r' % (x,))
    def cond(s, x):
        if isinstance(x, B):
            return x.c
        if isinstance(x, Poly):
            return ne(x, 0)
        if isinstance(x, Undef):
            return eq(var(fresh('undef')), 0)
        raise Unsupported('cond? %r' % (x,))

    def gep(s, st, bt, ops):
        p = s.ival(st, *ops[0])
        if isinstance(p, Undef):
            return UNDEF
        if isinstance(p, Poly):
            p = mkptr(p)
        off = p.off
        t = bt
        first = True
        for (ty, v) in ops[1:]:
            i = s.int(s.ival(st, ty, v))
            if first:
                off = off + i * s.M.size(t)
                first = False
                continue
            t = s.M.resolve(t)
            if t[0] == 'struct':
                c = i.const()
                off = off + s.M.field_off(t, c)
                t = t[1][c]
            elif t[0] in ('array', 'vec'):
                off = off + i * s.M.size(t[2])
                t = t[2]
            else:
                raise Unsupported('gep')
        return Ptr(p.obj, off)

    # ------------------------------------------------------------ decisions
    def decide(s, st, c):
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if c in st.conds:
            return True
        if neg(c) in st.conds:
            return False
        data = any(TT.atom(a)[0] == 'load' for p in cond_polys(c) for a in p.atoms())    # about data: no use of product lemmas
        if prove(st.conds, c, nl=True, timeout=1500, quick=data):
            return True
        if prove(st.conds, neg(c), nl=True, timeout=1500, quick=data):
            return False
        return None
    zero_objs = ()
    def must(s, st, c):
        d = s.decide(st, c)
        if d is None:
            raise ForkEx(c)
        return d

    # ------------------------------------------------------------ memory
    def iscell(s, obj):
        o = s.objs.get(obj)
        return o is not None and o['kind'] == 'cell'
    def load(s, st, p, ty, size):
        if isinstance(p, Poly):
            p = mkptr(p)
        if isinstance(p, Undef):
            raise Unsupported('load from undef pointer')
        if p.obj == 'null' or p.obj == 'int':
            raise Unsupported('load through null/integer pointer')
        if p.obj.startswith('@'):
            return s.load_global(st, p, ty, size)
        if s.iscell(p.obj):
            off = s.celloff(st, p, size)
            return s.cell_load(st, p.obj, off, ty, size)
        # data object
        c = s.promoted(st, p, size)
        if c is not None:
            return s.cell_load(st, c, 0, ty, size)
        if p.obj in s.zero_objs:
            return ZERO
        if p.obj in st.written:
            r = s.raw(st, p, size)
            if r is not None:
                return r
        st.loads.add(p.obj)
        if ty == ('ptr',):
            return Ptr('%s[%s]' % (p.obj, show(p.off)), ZERO)
        return mk(('load', p.obj, size, p.off))
    def promoted(s, st, p, size):
        for obj, off, sz, cell in st.promo:
            if obj != p.obj:
                continue
            if off == p.off and sz == size or sz == size and prove(st.conds, eq(off, p.off)):
                return cell
            if not prove(st.conds, disj(le(off + sz, p.off), le(p.off + size, off))):
                raise Unsupported('access to %s may overlap an accumulator kept there' % obj)
        return None
    def raw(s, st, p, size):
        """load from an object with earlier stores: newest matching / provably disjoint stores are resolved"""
        for n in range(len(st.stores) - 1, -1, -1):
            x = st.stores[n]
            if x.obj != p.obj:
                continue
            if not x.binders and not x.conds and x.size == size:
                if x.off == p.off or prove(st.conds, eq(x.off, p.off)):
                    if n < st.base:
                        st.loads.add(p.obj)
                    return x.val
            if n < st.base:
                st.loads.add(p.obj)
            # disjoint?
            hy = list(st.conds)
            for k, T in x.binders:
                hy += [le(0, k), lt(k, T)]
            hy += list(x.conds)
            if prove(hy, disj(le(x.off + x.size, p.off), le(p.off + size, x.off))):
                continue
            r = s.family_hit(st, x, p, size)
            if r is not None:
                return r
            raise Unsupported('read after write on %s' % p.obj)
        return None
    def family_hit(s, st, x, p, size):
        """the load reads an element of an (unconditional, injective) earlier store family"""
        if x.conds or x.size != size:
            return None
        d = s.solve_binders(st, x.off, x.binders, p.off)
        if d is None:
            return None
        return Subst(d).poly(x.val) if isinstance(x.val, Poly) else None
    def solve_binders(s, st, off, binders, target):
        return None
    def load_global(s, st, p, ty, size):
        g = s.M.globals.get('@' + p.obj[1:])
        if not g or g[0] != 'constant':
            raise Unsupported('global ' + p.obj)
        c = p.off.const()
        if c is None:
            return mk(('load', p.obj, size, p.off))
        flat = s.flat_global(p.obj, g[1])
        if (c, size) in flat:
            return flat[(c, size)] if isinstance(flat[(c, size)], Ptr) else const(flat[(c, size)])
        raise Unsupported('global load')
    def flat_global(s, name, text):
        o = s.objs.setdefault(name, {'kind': 'global'})
        if 'flat' not in o:
            pp = ir.P(ir.tokenize(text))
            t = pp.type()
            v = pp.value(t)
            flat = {}
            def rec(t, v, off):
                t = s.M.resolve(t)
                if v[0] == 'str' and t[0] == 'array':
                    q = v[1][v[1].index('"') + 1:-1]
                    bs = [int(x[1:], 16) if len(x) == 3 else ord(x) for x in re.findall(r'\\[0-9A-Fa-f]{2}|.', q)]
                    if len(bs) != t[1] or s.M.size(t[2]) != 1:
                        raise Unsupported('string constant ' + name)
                    for i, x in enumerate(bs):
                        flat[(off + i, 1)] = s.norm(x, t[2])
                    return
                if t[0] == 'ptr' and v[0] in ('g', 'null', 'zero'):      # virtual tables
                    flat[(off, 8)] = Ptr('@' + v[1][1:], ZERO) if v[0] == 'g' else Ptr('null', ZERO)
                elif t[0] == 'int':
                    if v[0] not in ('c', 'zero'):
                        raise Unsupported('constant ' + name)
                    flat[(off, s.M.size(t))] = s.norm(v[1], t) if v[0] == 'c' else 0
                elif t[0] == 'array':
                    for i in range(t[1]):
                        rec(t[2], v[1][i][1] if v[0] == 'agg' else ('zero',), off + i*s.M.size(t[2]))
                elif t[0] == 'struct':
                    for i, f in enumerate(t[1]):
                        rec(f, v[1][i][1] if v[0] == 'agg' else ('zero',), off + s.M.field_off(t, i))
            rec(t, v, 0)
            o['flat'] = flat
        return o['flat']
    def celloff(s, st, p, size=0):
        c = p.off.const()
        if c is not None:
            o = s.objs[p.obj]
            if size and o.get('exact') and not 0 <= c <= o['size'] - size:
                raise Unsupported('access outside the object %s: %d bytes at %d of %d' % (p.obj, size, c, o['size']))
            return c
        # symbolic offset into a cell object: fork over candidate element offsets
        n = s.objs[p.obj].get('size', 64)
        step = 0
        import math
        for k, cc in p.off.m.items():
            if k:
                step = math.gcd(step, abs(cc))
        base = p.off.m.get((), 0) % step
        for cand in range(base, n, step):
            d = s.decide(st, eq(p.off, cand))
            if d is True:
                return cand
            if d is None:
                raise ForkEx(eq(p.off, cand))
        raise Unsupported('symbolic offset in %s: %s' % (p.obj, show(p.off)))
    def cell_load(s, st, obj, off, ty, size):
        cells = st.cells.setdefault(obj, {})
        c = cells.get(off)
        if c is not None and c[0] == size:
            return s.retype(c[1], ty, size)
        # overlapping pieces?
        over = [(o, n, v) for o, (n, v) in cells.items() if o < off + size and off < o + n]
        if not over:
            if s.objs[obj].get('init') == 'undef':
                return UNDEF
            if s.objs[obj].get('init') == 'zero':
                return Ptr('null', ZERO) if ty == ('ptr',) else const(0)
            if ty == ('ptr',):
                v = Ptr('%s@%d' % (obj, off), ZERO)
            else:
                v = var('%s@%d:%d' % (obj, off, size))
                var_bounds['%s@%d:%d' % (obj, off, size)] = rng_of_width(8*size)
            cells[off] = (size, v)
            return v
        if len(over) == 1 and over[0][0] <= off and off + size <= over[0][0] + over[0][1]:
            o, n, v = over[0]
            x = s.int(v)
            return mktrunc(8*size, mkfdiv(x, 1 << (8*(off-o))))
        # compose
        tot = ZERO
        pos = off
        hi = off + size
        for o, n, v in sorted(over):
            if o < off or o + n > hi:
                raise Unsupported('partial overlap cell load %s+%d' % (obj, off))
            if o > pos:
                for b in range(pos, o):
                    if s.objs[obj].get('init') == 'zero':
                        continue
                    tot = tot + var(fresh('undefbyte')) * (1 << (8*(b-off)))
            x = s.int(v)
            if o + n < hi:
                x = s.unsigned(st, x, 8*n)
            tot = tot + x * (1 << (8*(o-off)))
            pos = o + n
        for b in range(pos, hi):
            if s.objs[obj].get('init') == 'zero':
                continue
            tot = tot + var(fresh('undefbyte')) * (1 << (8*(b-off)))
        if ty == ('ptr',):
            return mkptr(tot)
        return tot if size == 8 else mktrunc(8*size, tot)
    def unsigned(s, st, x, w):
        b = bounds(x)
        if b and b[0] >= 0:
            return x
        c = x.const()
        if c is not None:
            return const(c % (1 << w))
        return mkmod(x, 1 << w)
    def retype(s, v, ty, size):
        if isinstance(v, Undef):
            return v
        if ty == ('ptr',):
            if isinstance(v, Ptr):
                return v
            return mkptr(s.int(v))
        if ty[0] == 'int':
            if isinstance(v, Ptr):
                return s.int(v)
            if ty[1] == 1:
                return v if isinstance(v, B) else B(ne(s.int(v), 0))
            return s.int(v)
        return v
    def cell_store(s, st, obj, off, size, v):
        cells = st.cells.setdefault(obj, {})
        for o in [o for o, (n, _) in cells.items() if o < off + size and off < o + n]:
            n, old = cells[o]
            if o >= off and o + n <= off + size:
                del cells[o]
            else:       # split
                x = s.int(old)
                del cells[o]
                for b in range(o, o+n):
                    if not (off <= b < off + size):
                        cells[b] = (1, mktrunc(8, mkfdiv(x, 1 << (8*(b-o)))))
        cells[off] = (size, v)
    def store(s, st, p, ty, size, v, text):
        if isinstance(p, Poly):
            p = mkptr(p)
        if isinstance(p, Undef):
            raise Unsupported('store through undef pointer')
        if p.obj in ('null', 'int') or p.obj.startswith('@'):
            raise Unsupported('store to %s' % p.obj)
        if s.iscell(p.obj):
            s.cell_store(st, p.obj, s.celloff(st, p, size), size, v)
            return
        if isinstance(v, B):
            v = s.int(v)
        if isinstance(v, Undef):
            v = var(fresh('undef'))
        c = s.promoted(st, p, size)
        if c is not None:
            s.cell_store(st, c, 0, size, v)
            return
        st.written.add(p.obj)
        for i in range(len(st.stores) - 1, st.base - 1, -1):      # overwritten here: the earlier value is not the result
            x = st.stores[i]
            if x.obj == p.obj and x.off == p.off and x.size == size and not x.binders:
                del st.stores[i]
        st.stores.append(Store(p.obj, p.off, size, v, [], [], text))
    def memcpy(s, st, d, sr, n, text):
        if not s.iscell(d.obj) and not s.iscell(sr.obj) and not sr.obj.startswith('@') and d.obj != sr.obj and sr.obj not in st.written:
            # between two data objects: a family of byte copies
            n = P(n)
            if not prove(st.conds, le(0, n)):
                raise Unsupported('memcpy of a size that is not known to be non-negative')
            k = var(fresh('k'))
            v = s.load(st, Ptr(sr.obj, sr.off + k), ('int', 8), 1)
            st.written.add(d.obj)
            st.stores.append(Store(d.obj, d.off + k, 1, v, [(k, n)], [], text))
            return
        n = n.const()
        if n is None:
            raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        if not s.iscell(d.obj):
            raise Unsupported('memcpy to data object ' + d.obj)
        do = s.celloff(st, d, n)
        if sr.obj.startswith('@'):
            g = s.M.globals['@' + sr.obj[1:]]
            flat = s.flat_global(sr.obj, g[1])
            so = sr.off.const()
            for (o, sz), v in flat.items():
                if so <= o < so + n:
                    s.cell_store(st, d.obj, do + o - so, sz, const(v))
            return
        if not s.iscell(sr.obj):
            raise Unsupported('memcpy from ' + sr.obj)
        so = s.celloff(st, sr, n)
        src = st.cells.setdefault(sr.obj, {})
        pieces = []
        pos = so
        for o in sorted(src):
            sz, v = src[o]
            if o + sz <= so or o >= so + n:
                continue
            if o < so or o + sz > so + n:
                x = s.int(v)
                for b in range(max(o, so), min(o+sz, so+n)):
                    pieces.append((b, 1, mktrunc(8, mkfdiv(x, 1 << (8*(b-o))))))
            else:
                pieces.append((o, sz, v))
        # uninitialised gaps: materialise lazily as copies of the initial content
        cov = set()
        for o, sz, v in pieces:
            cov.update(range(o, o+sz))
        gaps = [b for b in range(so, so+n) if b not in cov]
        init = s.objs[sr.obj].get('init')
        dst = st.cells.setdefault(d.obj, {})
        for o in [o for o, (z, _) in dst.items() if o < do + n and do < o + z]:
            z, old = dst[o]
            if do <= o and o + z <= do + n:
                del dst[o]
            else:
                x = s.int(old)
                del dst[o]
                for b in range(o, o+z):
                    if not (do <= b < do+n):
                        dst[b] = (1, mktrunc(8, mkfdiv(x, 1 << (8*(b-o)))))
        if gaps and init not in ('undef', 'zero'):
            # copying symbolic initial content: copy in natural 8/4-byte words as opaque links
            i = 0
            while i < len(gaps):
                b = gaps[i]
                for w in (8, 4, 2, 1):
                    if (b - so) % w == 0 and b % w == 0 and gaps[i:i+w] == list(range(b, b+w)):
                        break
                v = s.cell_load(st, sr.obj, b, ('int', 8*w), w)
                pieces.append((b, w, v))
                i += w
        elif gaps and init == 'zero':
            for b in gaps:
                pieces.append((b, 1, const(0)))
        for o, sz, v in pieces:
            s.cell_store(st, d.obj, do + o - so, sz, v)

    # ------------------------------------------------------------ instructions
    def cast(s, st, op, ty, x, t2):
        if isinstance(x, Undef):
            return x
        if op == 'bitcast':
            return x
        if op == 'ptrtoint':
            return s.int(x)
        if op == 'inttoptr':
            return x if isinstance(x, Ptr) else mkptr(s.int(x))
        if op == 'trunc':
            w = t2[1]
            p = s.int(x)
            if w == 1:
                return B(eq(mkmod(p, 2), 1))
            r = mktrunc(w, p)
            a = r.is_atom()
            if a is not None and TT.atom(a)[0] == 'trunc' and bounds(p) is None and w >= 32:
                # index values: 64 -> 32 bit truncation of in-range quantities (assumption: indices fit in int32)
                s.assumptions.add('index values truncated to %d bits fit (machine integers treated as mathematical)' % w)
                return p
            return r
        if op == 'zext':
            if isinstance(x, B):
                return ite(x.c, const(1), const(0))
            p = s.int(x)
            b = bounds(p)
            if b and b[0] >= 0:
                return p
            d = s.decide(st, le(0, p))
            if d is True:
                return p
            return mkmod(p, 1 << ty[1]) if ty[1] <= 16 else ite(le(0, p), p, p + (1 << ty[1]))
        if op == 'sext':
            if isinstance(x, B):
                return ite(x.c, const(-1), const(0))
            return s.int(x)
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return mk(('op', op, 64 if t2[0] != 'int' else t2[1], (s.int(x),)))
        raise Unsupported(op)

    def binop(s, st, op, w, x, y):
        if op in ('and', 'or', 'xor') and w == 1:
            a, b = s.cond(x), s.cond(y)
            if op == 'and':
                return B(conj(a, b))
            if op == 'or':
                return B(disj(a, b))
            if b == TRUE:
                return B(neg(a))
            return B(disj(conj(a, neg(b)), conj(neg(a), b)))
        a, b = s.int(x), s.int(y)
        # narrow arithmetic wraps; 32 and 64 bit sums and products are treated as mathematical (stated assumption)
        if op == 'add':
            return mktrunc(w, a + b) if w < 32 else a + b
        if op == 'sub':
            return mktrunc(w, a - b) if w < 32 else a - b
        if op == 'mul':
            return mktrunc(w, a * b) if w < 32 else a * b
        cb = b.const()
        ca = a.const()
        if op == 'shl':
            if cb is not None:
                return mktrunc(w, a * (1 << cb)) if w < 32 else a * (1 << cb)
            if ca is not None and ca > 0:
                k = w - 1 - ca.bit_length()
                if s.decide(st, conj(le(0, b), le(b, k))) is True:
                    return TT.uf('shlnn', [a, b], w, (0, (1 << (w-1)) - 1))
            return mk(('op', 'shl', w, (a, b)))
        if op == 'ashr':
            if cb is not None:
                q = div_exact(a, 1 << cb)
                if cb >= 8 and q is not None and ca is None:
                    # (x << cb) >> cb keeps the low w-cb bits, sign-extended
                    return s.cast(st, 'trunc', ('int', w), q, ('int', w - cb))
                return mkfdiv(a, 1 << cb)
            return mk(('op', 'ashr', w, (a, b)))
        if op == 'lshr':
            if cb is not None:
                q = div_exact(a, 1 << cb)
                if cb >= 8 and q is not None and ca is None:
                    bq = bounds(q)
                    return q if bq and bq[0] >= 0 and bq[1] < 1 << (w - cb) else mkmod(q, 1 << (w - cb))
                if s.decide(st, le(0, a)) is True:
                    return mkfdiv(a, 1 << cb)
                if ca is not None:
                    return const((ca % (1 << w)) >> cb)
            if ca is not None and ca >= 0:
                return TT.uf('lshrnn', [a, b], w, (0, (1 << (w-1)) - 1))
            return mk(('op', 'lshr', w, (a, b)))
        if op in ('sdiv', 'srem'):
            if cb is not None and cb > 0 and op == 'sdiv' and s.decide(st, le(0, a)) is True:
                return mkfdiv(a, cb)
            if cb is not None and cb > 0 and op == 'srem' and s.decide(st, le(0, a)) is True:
                return mkmod(a, cb)
            return mkdiv('tdiv' if op == 'sdiv' else 'trem', a, b)
        if op in ('udiv', 'urem'):
            if s.decide(st, conj(le(0, a), le(0, b))) is True:
                if cb is not None and cb > 0:
                    return mkfdiv(a, cb) if op == 'udiv' else mkmod(a, cb)
                return mkdiv('tdiv' if op == 'udiv' else 'trem', a, b)
            return mk(('op', op, w, (a, b)))
        if op == 'and':
            if ca is not None and cb is not None:
                return const(s.norm(ca & cb, ('int', w)))
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if cb == 0:
                    return ZERO
                if cb == -1:
                    return a
                if cb > 0 and (cb + 1) & cb == 0:
                    return mkmod(a, cb + 1)
                if cb < 0 and (-cb) & (-cb - 1) == 0:      # clear low bits
                    return mkfdiv(a, -cb) * (-cb)
            return mk(('op', 'and', w, tuple(sorted((a, b), key=show))))
        if op in ('or', 'xor'):
            if ca is not None and cb is not None:
                return const(s.norm(ca | cb if op == 'or' else ca ^ cb, ('int', w)))
            if cb == 0:
                return a
            if ca == 0:
                return b
            if op == 'xor' and cb == -1:
                return -a - 1
            if op == 'or' and cb is not None and cb > 0:
                # disjoint or
                low = 1 << (cb.bit_length())
                if all(c % low == 0 for c in a.m.values()):
                    return a + b
            for x, y in ((a, b), (b, a)) if op == 'or' else ():
                # bits of x above those of y: no bit in common
                g = min((c & -c for c in x.m.values()), default=0)
                if g > 1 and y.const() is None and s.decide(st, conj(le(0, y), lt(y, g))) is True:
                    return x + y
            return mk(('op', op, w, tuple(sorted((a, b), key=show))))
        if op.startswith('f'):
            return mk(('op', op, 64, (a, b)))
        raise Unsupported(op)

    def icmp(s, st, pred, ty, x, y):
        if isinstance(x, Undef) or isinstance(y, Undef):
            return B(eq(var(fresh('undef')), 0))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return B(s.pcmp(pred, x, y))
        if ty == ('int', 1):
            a, b = s.cond(x), s.cond(y)
            e = disj(conj(a, b), conj(neg(a), neg(b)))
            return B(e if pred == 'eq' else neg(e))
        a, b = s.int(x), s.int(y)
        if pred in ('eq', 'ne') and (a.const() == 0 or b.const() == 0):
            z = s.or_zero(a if b.const() == 0 else b)
            if z is not None:
                return B(z if pred == 'eq' else neg(z))
        if pred == 'eq':
            return B(eq(a, b))
        if pred == 'ne':
            return B(ne(a, b))
        if pred == 'slt':
            return B(lt(a, b))
        if pred == 'sle':
            return B(le(a, b))
        if pred == 'sgt':
            return B(lt(b, a))
        if pred == 'sge':
            return B(le(b, a))
        if pred in ('ugt', 'uge'):
            a, b = b, a
            pred = {'ugt': 'ult', 'uge': 'ule'}[pred]
        f = lt if pred == 'ult' else le
        na = s.decide(st, le(0, a))
        nb = s.decide(st, le(0, b))
        if na is True and nb is True:
            return B(f(a, b))
        if na is True and nb is False:
            return B(TRUE)
        if na is False and nb is True:
            return B(FALSE)
        if nb is True:
            return B(conj(le(0, a), f(a, b)))
        return B(disj(conj(le(0, a), le(0, b), f(a, b)), conj(le(0, a), lt(b, 0)), conj(lt(a, 0), lt(b, 0), f(a, b))))
    def or_zero(s, p):
        """x|y == 0 as x == 0 and y == 0 (also of its low bits)"""
        i = p.is_atom()
        if i is None:
            return None
        t, low = TT.atom(i), lambda q: q
        if t[0] == 'mod' and t[2] & (t[2] - 1) == 0:
            low = lambda q, n=t[2]: mkmod(q, n)
        elif t[0] == 'trunc':
            low = lambda q, n=t[1]: mktrunc(n, q)
        if t[0] in ('mod', 'trunc'):
            i = t[1 if t[0] == 'mod' else 2].is_atom()
            if i is None:
                return None
            t = TT.atom(i)
        if t[0] not in ('op', 'call') or 'or' not in t[1]:
            return None
        if not (t[0] == 'op' and t[1] == 'or' or t[0] == 'call' and t[1] in ('or8', 'or16', 'or32', 'or64')):
            return None
        xs = t[3] if t[0] == 'op' else t[2]
        return conj(*[s.or_zero(low(q)) or eq(low(q), 0) for q in xs])
    def pcmp(s, pred, x, y):
        if not isinstance(x, Ptr):
            x = mkptr(s.int(x))
        if not isinstance(y, Ptr):
            y = mkptr(s.int(y))
        if x.obj == y.obj:
            return {'eq': eq, 'ne': ne, 'ult': lt, 'ule': le, 'slt': lt, 'sle': le,
                    'ugt': lambda a, b: lt(b, a), 'uge': lambda a, b: le(b, a),
                    'sgt': lambda a, b: lt(b, a), 'sge': lambda a, b: le(b, a)}[pred](x.off, y.off)
        if pred in ('eq', 'ne') and 'null' in (x.obj, y.obj):
            return FALSE if pred == 'eq' else TRUE       # valid object pointers are never null
        if pred in ('eq', 'ne') and x.off == ZERO and y.off == ZERO and 'int' not in (x.obj, y.obj):
            s.assumptions.add('separate buffers start at different addresses')
            return FALSE if pred == 'eq' else TRUE
        raise Unsupported('pointer comparison %s %s' % (x.obj, y.obj))

    def select(s, st, c, a, b):
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if a == b:
            return a
        if isinstance(a, B) or isinstance(b, B):
            x, y = s.cond(a), s.cond(b)
            return B(disj(conj(c, x), conj(neg(c), y)))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, ite(c, a.off, b.off))
            return a if s.must(st, c) else b
        if isinstance(a, list):
            return [s.select(st, c, x, y) for x, y in zip(a, b)]
        d = s.decide(st, c)
        if d is True:
            return a
        if d is False:
            return b
        a, b = s.int(a), s.int(b)
        if c[0] == 'le' and (TT.has_shl(a) or TT.has_shl(b)):
            # constant << x with x >= 0 on this path: the select's own condition supplies the upper bound
            f = [-x for x in TT.shl_args(a) + TT.shl_args(b) if s.decide(st, le(0, x)) is True]
            a, b = TT.guarded(a, f + [c[1]]), TT.guarded(b, f + [1 - c[1]])
        return ite(c, a, b)

    def minmax(s, st, kind, a, b):
        if s.decide(st, le(a, b)) is True:
            return a if kind == 'min' else b
        if s.decide(st, le(b, a)) is True:
            return b if kind == 'min' else a
        return mkext(kind, [a, b])

    IGN = ('@llvm.lifetime', '@llvm.dbg', '@llvm.experimental.noalias', '@llvm.assume', '@llvm.prefetch', '@llvm.donothing', '@printf', '@puts', '@putchar', '@fflush', '@llvm.va_', '@llvm.stacksave', '@llvm.stackrestore')
    def call(s, st, ins):
        if ins.x == 'asm':
            raise Unsupported('inline asm')
        k, name = ins.x
        if k != 'g':
            q = s.ival(st, ('ptr',), ins.x)
            if not isinstance(q, Ptr) or q.obj[0] != '@' or q.off != ZERO:
                raise Unsupported('indirect call')
            name = '@' + q.obj[1:]      # a virtual call whose object is known
        if name.startswith('@llvm.lifetime.'):       # the contents of a local object are undefined from here on
            p = s.ival(st, *ins.args[1])
            if isinstance(p, Ptr) and s.iscell(p.obj) and p.off == ZERO:
                st.cells[p.obj] = {}
            return None
        if name.startswith(s.IGN):
            return const(0) if ins.ty[0] == 'int' else None
        args = ins.args
        for key in (name,):
            h = s.leafs.get(key)
            if h:
                vals = [s.ival(st, t, v) if v[0] != 'md' else None for t, v in args]
                return h(s, st, vals, ins)
        if name.startswith('@llvm.'):
            vals = [s.ival(st, t, v) if v[0] != 'md' else None for t, v in args]
            n = name[6:]
            if n.startswith('memcpy') or n.startswith('memmove'):
                s.memcpy(st, vals[0], vals[1], s.int(vals[2]), ins.text)
                return None
            if n.startswith('memset'):
                c = s.int(vals[2]).const()
                b = s.int(vals[1]).const()
                p = vals[0]
                if c is None or b is None or not s.iscell(p.obj):
                    raise Unsupported('memset')
                o = s.celloff(st, p, c)
                i = 0
                while i < c:
                    w = 8 if c - i >= 8 and (o+i) % 8 == 0 else 4 if c - i >= 4 and (o+i) % 4 == 0 else 1
                    if b == 0:
                        # zero words are split into 4-byte cells for typical int fields
                        w = min(w, 4)
                    s.cell_store(st, p.obj, o+i, w, const(s.norm(int.from_bytes(bytes([b & 255])*w, 'little'), ('int', 8*w))))
                    i += w
                return None
            m = n.split('.')[0]
            if m in ('smax', 'smin'):
                return s.minmax(st, m[1:], s.int(vals[0]), s.int(vals[1]))
            if m in ('umax', 'umin'):
                a, b = s.int(vals[0]), s.int(vals[1])
                if s.decide(st, conj(le(0, a), le(0, b))) is True:
                    return s.minmax(st, m[1:], a, b)
                return mk(('op', m, ins.ty[1], tuple(sorted((a, b), key=show))))
            if m == 'abs':
                a = s.int(vals[0])
                return mkext('max', [a, -a])
            if m in ('ctlz', 'cttz', 'ctpop', 'fshl', 'fshr', 'bitreverse', 'bswap'):
                return mk(('op', m, ins.ty[1], tuple(s.int(v) for v in vals if not isinstance(v, B))))
            raise Unsupported('intrinsic ' + name)
        if name in s.M.funcs:
            raise CallInline(name)
        raise Unsupported('call to ' + name)

    def step(s, st, ins):
        """execute one non-control instruction (may raise ForkEx)"""
        op = ins.op
        if op in ir.BINOPS:
            (ty, a), (_, b) = ins.args
            x, y = s.ival(st, ty, a), s.ival(st, ty, b)
            r = s.binop(st, op, ty[1] if ty[0] == 'int' else 64, x, y)
        elif op == 'load':
            p = s.ival(st, *ins.args[0])
            r = s.load(st, p, ins.ty, s.M.size(ins.ty))
            if ins.ty == ('int', 1) and isinstance(r, Poly):
                r = B(ne(r, 0))
        elif op == 'store':
            v = s.ival(st, *ins.args[0])
            p = s.ival(st, *ins.args[1])
            t = s.M.resolve(ins.args[0][0])
            s.store(st, p, t, s.M.size(t), v, ins.text)
            return
        elif op == 'getelementptr':
            r = s.gep(st, ins.x, ins.args)
        elif op == 'icmp':
            (ty, a), (_, b) = ins.args
            r = s.icmp(st, ins.x, ty, s.ival(st, ty, a), s.ival(st, ty, b))
        elif op in ir.CASTS:
            ty, a = ins.args[0]
            r = s.cast(st, op, ty, s.ival(st, ty, a), ins.ty)
        elif op == 'select':
            c = s.cond(s.ival(st, *ins.args[0]))
            r = s.select(st, c, s.ival(st, *ins.args[1]), s.ival(st, *ins.args[2]))
        elif op == 'alloca':
            nm = fresh('alloca')
            s.objs[nm] = {'kind': 'cell', 'size': s.M.size(ins.ty) * (ins.x[1] if ins.x[0] == 'c' else 1), 'init': 'undef', 'exact': ins.x[0] == 'c'}
            st.cells[nm] = {}
            r = Ptr(nm, ZERO)
        elif op == 'freeze':
            r = s.ival(st, *ins.args[0])
        elif op == 'extractvalue':
            r = s.ival(st, *ins.args[0])
            for i in ins.x:
                r = r[i]
        elif op == 'insertvalue':
            a = s.ival(st, *ins.args[0])
            b = s.ival(st, *ins.args[1])
            def put(a, t, idx):
                t = s.M.resolve(t)
                if not idx:
                    return b
                if isinstance(a, Undef):
                    n = len(t[1]) if t[0] == 'struct' else t[1]
                    a = [UNDEF]*n
                a = list(a)
                a[idx[0]] = put(a[idx[0]], t[1][idx[0]] if t[0] == 'struct' else t[2], idx[1:])
                return a
            r = put(a, ins.ty, ins.x)
        elif op == 'call':
            r = s.call(st, ins)
        elif op == 'fcmp':
            r = B(ne(mk(('op', 'fcmp.' + ins.x, 8, (s.int(s.ival(st, *ins.args[0])), s.int(s.ival(st, *ins.args[1]))))), 0))
        elif op == 'fneg':
            r = mk(('op', 'fneg', 64, (s.int(s.ival(st, *ins.args[0])),)))
        else:
            raise Unsupported('instruction ' + ins.text)
        if ins.res:
            st.env[ins.res] = r

    # ------------------------------------------------------------ control
    def run(s, F, args, st=None, conds=()):
        """execute function; returns list of (state, retval)"""
        if st is None:
            st = State()
            st.env = {}
            st.cells = {}
            st.stores = []
            st.conds = list(conds)
            st.loads = set()
            st.prev = None
            st.written = set()
        saved = st.env
        st.env = {}
        for (t, n), a in zip(F.params, args):
            st.env[n] = a
        ir.analyse(F)
        out = []
        for kind, x, stt in s.region(F, st, F.entry, 0, None):
            if kind == 'ret':
                stt.env = dict(saved)
                out.append((stt, x))
            elif kind == 'abort':
                if not infeasible(stt.conds):
                    raise Unsupported('reachable abort/unreachable in %s under %s' % (F.name, [show_cond(c) for c in stt.conds[-6:]]))
        return out

    def region(s, F, st0, block, idx, L, enter=True):
        """Execute from (block, idx). L: loop whose body is executed (None: whole function).
        Yields ('ret',val,st) ('abort',None,st) ('back',latch,st) ('exit',(from,to),st)."""
        work = [(st0, block, idx, enter)]
        res = []
        while work:
            if len(work) > 1:
                s.join(F, work)
            st, bn, i, ent = work.pop()
            s.npaths += 1
            if len(work) + len(res) > MAXPATHS:
                raise Unsupported('too many paths')
            # entering a loop header from outside
            lp = F.loops.get(bn)
            if lp is not None and ent and (L is None or bn != L.header) and i == 0:
                mode, outs = s.enter_loop(F, lp, st)
                if mode == 'step':
                    ent = False      # executed concretely
                    st = outs
                else:
                    for (st2, b2, i2, k2) in outs:
                        if k2 == 'cont':
                            work.append((st2, b2, i2, False))
                        elif k2 == 'goto':
                            s.goto(F, st2, b2[0], b2[1], L, work, res)
                        else:
                            res.append((k2, b2, st2))
                    continue
            blk = F.blocks[bn]
            insts = blk.insts
            try:
                while True:
                    ins = insts[i]
                    op = ins.op
                    if op == 'br':
                        if not ins.args:
                            s.goto(F, st, bn, ins.x[0], L, work, res)
                        else:
                            c = s.cond(s.ival(st, *ins.args[0]))
                            d = s.decide(st, c)
                            if d is not False:
                                st1 = st.clone() if d is None else st
                                if d is None:
                                    st1.conds.append(c)
                                s.goto(F, st1, bn, ins.x[0], L, work, res)
                            if d is not True:
                                if d is None:
                                    st.conds.append(neg(c))
                                s.goto(F, st, bn, ins.x[1], L, work, res)
                        break
                    if op == 'switch':
                        v = s.int(s.ival(st, *ins.args[0]))
                        w = ins.args[0][0]
                        alive = True
                        for cv, tgt in ins.x[1]:
                            c = eq(v, s.norm(cv, w))
                            d = s.decide(st, c)
                            if d is True:
                                s.goto(F, st, bn, tgt, L, work, res)
                                alive = False
                                break
                            if d is None:
                                st1 = st.clone()
                                st1.conds.append(c)
                                s.goto(F, st1, bn, tgt, L, work, res)
                                st.conds.append(neg(c))
                        if alive:
                            s.goto(F, st, bn, ins.x[0], L, work, res)
                        break
                    if op == 'ret':
                        res.append(('ret', s.ival(st, *ins.args[0]) if ins.args else None, st))
                        break
                    if op == 'unreachable':
                        res.append(('abort', None, st))
                        break
                    if op == 'call' and ins.x != 'asm' and ins.x[1] in ('@__assert_fail', '@abort', '@exit', '@_ZSt9terminatev'):
                        res.append(('abort', None, st))
                        break
                    try:
                        s.step(st, ins)
                    except CallInline as e:
                        G = s.M.funcs[e.name]
                        av = [s.ival(st, t, v) for t, v in ins.args]
                        saved = st.env
                        for st2, rv in s.run(G, av, st):
                            if ins.res:
                                st2.env[ins.res] = rv
                            work.append((st2, bn, i+1, False))
                        break
                    i += 1
            except ForkEx as e:
                a = st.clone()
                a.conds.append(e.cond)
                st.conds.append(neg(e.cond))
                work.append((a, bn, i, False))
                work.append((st, bn, i, False))
        return res

    def order(s, F, it):
        st, bn, i, ent = it
        key = []
        for h, r in s.chain(F, bn):
            key += [r, st.env.get(('unroll', h), 0)]
        return key + [F.rpo[bn], i]
    def chain(s, F, bn):
        c = s._chain.get((F.name, bn))
        if c is None:
            ls = sorted([l for l in F.loops.values() if bn in l.blocks], key=lambda l: -len(l.blocks))
            c = s._chain[(F.name, bn)] = [(l.header, F.rpo[l.header]) for l in ls]
        return c
    def live(s, F):
        """SSA values live at the start of each block (phi operands belong to the incoming edge)"""
        if F.name in s._live:
            return s._live[F.name]
        use, de = {}, {}
        for n, b in F.blocks.items():
            u, d = set(), {p.res for p in b.phis}
            for ins in b.insts:
                for _, v in ins.args:
                    if v[0] == 'l' and v[1] not in d:
                        u.add(v[1])
                if ins.res:
                    d.add(ins.res)
            use[n], de[n] = u, d
        succ = {n: [] for n in F.blocks}
        for n, b in F.blocks.items():
            t = b.insts[-1]
            if t.op == 'br':
                succ[n] = list(t.x)
            elif t.op == 'switch':
                succ[n] = [t.x[0]] + [q for _, q in t.x[1]]
        phi = {}
        for n, b in F.blocks.items():
            for p in b.phis:
                for v, l in p.x:
                    if v[0] == 'l':
                        phi.setdefault((l, n), set()).add(v[1])
        inn = {n: set() for n in F.blocks}
        ch = True
        while ch:
            ch = False
            for n in F.blocks:
                o = set()
                for q in succ[n]:
                    o |= inn[q] | phi.get((n, q), set())
                r = use[n] | (o - de[n])
                if r != inn[n]:
                    inn[n] = r
                    ch = True
        s._live[F.name] = (inn, phi)
        return s._live[F.name]
    def join(s, F, work):
        """process states in topological order; states that differ only in their path condition and in what they stored are merged"""
        work.sort(key=lambda it: s.order(F, it), reverse=True)
        while len(work) > 1 and s.order(F, work[-1]) == s.order(F, work[-2]) and work[-1][2] == 0:
            a, b = work[-1], work[-2]
            m = s.merge_states(F, a, b) if a[1] == b[1] and a[3] == b[3] and a[0].prev == b[0].prev else None
            if m is None:
                return
            work[-2:] = [(m, a[1], 0, a[3])]
    def merge_states(s, F, x, y):
        a, b, bn = x[0], y[0], x[1]
        if a.promo != b.promo or a.base != b.base:
            return None
        inn, phi = s.live(F)
        keys = set(inn[bn]) | {p.res for p in F.blocks[bn].phis}
        if a.prev is not None:
            keys |= phi.get((a.prev, bn), set())
        same = lambda u, v: u is v or type(u) == type(v) and u == v
        undef, mixed = set(), []
        for k in set(a.env) | set(b.env):
            if k in keys or not isinstance(k, str):
                if k in a.env and k in b.env and same(a.env[k], b.env[k]):
                    continue
                if k in a.env and k in b.env and (isinstance(a.env[k], Undef) or isinstance(b.env[k], Undef)):
                    undef.add(k)       # uninitialised on one of the paths
                    continue
                if k in a.env or k in b.env:
                    return None
        for o in set(a.cells) | set(b.cells):
            ca, cb = a.cells.get(o, {}), b.cells.get(o, {})
            for k in set(ca) | set(cb):
                if k not in ca or k not in cb or ca[k][0] != cb[k][0]:
                    return None
                if not same(ca[k][1], cb[k][1]):
                    if not s.merge_values or not isinstance(ca[k][1], Poly) or not isinstance(cb[k][1], Poly):
                        return None
                    mixed.append((o, k))
        n = 0
        while n < min(len(a.conds), len(b.conds)) and a.conds[n] == b.conds[n]:
            n += 1
        ra, rb = a.conds[n:], b.conds[n:]
        m = 0
        while m < min(len(a.stores), len(b.stores)) and a.stores[m] is b.stores[m]:
            m += 1
        if m < a.base:
            return None
        def guard(l, r):
            return [Store(q.obj, q.off, q.size, q.val, q.binders, list(r) + list(q.conds), q.text) for q in l]
        r = a.clone()
        ca, cb = conj(*ra), conj(*rb)
        r.conds = a.conds[:n] + ([] if ca == neg(cb) or neg(ca) == cb else [c for c in [disj(ca, cb)] if c != TRUE])
        r.stores = a.stores[:m] + guard(a.stores[m:], ra) + guard(b.stores[m:], rb)
        if mixed and not (ca == neg(cb) or neg(ca) == cb):
            return None
        for o, k in mixed:
            r.cells[o] = dict(r.cells[o])
            r.cells[o][k] = (a.cells[o][k][0], ite(ca, a.cells[o][k][1], b.cells[o][k][1]))
        r.loads = a.loads | b.loads
        r.written = a.written | b.written
        r.env = {k: v for k, v in a.env.items() if k in keys or not isinstance(k, str) or k in b.env and same(v, b.env[k])}
        for k in undef:
            r.env[k] = UNDEF
        s.joins += 1
        return r

    def goto(s, F, st, frm, to, L, work, res):
        if L is not None:
            if to == L.header:
                res.append(('back', frm, st))
                return
            if to not in L.blocks:
                res.append(('exit', (frm, to), st))
                return
        lp = F.loops.get(to)
        if lp is not None and frm not in lp.blocks:
            # entering a nested/new loop: phis are evaluated by enter_loop
            st.prev = frm
            st.written = set(st.written)
            work.append((st, to, 0, True))
            return
        s.dophis(F, st, frm, to)
        # concrete stepping back edge of a loop being unrolled: re-enter so that the decision is made afresh
        if lp is not None:
            st.prev = None
            work.append((st, to, 0, True))
            return
        work.append((st, to, 0, False))

    def dophis(s, F, st, frm, to):
        vals = []
        for ph in F.blocks[to].phis:
            for v, l in ph.x:
                if l == frm:
                    vals.append((ph.res, s.ival(st, ph.ty, v)))
                    break
            else:
                raise Unsupported('phi')
        for r, v in vals:
            st.env[r] = v

    # ------------------------------------------------------------ loops
    def enter_loop(s, F, L, st):
        if st.prev is not None:
            s.dophis(F, st, st.prev, L.header)
            st.prev = None
        hb = F.blocks[L.header]
        # 1. concrete step?
        exit_from = {a for a, _ in L.exits}
        if L.header in exit_from:
            t = hb.term
            c = None
            try:
                sc = st.clone()
                for ins in hb.insts[:-1]:
                    s.step(sc, ins)
                if t.op == 'br' and t.args:
                    c = s.cond(s.ival(sc, *t.args[0]))
                    if c not in (TRUE, FALSE):
                        d = None
                        if not any(TT.atom(a)[0] == 'var' and TT.atom(a)[1].startswith('k!') for a in free_cond(c)) and False:
                            d = s.decide(st, c)
            except (ForkEx, Unsupported, CallInline):
                c = None
            if c in (TRUE, FALSE):
                n = st.env.get(('unroll', L.header), 0) + 1
                if c == FALSE:
                    n = 0
                st.env[('unroll', L.header)] = n
                if n > s.unroll_max:
                    raise Unsupported('unroll limit')
                # is truth of c due to literal constants -> concrete stepping
                return 'step', st
        return 'multi', s.summarise(F, L, st)

    def quick_iv(s, F, L, st):
        """phis with next = phi + invariant, found on the instruction level"""
        defs = s.defs(F)
        res = {}
        inloop = lambda n: n in defs and defs[n].bb.name in L.blocks
        for ph in F.blocks[L.header].phis:
            nxt = [v for v, l in ph.x if l in L.blocks]
            if len(nxt) != 1:
                continue
            v = nxt[0]
            step = ZERO
            cur = v
            ok = False
            for _ in range(20):
                if cur[0] == 'l' and cur[1] == ph.res:
                    ok = True
                    break
                if cur[0] != 'l' or not inloop(cur[1]):
                    break
                d = defs[cur[1]]
                def inv(t, o):
                    if o[0] == 'c':
                        return const(s.norm(o[1], t))
                    if o[0] == 'l' and not inloop(o[1]):
                        x = st.env.get(o[1])
                        return x if isinstance(x, Poly) else None
                    return None
                if d.op in ('add', 'sub'):
                    (t, a), (_, b) = d.args
                    ib = inv(t, b)
                    ia = inv(t, a)
                    if ib is not None:
                        step = step + ib if d.op == 'add' else step - ib
                        cur = a
                        continue
                    if ia is not None and d.op == 'add':
                        step = step + ia
                        cur = b
                        continue
                    break
                if d.op == 'getelementptr' and len(d.args) == 2:
                    ii = inv(*d.args[1])
                    if ii is None:
                        break
                    step = step + ii * s.M.size(d.x)
                    cur = d.args[0][1]
                    continue
                break
            if ok:
                res[ph.res] = step
        return res
    def defs(s, F):
        if not hasattr(F, 'defs'):
            F.defs = {}
            for b in F.blocks.values():
                for i in b.phis + b.insts:
                    i.bb = b
                    if i.res:
                        F.defs[i.res] = i
        return F.defs

    def summarise(s, F, L, st):
        hb = F.blocks[L.header]
        ivs = s.quick_iv(F, L, st)
        modcells = s.modcells.setdefault((F.name, L.header), set())
        try:
            return s.summarise2(F, L, st, ivs, modcells)
        except MemDep as e:
            if not e.cands:
                raise
            cands = e.cands
        # addresses that every iteration reads and writes: carried in a cell while the loop runs, written back at its exits
        st = st.clone()
        names = []
        for obj, off, size in cands:
            cell = '$m%d:%s:%s' % (len(names), F.name, L.header)
            s.objs[cell] = {'kind': 'cell', 'size': size}
            v = s.load(st, Ptr(obj, off), ('int', 8*size), size)
            st.cells[cell] = {0: (size, v)}
            st.promo = st.promo + ((obj, off, size, cell),)
            names.append(cell)
        out = []
        for r in s.summarise2(F, L, st, ivs, modcells):
            e = r[0]
            for obj, off, size, cell in list(e.promo):
                if cell in names:
                    v = s.cell_load(e, cell, 0, ('int', 8*size), size)
                    e.promo = tuple(x for x in e.promo if x[3] != cell)
                    del e.cells[cell]
                    for i in range(len(e.stores) - 1, st.base - 1, -1):      # the value it had before the loop is overwritten
                        x = e.stores[i]
                        if x.obj == obj and x.off == off and x.size == size and not x.binders and not x.conds:
                            del e.stores[i]
                            break
                    s.store(e, Ptr(obj, off), ('int', 8*size), size, v, 'accumulator')
            out.append(r)
        return out
    def summarise2(s, F, L, st, ivs, modcells):
        for attempt in range(6):
            r = s.summarise1(F, L, st, ivs, modcells)
            if r is not None:
                return r
        raise Unsupported('modified cells do not stabilise')

    def summarise1(s, F, L, st, ivs, modcells):
        hb = F.blocks[L.header]
        kname = fresh('k')
        k = var(kname)
        kid = k.is_atom()
        init = {}
        U = {}            # unresolved: key -> var atom id
        body = st.clone()
        body.loads = set()
        nst0 = len(st.stores)
        body.base = nst0
        def start(key, v):
            if isinstance(v, Poly) and mkptr(v).obj != 'int':      # an address held in an integer
                v = mkptr(v)
            init[key] = v
            if isinstance(v, Undef):
                v = var(fresh('undef'))
                init[key] = v
            x = var(fresh('x'))
            if isinstance(v, Ptr):
                U[key] = x.is_atom()
                return Ptr(v.obj, x)
            if isinstance(v, B):
                U[key] = x.is_atom()
                return B(eq(x, 1))
            if isinstance(v, list):
                raise Unsupported('aggregate phi')
            U[key] = x.is_atom()
            return x
        for ph in hb.phis:
            v = st.env[ph.res]
            if ph.res in ivs and not isinstance(v, (Undef, B, list)):
                stp = ivs[ph.res]
                init[ph.res] = v
                body.env[ph.res] = Ptr(v.obj, v.off + k*stp) if isinstance(v, Ptr) else v + k*stp
            else:
                body.env[ph.res] = start(ph.res, v)
        for (obj, off, size) in sorted(modcells, key=str):
            cur = st.cells.get(obj, {}).get(off)
            if cur is None:
                if obj not in st.cells and (obj not in s.objs or obj[0] == '$'):
                    continue
                if s.objs[obj].get('init') == 'undef' :
                    curv = UNDEF
                else:
                    curv = s.cell_load(st, obj, off, ('int', 8*size), size)
            else:
                if cur[0] != size:
                    curv = s.cell_load(st, obj, off, ('int', 8*size), size)
                else:
                    curv = cur[1]
            s.cell_store(body, obj, off, size, start((obj, off, size), curv))
        body.conds.append(le(0, k))
        # early trip count for header-exit loops
        exits = {a for a, _ in L.exits}
        T = None
        if L.header in exits:
            try:
                sc = body.clone()
                for ins in hb.insts[:-1]:
                    s.step(sc, ins)
                c = s.cond(s.ival(sc, *hb.term.args[0]))
                if hb.term.x[0] not in L.blocks:
                    c = neg(c)
                if not any(u in free_cond(c) for u in U.values()):
                    T = s.trip(st, c, kid)
                    if T is not None:
                        body.conds.append(lt(k, T))
                        if c not in body.conds:
                            body.conds.append(c)
            except (ForkEx, CallInline):
                T = None
            except Unsupported as e:
                # a cell the condition reads may not be known to change yet: the body will show it
                if 'does not change' not in str(e):
                    raise
                T = None
            except NeedFork as e:
                # number of iterations depends on an undecided condition: split the entry state
                a, b = st.clone(), st.clone()
                a.conds.append(e.cond)
                b.conds.append(neg(e.cond))
                out = []
                for x in (a, b):
                    if infeasible(x.conds):
                        continue
                    if infeasible(x.conds):
                        continue
                    r = None
                    for attempt in range(6):
                        r = s.summarise1(F, L, x, s.quick_iv(F, L, x), modcells)
                        if r is not None:
                            break
                    out += r
                return out
            if T is not None and T == ZERO:
                # loop body never runs: execute header with initial values and leave
                st2 = st.clone()
                tgt = hb.term.x[1] if hb.term.x[0] in L.blocks else hb.term.x[0]
                for ins in hb.insts[:-1]:
                    s.step(st2, ins)
                return [(st2, (L.header, tgt), None, 'goto')]
        nconds0 = len(body.conds)
        base_conds = list(body.conds)
        bcells = {o: dict(c) for o, c in body.cells.items()}
        ends = s.region(F, body, L.header, 0, L)
        backs = [(x, e) for kd, x, e in ends if kd == 'back']
        outs = [(x, e) for kd, x, e in ends if kd == 'exit']
        others = [(kd, x, e) for kd, x, e in ends if kd in ('ret', 'abort')]
        for kd, x, e in others:
            if not infeasible(e.conds):
                raise Unsupported('return/abort inside a loop')
        outs = [(x, e) for x, e in outs if not (T is not None and infeasible(e.conds))]
        # modified cells?
        new = set()
        for _, e in backs + outs:
            for obj, cells in e.cells.items():
                if obj not in st.cells and obj not in bcells:
                    continue      # allocated inside the loop
                bc = bcells.get(obj, {})
                for off, (size, v) in cells.items():
                    o = bc.get(off)
                    if o is None or o[0] != size or not (o[1] == v or o[1] is v):
                        if o is None and isinstance(v, (Poly, Ptr)) and st.cells.get(obj, {}).get(off) is None and s.objs[obj].get('init') not in ('undef', 'zero'):
                            ia = v.is_atom() if isinstance(v, Poly) else None
                            if (ia is not None and TT.atom(ia) == ('var', '%s@%d:%d' % (obj, off, size))) or (isinstance(v, Ptr) and v.obj == '%s@%d' % (obj, off) and v.off == ZERO):
                                continue   # lazily materialised initial content
                        if (obj, off, size) not in modcells:
                            new.add((obj, off, size))
        if new:
            modcells |= new
            return None
        if not backs:
            # body leaves on its first iteration in every feasible path
            res = []
            for (frm, to), e in outs:
                e2 = e
                sb = Subst({kid: ZERO, **{u: s.toint(init[key]) for key, u in U.items()}})
                s.subst_state(e2, st, sb)
                e2.base = st.base
                e2.loads = set(st.loads) | e2.loads
                res.append((e2, (frm, to), None, 'goto'))
            return res
        exitblocks = {x[0] for x, _ in outs} if T is None else {L.header}
        if T is None and len(exitblocks) != 1:
            raise Unsupported('loop with several exits')
        E, = exitblocks
        # recurrences
        nxt = {}
        for key, u in U.items():
            vals = []
            for latch, e in backs:
                rel = [c for c in e.conds if c not in base_conds]
                if isinstance(key, str):
                    for ph in hb.phis:
                        if ph.res == key:
                            v = s.ival(e, ph.ty, [x for x, l in ph.x if l == latch][0])
                else:
                    obj, off, size = key
                    cv = e.cells.get(obj, {}).get(off)
                    if cv is None or cv[0] != size:
                        v = s.cell_load(e, obj, off, ('int', 8*size), size)
                    else:
                        v = cv[1]
                if isinstance(init[key], Ptr):
                    if isinstance(v, Poly):
                        v = mkptr(v)
                    if not isinstance(v, Ptr) or v.obj != init[key].obj:
                        raise Unsupported('pointer phi changes object')
                    v = v.off
                elif isinstance(init[key], B) or isinstance(v, B):
                    v = ite(s.cond(v), const(1), const(0))
                else:
                    v = s.int(v)
                vals.append((rel, v))
            nxt[key] = s.merge(vals)
        # IVs need checking when there are several latches - LoopSimplify guarantees one
        sol = s.solve(U, init, nxt, k, kid)
        if T is None:
            # continue condition at E
            conts = []
            for (frm, to), e in outs:
                t = F.blocks[frm].term
                c = s.cond(s.ival(e, *t.args[0]))
                if t.x[0] == to:
                    c = neg(c)
                conts.append(c)
            conts = list(dict.fromkeys(conts))
            if len(conts) != 1:
                raise Unsupported('exit condition differs between paths')
            sbx = Subst({u: sol[key](k) for key, u in U.items() if sol[key] is not None})
            cc = sbx.cond(conts[0])
            if any(u in free_cond(cc) for key, u in U.items()):
                raise Unsupported('exit condition depends on an unresolved recurrence')
            try:
                T = s.trip(st, cc, kid)
            except NeedFork as e:
                a, b = st.clone(), st.clone()
                a.conds.append(e.cond)
                b.conds.append(neg(e.cond))
                out = []
                for x in (a, b):
                    if infeasible(x.conds):
                        continue
                    r = None
                    for attempt in range(6):
                        r = s.summarise1(F, L, x, s.quick_iv(F, L, x), modcells)
                        if r is not None:
                            break
                    out += r
                return out
            if T is None:
                raise Unsupported('trip count of loop %s: %s' % (L.header, show_cond(cc)))
        # conflicts: data objects both read and written in the loop
        wr = set()
        for _, e in backs + outs:
            wr |= {x.obj for x in e.stores[nst0:]}
        rd = set()
        for _, e in backs + outs:
            rd |= e.loads
        if wr & rd:
            cands = {}
            local = {kid} | set(U.values())
            for _, e in backs + outs:
                for x in e.stores[nst0:]:
                    if x.obj in rd and not x.binders and not (free(x.off) & local):
                        cands[(x.obj, x.off, x.size)] = 1
            raise MemDep('loop-carried memory dependence on %s' % (wr & rd), list(cands))
        s.loops_closed += 1
        # substitute solved recurrences in stores
        sbk = Subst({u: sol[key](k) for key, u in U.items()})
        def close(x, cnt, basec):
            return Store(x.obj, sbk.poly(x.off), x.size, sbk.poly(s.toint(x.val)) if not isinstance(x.val, Ptr) else x.val,
                         [(k, cnt)] + [(kk, sbk.poly(TT_)) for kk, TT_ in x.binders],
                         [sbk.cond(c) for c in basec] + [sbk.cond(c) for c in x.conds], x.text)
        newst = []
        if E == L.header:
            for _, e in outs:
                if len(e.stores) > nst0:
                    raise Unsupported('store in loop header')
            for _, e in backs:
                rel = [c for c in e.conds if c not in base_conds]
                for x in e.stores[nst0:]:
                    newst.append(close(x, T, rel))
        else:
            nb = None
            for _, e in outs:
                ob = e.stores[nst0:]
                rel = [c for c in e.conds if c not in base_conds]
                tcond = s.cond(s.ival(e, *F.blocks[E].term.args[0]))
                rel = [c for c in rel if c not in (tcond, neg(tcond))]
                for x in ob:
                    newst.append(close(x, T + 1, rel))
                nb = len(ob)
            for _, e in backs:
                if [id(x) for x in e.stores[nst0:nst0 + (nb or 0)]] != [id(x) for x in (outs[0][1].stores[nst0:] if outs else [])]:
                    raise Unsupported('stores before a middle exit are overwritten after it')
                if len(e.stores) - nst0 > (nb or 0) * 1 and len(outs) == 1 and len(backs) == 1:
                    rel = [c for c in e.conds if c not in base_conds and c not in (tcond, neg(tcond))]
                    for x in e.stores[nst0 + nb:]:
                        newst.append(close(x, T, rel))
                elif len(outs) != 1 or len(backs) != 1:
                    if len(e.stores) - nst0 > (nb or 0):
                        raise Unsupported('stores after a middle exit')
        res = []
        sbT = {kid: T, **{u: sol[key](T) for key, u in U.items()}}
        if E == L.header:
            st2 = st.clone()
            for ph in hb.phis:
                v = init[ph.res]
                if ph.res in ivs and ph.res not in U:
                    st2.env[ph.res] = Ptr(v.obj, v.off + T*ivs[ph.res]) if isinstance(v, Ptr) else v + T*ivs[ph.res]
                else:
                    st2.env[ph.res] = s.wrap(init[ph.res], sol[ph.res](T))
            for key in U:
                if not isinstance(key, str):
                    obj, off, size = key
                    s.cell_store(st2, obj, off, size, s.wrap(init[key], sol[key](T)))
            st2.stores += newst
            st2.written |= wr
            st2.loads |= rd
            tgt = [b for a, b in L.exits if a == L.header]
            st2.env.pop(('unroll', L.header), None)
            if len(tgt) != 1:
                raise Unsupported('header with two exits')
            for ins in hb.insts[:-1]:
                s.step(st2, ins)
            res.append((st2, (L.header, tgt[0]), None, 'goto'))
            return res
        # exit not at the header: values from the exiting path(s) at iteration T
        if len(outs) != 1:
            raise Unsupported('several exiting paths')
        (frm, to), e = outs[0]
        sb = Subst(sbT)
        s.subst_state(e, st, sb)
        e.stores = list(st.stores) + newst
        e.base = st.base
        e.written |= wr
        e.loads = set(st.loads) | rd
        res.append((e, (frm, to), None, 'goto'))
        return res

    def toint(s, v):
        if isinstance(v, Ptr):
            return v.off
        if isinstance(v, B):
            return ite(v.c, const(1), const(0))
        if isinstance(v, Undef):
            return var(fresh('undef'))
        return v
    def wrap(s, proto, p):
        if isinstance(proto, Ptr):
            return Ptr(proto.obj, p)
        if isinstance(proto, B):
            return B(eq(p, 1))
        return p
    def subst_state(s, e, st, sb):
        def f(v):
            if isinstance(v, Poly):
                return sb.poly(v)
            if isinstance(v, Ptr):
                return Ptr(v.obj, sb.poly(v.off))
            if isinstance(v, B):
                return B(sb.cond(v.c))
            if isinstance(v, list):
                return [f(x) for x in v]
            return v
        e.env = {n: (v if st.env.get(n) is v else f(v)) for n, v in e.env.items()}
        e.cells = {o: {k: (n, f(v)) for k, (n, v) in c.items()} for o, c in e.cells.items()}
        e.conds = [sb.cond(c) for c in e.conds]
        e.stores = [x if i < len(st.stores) else Store(x.obj, sb.poly(x.off), x.size, f(x.val), [(a, sb.poly(b)) for a, b in x.binders], [sb.cond(c) for c in x.conds], x.text) for i, x in enumerate(e.stores)]

    def merge(s, vals):
        """ite-merge of (relative conds, value) over paths (conds are exhaustive and exclusive)"""
        r = vals[-1][1]
        for rel, v in reversed(vals[:-1]):
            if v == r:
                continue
            r = ite(conj(*rel), v, r)
        return r

    def solve(s, U, init, nxt, k, kid):
        """closed forms: key -> function(Poly iteration) -> Poly"""
        sol = {key: None for key in U}
        todo = set(U)
        progress = True
        cur = dict(nxt)
        while todo and progress:
            progress = False
            sb = Subst({U[key]: sol[key](k) for key in U if sol[key] is not None})
            for key in sorted(todo, key=str):
                x = Poly({(U[key],): 1})
                i0 = s.toint(init[key])
                nx = sb.poly(cur[key])
                unres = {U[q] for q in todo}
                d = s.pull(nx, U[key])
                if d is not None and not (free(d) & unres):
                    if kid not in free(d):
                        sol[key] = (lambda i0, d: lambda n: i0 + n*d)(i0, d)
                    else:
                        j = var(fresh('k'))
                        dj = subst(d, {kid: j})
                        sol[key] = (lambda i0, j, dj: lambda n: i0 + mksum(j.is_atom(), n, dj))(i0, j, dj)
                elif not (free(nx) & unres):
                    if kid not in free(nx) and nx == i0:
                        sol[key] = (lambda i0: lambda n: i0)(i0)
                    else:
                        sol[key] = (lambda i0, nx: (lambda n: subst(nx, {kid: n - 1})) if subst(nx, {kid: const(-1)}) == i0 else
                                    (lambda n: ite(eq(n, 0), i0, subst(nx, {kid: n - 1}))))(i0, nx)
                else:
                    a = nx.is_atom()
                    e = None
                    if a is not None and TT.atom(a)[0] == 'trunc':
                        w, p = TT.atom(a)[1:]
                        e = s.pull(p, U[key])
                        b = TT.bounds(i0)
                    if e is not None and not (free(e) & unres) and b and -(1 << (w - 1)) <= b[0] and b[1] < 1 << (w - 1):
                        # wrapping addition: the sum, wrapped once
                        j = var(fresh('k'))
                        ej = subst(e, {kid: j})
                        sol[key] = (lambda i0, w, j, ej: lambda n: mktrunc(w, i0 + mksum(j.is_atom(), n, ej)))(i0, w, j, ej)
                    elif a is not None and TT.atom(a)[0] in ('max', 'min'):
                        kind = TT.atom(a)[0]
                        items = TT.atom(a)[1]
                        rest = [q for q in items if q != x]
                        if len(rest) < len(items) and not any(free_of_item(q) & unres for q in rest):
                            def f(n, i0=i0, kind=kind, rest=rest):
                                fams = []
                                for q in rest:
                                    q2 = mkext(kind, [q]) if not isinstance(q, Poly) else q
                                    fams += bind_family(kind, kid, n, q2)
                                return mkext(kind, [i0] + fams)
                            sol[key] = f
                if sol[key] is not None:
                    todo.discard(key)
                    progress = True
                    break
        if todo:
            # generic fold over the remaining mutually dependent recurrences (dependency closure per strongly connected group: take all)
            keys = sorted(todo, key=str)
            sb = Subst({U[key]: sol[key](k) for key in U if sol[key] is not None})
            steps = [sb.poly(cur[q]) for q in keys]
            inits = [s.toint(init[q]) for q in keys]
            base = max([level(p) for p in steps + inits] + [0]) + 1
            d = {kid: mk(('bv', base))}
            for i, q in enumerate(keys):
                d[U[q]] = mk(('bv', base + 1 + i))
            S = Subst(d)
            bsteps = tuple(S.poly(p) for p in steps)
            for i, q in enumerate(keys):
                sol[q] = (lambda i: lambda n: inits[i] if n == ZERO else mk(('fold', (i, len(keys), base), (n,) + tuple(inits) + bsteps)))(i)
        return sol

    def pull(s, nx, xid):
        """nx - x if free of x (looking through ite)"""
        x = Poly({(xid,): 1})
        d = nx - x
        if xid not in free(d):
            return d
        a = nx.is_atom()
        if a is not None and TT.atom(a)[0] == 'ite':
            _, c, p, q = TT.atom(a)
            if xid in free_cond(c):
                return None
            dp, dq = s.pull(p, xid), s.pull(q, xid)
            if dp is not None and dq is not None:
                return ite(c, dp, dq)
        # linear: x + ite(c, x.., ) forms
        return None

    def trip(s, st, c, kid):
        """smallest k>=0 with not c(k); c monotone in k (linear). None if not recognised; NeedFork if sign undecided."""
        k = Poly({(kid,): 1})
        if kid not in free_cond(c):
            if c == FALSE:
                return ZERO
            d = s.decide(st, c)
            if d is False:
                return ZERO
            if d is None:
                raise NeedFork(c)
            raise Unsupported('loop condition does not change: ' + show_cond(c))
        if c[0] == 'and':
            # min of trips (e.g. range tests): keep those with k; others must be invariant
            Ts = []
            for x in c[1]:
                if kid not in free_cond(x):
                    d = s.decide(st, x)
                    if d is False:
                        return ZERO
                    if d is None:
                        raise NeedFork(x)
                    continue
                # a conjunct that always holds given the others can be dropped (e.g. 0 <= k*c)
                if prove(list(st.conds) + [le(0, k)], x):
                    continue
                t = s.trip(st, x, kid)
                if t is None:
                    return None
                Ts.append(t)
            if len(Ts) == 1:
                return Ts[0]
            if not Ts:
                raise Unsupported('endless loop')
            r = Ts[0]
            for t in Ts[1:]:
                d = s.decide(st, le(r, t))
                if d is None:
                    raise NeedFork(le(r, t))
                r = r if d else t
            return r
        isne = c[0] == 'not' and c[1][0] == 'eq'
        if c[0] == 'le':
            p = c[1]
        elif isne:
            p = c[1][1]
        else:
            return None
        a = ZERO      # coefficient of k
        r = ZERO
        for m, cc in p.m.items():
            n = m.count(kid)
            if n == 0:
                r = r + Poly({m: cc})
            elif n == 1:
                mm = list(m)
                mm.remove(kid)
                if any(kid in free_atom(x) for x in mm):
                    return None
                a = a + Poly({tuple(mm): cc})
            else:
                return None
        if kid in free(r) or kid in free(a):
            return None
        ac = a.const()
        if isne:
            # a*k + r != 0, expect k = -r/a
            if ac is None:
                # symbolic coefficient: r divisible by a syntactically?
                q = polydiv(-r, a)
                if q is None:
                    return None
                n = q
            else:
                if ac < 0:
                    r, ac = -r, -ac
                n = -r
                if ac != 1:
                    if all(v % ac == 0 for v in n.m.values()):
                        n = Poly({kk: v//ac for kk, v in n.m.items()})
                    else:
                        return None
            d = s.decide(st, le(0, n))
            if d is None:
                raise NeedFork(le(0, n))
            if not d:
                raise Unsupported('loop does not terminate (ne)')
            return n
        # a*k + r <= 0 continue; with a > 0 : T = max(0, floor(-r/a)+1)
        pos = s.decide(st, lt(0, a))
        if pos is None:
            raise NeedFork(lt(0, a))
        if not pos:
            return None
        c0 = s.decide(st, le(r, 0))
        if c0 is False:
            return ZERO
        if c0 is None:
            raise NeedFork(le(r, 0))
        if ac == 1:
            return 1 - r
        if ac is not None:
            return mkfdiv(-r, ac) + 1
        q = polydiv(1 - r, a)
        if q is not None:
            return q
        # bounded strip count: T fresh with a*(T-1) <= -r < a*T
        t = mk(('tdiv', -r, a))
        return t + 1

def free_of_item(q):
    if isinstance(q, Poly):
        return free(q)
    r = set(free(q[2]))
    for _, t in q[1]:
        r |= free(t)
    return r

def polydiv(n, a):
    """exact polynomial division by a single monomial divisor (or simple multiple); None if not exact"""
    if len(a.m) == 1:
        (ma, ca), = a.m.items()
        out = {}
        for m, c in n.m.items():
            mm = list(m)
            try:
                for x in ma:
                    mm.remove(x)
            except ValueError:
                return None
            if c % ca:
                return None
            out[tuple(mm)] = c // ca
        return Poly(out)
    return None

class CallInline(Exception):
    def __init__(s, name):
        s.name = name
class NeedFork(Exception):
    def __init__(s, cond):
        s.cond = cond
