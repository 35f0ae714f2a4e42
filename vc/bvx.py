"""Bit-precise symbolic execution of scalar (leaf) functions: LLVM IR of the real code -> z3 bit-vector terms.
All arguments are arbitrary machine words; wrap-around, shift-out and truncation are modelled exactly.  Loops are followed
until the path condition closes them (a loop that does not close within `bound` iterations is reported as out of reach)."""
import time
import z3
import ir, build
from kexec import Unsupported

def bv(v, w):
    return z3.BitVecVal(v, w)

class UB(Exception):
    pass

class Ptr:
    def __init__(s, obj, off):
        s.obj, s.off = obj, off          # off: python int or 64-bit BV

class S:
    def __init__(s):
        s.env, s.mem, s.pc, s.prev, s.ub = {}, {}, [], None, []
    def clone(s):
        n = S()
        n.env, n.mem, n.pc, n.prev, n.ub = dict(s.env), {o: dict(m) for o, m in s.mem.items()}, list(s.pc), s.prev, list(s.ub)
        return n

class BV:
    def __init__(s, M, bound=140, maxpaths=4000, leafs=None):
        s.M, s.bound, s.maxpaths = M, bound, maxpaths
        s.solver = z3.Solver()
        s.solver.set('timeout', 20000)
        s.tables = {}
        s.queries = 0
        s.steps = 0
        s.init = {}
        s.leafs = leafs or {}
    def feasible(s, pc):
        s.queries += 1
        s.solver.push()
        s.solver.add(*pc)
        r = s.solver.check()
        s.solver.pop()
        return r != z3.unsat
    # ---- values
    def width(s, t):
        t = s.M.resolve(t)
        if t[0] == 'int':
            return t[1]
        if t[0] == 'ptr':
            return 64
        if t[0] == 'fp':
            return 8 * s.M.size(t)
        raise Unsupported('bv type %r' % (t,))
    def val(s, st, ty, v):
        k = v[0]
        if k == 'l':
            return st.env[v[1]]
        if k == 'c':
            return bv(v[1], s.width(ty))
        if k == 'null':
            return Ptr('null', 0)
        if k == 'zero':
            t = s.M.resolve(ty)
            if t[0] == 'ptr':
                return Ptr('null', 0)
            return bv(0, s.width(ty))
        if k == 'undef':
            t = s.M.resolve(ty)
            if t[0] == 'ptr':
                return Ptr('undef', 0)
            if t[0] == 'struct':
                return {}
            return z3.FreshConst(z3.BitVecSort(s.width(ty)), 'undef')
        if k == 'g':
            return Ptr(v[1], 0)
        if k == 'fp':
            t = s.M.resolve(ty)
            return s.fpconst(v[1], t[1])
        if k == 'ce' and v[1] == 'gep':
            return s.gep(st, v[2], v[3])
        raise Unsupported('bv value %r' % (v,))
    def fsort(s, ty):
        t = s.M.resolve(ty)
        return z3.Float32() if t[1] == 'float' else z3.Float64()
    def fpconst(s, txt, kind):
        import struct
        if isinstance(txt, str) and txt.startswith('0x'):
            d = struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
        else:
            d = float(txt)
        return z3.FPVal(d, z3.Float32() if kind == 'float' else z3.Float64())
    # ---- memory (byte map)
    def byte(s, st, obj, off):
        m = st.mem.setdefault(obj, {})
        if off in m:
            return m[off]
        k = (obj, off)
        if k not in s.init:
            s.init[k] = z3.BitVec('%s.%d' % (obj, off), 8)
        return s.init[k]
    def table(s, name):
        if name not in s.tables:
            import kexec
            ex = kexec.Exec(s.M)
            g = s.M.globals[name]
            if g[0] != 'constant':
                raise Unsupported('mutable global ' + name)
            s.tables[name] = {o: v for (o, n), v in ex.flat_global(name, g[1]).items()}
        return s.tables[name]
    def load(s, st, p, ty):
        t = s.M.resolve(ty)
        n = s.M.size(ty)
        if p.obj.startswith('@') and p.obj in s.M.globals and p.obj not in st.mem:
            return s.gload(st, p, t, n)
        if not isinstance(p.off, int):
            raise Unsupported('symbolic address in a scalar function')
        if t[0] == 'ptr':
            v = st.mem.get(p.obj, {}).get(('p', p.off))
            return v if v is not None else Ptr('*%s.%d' % (p.obj, p.off), 0)
        if t[0] == 'fp':
            v = st.mem.get(p.obj, {}).get(('f', p.off))
            if v is not None:
                return v
            bs = [s.byte(st, p.obj, p.off + i) for i in range(n)]
            return z3.fpBVToFP(z3.simplify(z3.Concat(*reversed(bs))), s.fsort(ty))
        bs = [s.byte(st, p.obj, p.off + i) for i in range(n)]
        r = z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
        if t[1] < 8 * n:
            r = z3.Extract(t[1] - 1, 0, r)
        return r
    def gload(s, st, p, t, n):
        vals = s.table(p.obj)
        off = p.off
        w = t[1]
        if isinstance(off, int):
            if off not in vals:
                raise Unsupported('global load offset')
            return bv(vals[off], w)
        items = sorted(vals.items())
        base = items[0][0]
        # out-of-range offsets are undefined behaviour: recorded as a safety condition
        st.ub.append(z3.Or(z3.ULT(off, bv(base, 64)), z3.UGT(off, bv(items[-1][0], 64))))
        r = bv(items[-1][1], w)
        # balanced decision tree
        def tree(lo, hi):
            if lo == hi:
                return bv(items[lo][1], w)
            mid = (lo + hi) // 2
            return z3.If(z3.ULE(off, bv(items[mid][0], 64)), tree(lo, mid), tree(mid + 1, hi))
        return tree(0, len(items) - 1)
    def store(s, st, p, ty, v):
        if not isinstance(p.off, int):
            raise Unsupported('symbolic address in a scalar function')
        m = st.mem.setdefault(p.obj, {})
        n = s.M.size(ty)
        for i in range(n):
            m.pop(('p', p.off + i), None)
            m.pop(('f', p.off + i), None)
        if isinstance(v, Ptr):
            m[('p', p.off)] = v
            return
        if z3.is_fp(v):
            m[('f', p.off)] = v
            return
        if v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        for i in range(n):
            m[p.off + i] = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
    # ---- run
    def run(s, F, args, mem=None, pre=()):
        st = S()
        st.pc = list(pre)
        for o, m in (mem or {}).items():
            st.mem[o] = dict(m)
        for (ty, n), a in zip(F.params, args):
            st.env[n] = a
        out = []
        work = [(st, F.entry, None, {})]
        while work:
            st, bn, frm, cnt = work.pop()
            if len(out) + len(work) > s.maxpaths:
                raise Unsupported('too many paths')
            while True:
                b = F.blocks[bn]
                if b.phis:
                    news = []
                    for ph in b.phis:
                        for v, bb in ph.x:
                            if bb == frm:
                                news.append((ph.res, s.val(st, ph.ty, v)))
                                break
                        else:
                            raise Unsupported('phi')
                    for r, v in news:
                        st.env[r] = v
                for ins in b.insts[:-1]:
                    s.step(st, ins)
                t = b.term
                if t.op == 'ret':
                    rv = s.val(st, t.args[0][0], t.args[0][1]) if t.args else None
                    out.append((st, rv))
                    break
                if t.op == 'unreachable':
                    st.ub.append(z3.BoolVal(True))
                    out.append((st, None))
                    break
                nxt = s.succ(st, t)
                if len(nxt) == 1:
                    frm, bn = bn, nxt[0][1]
                    if nxt[0][0] is not None:
                        st.pc.append(nxt[0][0])
                else:
                    live = []
                    for c, tgt in nxt:
                        if s.feasible(st.pc + [c]):
                            live.append((c, tgt))
                    if not live:
                        break
                    for c, tgt in live[1:]:
                        n = st.clone()
                        n.pc.append(c)
                        c2 = dict(cnt)
                        c2[tgt] = c2.get(tgt, 0) + 1
                        work.append((n, tgt, bn, c2))
                    if len(live) > 1:
                        st.pc.append(live[0][0])
                    frm, bn = bn, live[0][1]
                cnt = dict(cnt)
                cnt[bn] = cnt.get(bn, 0) + 1
                if cnt[bn] > s.bound:
                    raise Unsupported('loop does not close within %d iterations' % s.bound)
        return out
    def succ(s, st, t):
        if t.op == 'br':
            if len(t.x) == 1:
                return [(None, t.x[0])]
            c = s.val(st, *t.args[0])
            c = z3.simplify(c == bv(1, 1))
            if z3.is_true(c):
                return [(None, t.x[0])]
            if z3.is_false(c):
                return [(None, t.x[1])]
            return [(c, t.x[0]), (z3.Not(c), t.x[1])]
        if t.op == 'switch':
            v = s.val(st, t.args[0][0], t.args[0][1])
            default, cases = t.x
            r = []
            rest = []
            for cv, tgt in cases:
                c = v == bv(cv, v.size())
                r.append((c, tgt))
                rest.append(z3.Not(c))
            r.append((z3.And(*rest) if rest else z3.BoolVal(True), default))
            r = [(z3.simplify(c), tg) for c, tg in r]
            r = [(c, tg) for c, tg in r if not z3.is_false(c)]
            return r
        raise Unsupported(t.op)
    def step(s, st, ins):
        s.steps += 1
        op = ins.op
        r = None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = s.val(st, *ins.args[0])
            b = s.val(st, *ins.args[1])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsupported('pointer arithmetic')
            w = a.size()
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'sdiv':
                st.ub.append(z3.Or(b == 0, z3.And(a == bv(-1 << (w - 1), w), b == bv(-1, w))))
                r = a / b
            elif op == 'udiv':
                st.ub.append(b == 0)
                r = z3.UDiv(a, b)
            elif op == 'srem':
                st.ub.append(b == 0)
                r = z3.SRem(a, b)
            elif op == 'urem':
                st.ub.append(b == 0)
                r = z3.URem(a, b)
            elif op in ('shl', 'lshr', 'ashr'):
                st.ub.append(z3.UGE(b, bv(w, w)))
                r = a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            else: r = a ^ b
            r = z3.simplify(r)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = s.val(st, *ins.args[0])
            b = s.val(st, *ins.args[1])
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            r = f(z3.RNE(), a, b)
        elif op == 'fneg':
            r = z3.fpNeg(s.val(st, *ins.args[0]))
        elif op == 'fcmp':
            a = s.val(st, *ins.args[0])
            b = s.val(st, *ins.args[1])
            pr = ins.x
            f = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y))}[pr[1:]]
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            c = z3.And(f(a, b), z3.Not(un)) if pr[0] == 'o' else z3.Or(f(a, b), un)
            r = z3.If(c, bv(1, 1), bv(0, 1))
        elif op in ('trunc', 'zext', 'sext'):
            a = s.val(st, *ins.args[0])
            w = s.width(ins.ty)
            r = z3.simplify(z3.Extract(w - 1, 0, a) if op == 'trunc' else z3.ZeroExt(w - a.size(), a) if op == 'zext' else z3.SignExt(w - a.size(), a))
        elif op in ('fptosi', 'fptoui'):
            a = s.val(st, *ins.args[0])
            w = s.width(ins.ty)
            r = z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w))
        elif op in ('sitofp', 'uitofp'):
            a = s.val(st, *ins.args[0])
            r = z3.fpSignedToFP(z3.RNE(), a, s.fsort(ins.ty)) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), a, s.fsort(ins.ty))
        elif op in ('fpext', 'fptrunc'):
            r = z3.fpToFP(z3.RNE(), s.val(st, *ins.args[0]), s.fsort(ins.ty))
        elif op == 'icmp':
            a = s.val(st, *ins.args[0])
            b = s.val(st, *ins.args[1])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                        e = a.off == b.off
                    elif 'null' in (a.obj, b.obj) and a.obj != b.obj:
                        e = False
                    else:
                        raise Unsupported('pointer comparison')
                    if ins.x not in ('eq', 'ne'):
                        raise Unsupported('pointer comparison')
                    r = bv(int(e == (ins.x == 'eq')), 1)
                else:
                    raise Unsupported('pointer comparison')
            else:
                c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                     'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[ins.x]()
                r = z3.simplify(z3.If(c, bv(1, 1), bv(0, 1)))
        elif op == 'select':
            c = s.val(st, *ins.args[0])
            a = s.val(st, *ins.args[1])
            b = s.val(st, *ins.args[2])
            c = z3.simplify(c == bv(1, 1))
            if z3.is_true(c): r = a
            elif z3.is_false(c): r = b
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsupported('pointer select')
            else:
                r = z3.If(c, a, b)
        elif op == 'freeze':
            r = s.val(st, *ins.args[0])
        elif op == 'load':
            r = s.load(st, s.val(st, *ins.args[0]), ins.ty)
        elif op == 'store':
            s.store(st, s.val(st, *ins.args[1]), ins.args[0][0], s.val(st, *ins.args[0]))
            return
        elif op == 'alloca':
            r = Ptr(ins.res, 0)
            st.mem[ins.res] = {}
        elif op == 'getelementptr':
            r = s.gep(st, ins.x, ins.args)
        elif op == 'call':
            r = s.call(st, ins)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast'):
            r = s.val(st, *ins.args[0])
        elif op == 'insertvalue':
            agg = dict(s.val(st, *ins.args[0]))
            agg[tuple(ins.x)] = s.val(st, *ins.args[1])
            r = agg
        elif op == 'extractvalue':
            r = s.val(st, *ins.args[0])[tuple(ins.x)]
        else:
            raise Unsupported('bv ' + op)
        if ins.res:
            st.env[ins.res] = r
    def gep(s, st, t, args):
        base = s.val(st, *args[0])
        off = base.off
        def add(off, k):
            if isinstance(off, int) and isinstance(k, int):
                return off + k
            o = off if not isinstance(off, int) else bv(off, 64)
            kk = k if not isinstance(k, int) else bv(k, 64)
            r = z3.simplify(o + kk)
            return r.as_signed_long() if z3.is_bv_value(r) else r
        first = True
        for ty, v in args[1:]:
            i = s.val(st, ty, v)
            ci = i.as_signed_long() if z3.is_bv_value(i) else None
            if first:
                sz = s.M.size(t)
                first = False
            else:
                t = s.M.resolve(t)
                if t[0] == 'struct':
                    off = add(off, s.M.field_off(t, ci))
                    t = t[1][ci]
                    continue
                t = t[2]
                sz = s.M.size(t)
            if ci is not None:
                off = add(off, ci * sz)
            else:
                if i.size() < 64:
                    i = z3.SignExt(64 - i.size(), i)
                off = add(off, i * bv(sz, 64))
        return Ptr(base.obj, off)
    def call(s, st, ins):
        if ins.x == 'asm' or ins.x[0] != 'g':
            raise Unsupported('indirect call')
        n = ins.x[1]
        if n.startswith('@llvm.'):
            if n.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias', '@llvm.prefetch')):
                return None
            a = [s.val(st, t, v) for t, v in ins.args]
            k = n.split('.')
            if k[1] in ('smax', 'smin', 'umax', 'umin'):
                c = {'smax': lambda: a[0] > a[1], 'smin': lambda: a[0] < a[1], 'umax': lambda: z3.UGT(a[0], a[1]), 'umin': lambda: z3.ULT(a[0], a[1])}[k[1]]()
                return z3.If(c, a[0], a[1])
            if k[1] == 'abs':
                return z3.If(a[0] < 0, -a[0], a[0])
            w = a[0].size() if z3.is_bv(a[0]) else 0
            if k[1] in ('sadd', 'ssub', 'uadd', 'usub') and k[2] == 'sat':
                return s.sat(k[1], a[0], a[1])
            if k[1] in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and k[2] == 'with':
                e = (z3.SignExt if k[1][0] == 's' else z3.ZeroExt)
                x, y = e(w, a[0]), e(w, a[1])
                full = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1][1:]]
                lo = z3.Extract(w - 1, 0, full)
                return {(0,): lo, (1,): z3.If(e(w, lo) != full, bv(1, 1), bv(0, 1))}
            if k[1] == 'ctlz':
                r = bv(w, w)
                for i in range(w):
                    r = z3.If(z3.Extract(i, i, a[0]) == 1, bv(w - 1 - i, w), r)
                return r
            if k[1] == 'fshl':
                x = z3.Concat(a[0], a[1])
                sh = z3.URem(a[2], bv(w, w))
                return z3.Extract(2 * w - 1, w, x << z3.ZeroExt(w, sh))
            if k[1] == 'memset':
                if z3.is_bv_value(a[2]) and isinstance(a[0].off, int):
                    m = st.mem.setdefault(a[0].obj, {})
                    for i in range(a[2].as_long()):
                        m.pop(('p', a[0].off + i), None)
                        m[a[0].off + i] = a[1]
                    return None
            if k[1] in ('memcpy', 'memmove'):
                if z3.is_bv_value(a[2]) and isinstance(a[0].off, int) and isinstance(a[1].off, int):
                    n = a[2].as_long()
                    bs = [s.byte(st, a[1].obj, a[1].off + i) for i in range(n)]
                    ps = {i: st.mem.get(a[1].obj, {}).get(('p', a[1].off + i)) for i in range(n)}
                    m = st.mem.setdefault(a[0].obj, {})
                    for i in range(n):
                        m[a[0].off + i] = bs[i]
                        m.pop(('p', a[0].off + i), None)
                        if ps[i] is not None:
                            m[('p', a[0].off + i)] = ps[i]
                    return None
            raise Unsupported('bv intrinsic ' + n)
        if n in s.leafs:
            a = [s.val(st, t, v) for t, v in ins.args]
            return s.leafs[n](s, st, a)
        raise Unsupported('bv call to ' + n)
    def sat(s, k, a, b):
        w = a.size()
        e = z3.SignExt if k[0] == 's' else z3.ZeroExt
        f = e(2, a) + e(2, b) if k[1:] == 'add' else e(2, a) - e(2, b)
        if k[0] == 's':
            mx, mn = bv((1 << (w - 1)) - 1, w + 2), bv(-(1 << (w - 1)), w + 2)
        else:
            mx, mn = bv((1 << w) - 1, w + 2), bv(0, w + 2)
        return z3.Extract(w - 1, 0, z3.If(f > mx, mx, z3.If(f < mn, mn, f)))
