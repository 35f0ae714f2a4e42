"""Parser for the textual LLVM IR (opaque pointers, LLVM 18) that clang emits for the code under verification."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:(?P<s>c?"(?:[^"\\]|\\.)*")|(?P<g>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)|(?P<l>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
    |(?P<n>0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+)|(?P<m>![-\w.]*)|(?P<a>\#\d+)|(?P<w>[A-Za-z_$][\w.$]*)|(?P<p>\.\.\.|[][(){}<>,=*:|]))''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: ' + s[i:i+60])
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
        i = m.end()
    return out

# ---- types: ('int',w) ('ptr',) ('void',) ('fp',name) ('array',n,t) ('vec',n,t) ('struct',(t..),packed) ('named',name)
class P:
    def __init__(s, toks):
        s.t = toks
        s.i = 0
    def peek(s, o=0):
        return s.t[s.i+o] if s.i+o < len(s.t) else (None, None)
    def pv(s, o=0):
        return s.peek(o)[1]
    def next(s):
        r = s.peek()
        s.i += 1
        return r
    def accept(s, v):
        if s.pv() == v:
            s.i += 1
            return True
        return False
    def expect(s, v):
        if not s.accept(v):
            raise IRError('expected %r got %r in %s' % (v, s.pv(), ' '.join(str(x[1]) for x in s.t[max(0, s.i-8):s.i+8])))
    def end(s):
        return s.i >= len(s.t)

    def type(s):
        k, v = s.next()
        if k == 'w':
            if re.fullmatch(r'i\d+', v):
                r = ('int', int(v[1:]))
            elif v == 'ptr':
                r = ('ptr',)
            elif v == 'void':
                r = ('void',)
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat'):
                r = ('fp', v)
            elif v in ('label', 'metadata', 'token', 'opaque'):
                r = (v,)
            else:
                raise IRError('type? ' + v)
        elif k == 'l':
            r = ('named', v)
        elif v == '[':
            n = int(s.next()[1])
            s.expect('x')
            t = s.type()
            s.expect(']')
            r = ('array', n, t)
        elif v == '{':
            r = s.structbody(False)
        elif v == '<':
            if s.accept('{'):
                r = s.structbody(True)
                s.expect('>')
            else:
                n = int(s.next()[1])
                s.expect('x')
                t = s.type()
                s.expect('>')
                r = ('vec', n, t)
        else:
            raise IRError('type? %r' % (v,))
        while s.pv() == '(' and r != ('void',) and False:
            pass
        return r
    def structbody(s, packed):
        ts = []
        if not s.accept('}'):
            while True:
                ts.append(s.type())
                if s.accept('}'):
                    break
                s.expect(',')
        return ('struct', tuple(ts), packed)

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
             'immarg', 'nofree', 'nest', 'swiftself', 'noinline', 'nounwind', 'willreturn', 'dso_local', 'local_unnamed_addr', 'unnamed_addr',
             'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'hidden', 'protected', 'available_externally', 'allocptr', 'dead_on_unwind', 'writable', 'common', 'extern_weak', 'dllimport', 'dllexport', 'comdat_any'}
    def attrs(s):
        while True:
            k, v = s.peek()
            if k == 'w' and v in s.ATTRS:
                s.i += 1
            elif k == 'w' and v in ('align', 'captures'):
                s.i += 1
                if s.pv() == '(':
                    s.parens()
                else:
                    s.i += 1
            elif k == 'w' and v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'range', 'memory', 'initializes', 'nofpclass', 'preallocated', 'inalloca'):
                s.i += 1
                if s.pv() == '(':
                    s.parens()
            else:
                return
    def parens(s):
        s.expect('(')
        d = 1
        while d:
            v = s.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
            elif v is None:
                raise IRError('parens')

    # operands: ('c',int) ('null',) ('undef',) ('zero',) ('l',name) ('g',name) ('fp',text) ('ce',op,...) ('agg',[(t,v)])
    def value(s, ty):
        k, v = s.next()
        if k == 'l':
            return ('l', v)
        if k == 'g':
            return ('g', v)
        if k == 'n':
            if ty[0] == 'fp':
                return ('fp', v)
            return ('c', int(v))
        if k == 's':
            return ('str', v)
        if k == 'w':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                s.accept('inbounds')
                s.expect('(')
                bt = s.type()
                s.expect(',')
                ops = []
                while True:
                    s.accept('inrange')
                    t = s.type()
                    ops.append((t, s.value(t)))
                    if s.accept(')'):
                        break
                    s.expect(',')
                return ('ce', 'gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.expect('(')
                t = s.type()
                x = s.value(t)
                s.expect('to')
                t2 = s.type()
                s.expect(')')
                return ('ce', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while s.pv() in ('nsw', 'nuw'):
                    s.i += 1
                s.expect('(')
                t = s.type()
                x = s.value(t)
                s.expect(',')
                t2 = s.type()
                y = s.value(t2)
                s.expect(')')
                return ('ce', 'bin', v, t, x, y)
            raise IRError('value? ' + v)
        if v == '{' or v == '[' or v == '<':
            if v == '<' and s.pv() == '{':
                s.i += 1
                close = ['}', '>']
            else:
                close = [{'{': '}', '[': ']', '<': '>'}[v]]
            items = []
            if s.pv() != close[0]:
                while True:
                    t = s.type()
                    items.append((t, s.value(t)))
                    if not s.accept(','):
                        break
            for c in close:
                s.expect(c)
            return ('agg', items)
        raise IRError('value? %r %r' % (k, v))
    def tyval(s):
        t = s.type()
        s.attrs()
        return (t, s.value(t))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'text', 'bb')
    def __init__(s, op, res, ty, args, x=None, text=''):
        s.op, s.res, s.ty, s.args, s.x, s.text = op, res, ty, args, x, text
    def __repr__(s):
        return s.text

class Block:
    def __init__(s, name):
        s.name = name
        s.insts = []
        s.phis = []
        s.preds = []
        s.succs = []
    @property
    def term(s):
        return s.insts[-1]

class Func:
    def __init__(s, name, ret, params, vararg):
        s.name, s.ret, s.params, s.vararg = name, ret, params, vararg
        s.blocks = {}
        s.order = []
        s.entry = None

class Module:
    def __init__(s):
        s._size = {}
        s._align = {}
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
    # ---- layout
    def resolve(s, t):
        while t[0] == 'named':
            if t[1] not in s.types:
                raise IRError('opaque type ' + t[1])
            t = s.types[t[1]]
        return t
    def size(s, t):
        r = s._size.get(t)
        if r is None:
            r = s._size[t] = s.size1(t)
        return r
    def size1(s, t):
        t = s.resolve(t)
        k = t[0]
        if k == 'int':
            w = t[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16}[t[1]]
        if k in ('array', 'vec'):
            return t[1] * s.size(t[2])
        if k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                a = 1 if t[2] else s.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + s.size(f)
            return (off + al - 1) // al * al
        raise IRError('size %r' % (t,))
    def align(s, t):
        r = s._align.get(t)
        if r is None:
            r = s._align[t] = s.align1(t)
        return r
    def align1(s, t):
        t = s.resolve(t)
        k = t[0]
        if k in ('int', 'ptr', 'fp'):
            return s.size(t)
        if k == 'array':
            return s.align(t[2])
        if k == 'vec':
            return s.size(t)
        if k == 'struct':
            return 1 if t[2] or not t[1] else max(s.align(f) for f in t[1])
    def field_off(s, t, i):
        off = 0
        for j, f in enumerate(t[1]):
            a = 1 if t[2] else s.align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s.size(f)
        raise IRError('field')

BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'sitofp', 'fptoui', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}
META = re.compile(r',\s*![A-Za-z].*$')
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'atomic'}

def parse_inst(line):
    line = META.sub('', line) if ', !' in line else line
    p = P(tokenize(line))
    res = None
    if p.peek()[0] == 'l' and p.pv(1) == '=':
        res = p.next()[1]
        p.next()
    while p.pv() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()[1]
    flags = set()
    while p.pv() in FLAGS and op not in ('call',):
        flags.add(p.next()[1])
    if op in BINOPS:
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, t, [(t, a), (t, b)], flags, line)
    if op == 'fneg':
        t = p.type()
        return Inst(op, res, t, [(t, p.value(t))], flags, line)
    if op in CASTS:
        t, a = p.tyval()
        p.expect('to')
        t2 = p.type()
        return Inst(op, res, t2, [(t, a)], flags, line)
    if op in ('icmp', 'fcmp'):
        pred = p.next()[1]
        while pred in FLAGS:
            pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, ('int', 1), [(t, a), (t, b)], pred, line)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = p.next()[1]
            p.expect(']')
            inc.append((v, l[1:]))
            if not p.accept(','):
                break
        return Inst(op, res, t, [], inc, line)
    if op == 'br':
        if p.pv() == 'label':
            p.next()
            return Inst(op, None, None, [], [p.next()[1][1:]], line)
        t, c = p.tyval()
        p.expect(',')
        p.expect('label')
        a = p.next()[1][1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1][1:]
        return Inst(op, None, None, [(t, c)], [a, b], line)
    if op == 'ret':
        if p.pv() == 'void':
            return Inst(op, None, None, [], None, line)
        return Inst(op, None, None, [p.tyval()], None, line)
    if op == 'unreachable':
        return Inst(op, None, None, [], None, line)
    if op == 'switch':
        t, v = p.tyval()
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1][1:]))
        return Inst(op, None, None, [(t, v)], (d, cases), line)
    if op == 'select':
        c = p.tyval()
        p.expect(',')
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        return Inst(op, res, a[0], [c, a, b], None, line)
    if op == 'load':
        t = p.type()
        p.expect(',')
        a = p.tyval()
        return Inst(op, res, t, [a], flags, line)
    if op == 'store':
        v = p.tyval()
        p.expect(',')
        a = p.tyval()
        return Inst(op, None, None, [v, a], flags, line)
    if op == 'alloca':
        t = p.type()
        n = ('c', 1)
        if p.accept(','):
            if p.pv() != 'align':
                n = p.tyval()[1]
        return Inst(op, res, t, [], n, line)
    if op == 'getelementptr':
        t = p.type()
        p.expect(',')
        ops = []
        while True:
            ops.append(p.tyval())
            if not p.accept(','):
                break
        return Inst(op, res, ('ptr',), ops, t, line)
    if op == 'call':
        while p.pv() in FLAGS:
            p.next()
        p.attrs()
        rt = p.type()
        p.attrs()
        if p.pv() == '(':   # function type for varargs
            p.parens()
        if p.peek()[0] == 'w':
            return Inst('call', res, rt, [], 'asm', line)
        callee = p.next()
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                p.attrs()
                if t[0] == 'metadata':
                    d = 0
                    while not (d == 0 and p.pv() in (',', ')')):
                        v = p.next()[1]
                        if v == '(':
                            d += 1
                        elif v == ')':
                            d -= 1
                    args.append((t, ('md',)))
                else:
                    args.append((t, p.value(t)))
                if p.accept(')'):
                    break
                p.expect(',')
        return Inst('call', res, rt, args, callee, line)
    if op == 'freeze':
        a = p.tyval()
        return Inst(op, res, a[0], [a], None, line)
    if op == 'extractvalue':
        a = p.tyval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Inst(op, res, None, [a], idx, line)
    if op == 'insertvalue':
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Inst(op, res, a[0], [a, b], idx, line)
    return Inst('unknown:' + op, res, None, [], None, line)

LABEL = re.compile(r'^("?[-\w.$]+"?|"[^"]*"):')

def parse_module(text, want=None):
    """want: set of function names whose bodies are parsed (None = all)."""
    M = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if ln.startswith('%'):
            m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
            if m:
                if m.group(2).strip() == 'opaque':
                    continue
                M.types[m.group(1)] = P(tokenize(m.group(2))).type()
        elif ln.startswith('@'):
            m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
            rest = m.group(2)
            mm = re.search(r'\b(global|constant)\b (.*)$', rest)
            if mm:
                M.globals[m.group(1)] = (mm.group(1), mm.group(2))
        elif ln.startswith('declare'):
            m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln)
            M.decls[m.group(1)] = ln
        elif ln.startswith('define'):
            m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln)
            name = m.group(1)
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            if want is not None and name not in want:
                M.decls[name] = ln
                continue
            head = ln[len('define'):m.start()]
            hp = P(tokenize(head))
            hp.attrs()
            while hp.peek()[0] == 'w' and hp.pv() in P.ATTRS:
                hp.attrs()
            ret = hp.type()
            # params
            pp = P(tokenize(ln[m.end()-1:]))
            pp.expect('(')
            params = []
            va = False
            if not pp.accept(')'):
                while True:
                    if pp.accept('...'):
                        va = True
                    else:
                        t = pp.type()
                        pp.attrs()
                        nm = pp.next()[1] if pp.peek()[0] == 'l' else '%%%d' % len(params)
                        params.append((t, nm))
                    if pp.accept(')'):
                        break
                    pp.expect(',')
            F = Func(name, ret, params, va)
            cur = None
            j = 0
            while j < len(body):
                b = body[j]
                j += 1
                st = b.strip()
                if not st or st.startswith(';'):
                    continue
                if not b.startswith(' ') and LABEL.match(b):
                    lb = LABEL.match(b).group(1)
                    cur = Block(lb)
                    F.blocks[lb] = cur
                    F.order.append(lb)
                    continue
                if cur is None:
                    lb = str(len([p_ for p_ in params if re.fullmatch(r'%\d+', p_[1])]))
                    cur = Block(lb)
                    F.blocks[lb] = cur
                    F.order.append(lb)
                if st.startswith('switch'):
                    while ']' not in st:
                        st += ' ' + body[j].strip()
                        j += 1
                ins = parse_inst(st)
                ins.bb = cur
                if ins.op == 'phi':
                    cur.phis.append(ins)
                else:
                    cur.insts.append(ins)
            F.entry = F.order[0]
            for b in F.blocks.values():
                t = b.insts[-1]
                if t.op == 'br':
                    b.succs = list(t.x)
                elif t.op == 'switch':
                    b.succs = [t.x[0]] + [c[1] for c in t.x[1]]
                for sname in dict.fromkeys(b.succs):
                    F.blocks[sname].preds.append(b.name)
            M.funcs[name] = F
    return M

# ---------------------------------------------------------------- CFG: dominators and natural loops
class Loop:
    def __init__(s, header):
        s.header = header
        s.blocks = set()
        s.latches = []
        s.exits = []       # (from, to)
        s.parent = None

def analyse(F):
    if getattr(F, 'loops', None) is not None:
        return F.loops
    # RPO
    seen = set()
    order = []
    st = [(F.entry, iter(F.blocks[F.entry].succs))]
    seen.add(F.entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(F.blocks[x].succs)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    F.rpo = num
    idom = {F.entry: F.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in F.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    F.idom = idom
    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == F.entry:
                return False
            b = idom[b]
    F.dom = dom
    loops = {}
    for b in rpo:
        for sname in F.blocks[b].succs:
            if num[sname] <= num[b]:
                if not dom(sname, b):
                    raise IRError('irreducible control flow in ' + F.name)
                L = loops.setdefault(sname, Loop(sname))
                L.latches.append(b)
                work = [b]
                L.blocks.add(sname)
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work.extend(p for p in F.blocks[x].preds if p in num)
    for L in loops.values():
        for b in L.blocks:
            for sname in F.blocks[b].succs:
                if sname not in L.blocks:
                    L.exits.append((b, sname))
    F.loops = loops
    return loops
