"""Compile the real sources in /repo: to LLVM IR for the verifier (clang), to native code for replay (gcc)."""
import os, subprocess, hashlib, tempfile, shutil, atexit, glob, re
import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIGS = {
    'up': ['-DROUND_MODE_UP'],
    'convergent': ['-DROUND_MODE_CONVERGENT'],
    'fullaccu': ['-DROUND_MODE_UP', '-DFULL_ACCU', '-DAVEPOOL_16BIT_MUL', '-DMLI_DEBUG_MODE=DBG_MODE_FULL'],
    # numeric variant of the third configuration with the debug return-code checks compiled out
    'fullaccu_rel': ['-DROUND_MODE_UP', '-DFULL_ACCU', '-DAVEPOOL_16BIT_MUL'],
    'dbg': ['-DROUND_MODE_UP', '-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES'],
}
_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vc_')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

def incs():
    L = REPO + '/lib/src'
    d = [REPO + '/include', REPO + '/include/internal', REPO + '/include/api']
    d += [L + '/' + x for x in ('bricks', 'private', 'helpers', 'helpers/src', 'kernels', 'move', 'pal', 'pal/ref', 'bricks/impl')]
    d += sorted(x for x in glob.glob(L + '/kernels/*') if os.path.isdir(x))
    d += [HERE + '/drv']
    return ['-I' + x for x in d]

class ToolError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise ToolError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout

CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'

def compile_ll(src, config, defs=()):
    """driver source -> unoptimised IR text file"""
    key = hashlib.sha1(repr((src, config, tuple(defs))).encode()).hexdigest()[:12]
    out = os.path.join(tmp(), key + '.ll')
    with lock(out):
      if not os.path.exists(out):
        run([CLANG, '-std=c++17', '-U__clang__', '-U__OPTIMIZE__', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti',
             '-fno-discard-value-names', '-fno-strict-aliasing', '-w', '-DMLI_BUILD_REFERENCE'] + CONFIGS[config] + list(defs) + incs() + ['-S', '-emit-llvm', src, '-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
    return out

PASSES = ('internalize,always-inline,function(sroa,early-cse,simplifycfg),cgscc(inline),globaldce,'
          'function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,'
          'sroa,early-cse<memssa>,simplifycfg,adce,instsimplify,simplifycfg,loop-simplify),globaldce')

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def extract_leaf_decls(text, leaf_res):
    """turn the bodies of contract-carrying leaf functions into declarations; returns text, {mangled: demangled}"""
    if not leaf_res:
        return text, {}
    out = []
    found = {}
    lines = text.split('\n')
    heads = [(i, re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l).group(1)) for i, l in enumerate(lines) if l.startswith('define')]
    dm = demangle([n for _, n in heads])
    sel = {i: n for i, n in heads if any(r.search(dm[n]) for r in leaf_res)}
    i = 0
    while i < len(lines):
        if i in sel:
            l = lines[i]
            l = l.rstrip(' {')
            l = re.sub(r'^define\s+', 'declare ', l)
            l = re.sub(r'\b(linkonce_odr|internal|weak_odr|available_externally|dso_local|linkonce)\b ?', '', l)
            l = re.sub(r'\) (.*)$', ')', l)
            found[sel[i]] = dm[sel[i]]
            out.append(l)
            while lines[i] != '}':
                i += 1
            i += 1
            continue
        out.append(lines[i])
        i += 1
    return '\n'.join(out), found

def resolve_aliases(text):
    """complete-object constructors are emitted as aliases of the base-object ones: name the function itself"""
    al = dict(re.findall(r'^(@[-\w.$]+) = [^\n]*?\balias [^\n]*?ptr (@[-\w.$]+)', text, re.M))
    if not al:
        return text
    text = re.sub(r'^@[-\w.$]+ = [^\n]*?\balias [^\n]*\n', '', text, flags=re.M)
    return re.sub(r'@[-\w.$]+', lambda m: al.get(m.group(0), m.group(0)), text)

def kernel_module(src, config, entries, leaf_res=(), defs=(), inline=True):
    """optimised module; leaf functions are left as declarations"""
    base = compile_ll(src, config, defs)
    key = hashlib.sha1(repr((base, tuple(entries), [r.pattern for r in leaf_res], inline)).encode()).hexdigest()[:12]
    pre = os.path.join(tmp(), key + '.pre.ll')
    out = os.path.join(tmp(), key + '.opt.ll')
    if key in _mods:
        return _mods[key]
    with lock(out):
        if not os.path.exists(out):
            text, found = extract_leaf_decls(resolve_aliases(open(base).read()), leaf_res)
            open(pre, 'w').write(text)
            open(out + '.found', 'w').write(repr(found))
            run([OPT, '-S', '-passes=' + PASSES, '-inline-threshold=%d' % (10000000 if inline else 0), '-internalize-public-api-list=' + ','.join(entries), pre, '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
    found = eval(open(out + '.found').read())
    M = ir.parse_module(open(out).read())
    if len(_mods) > 6:
        _mods.clear()
    _mods[key] = (M, found)
    return M, found
_mods = {}

import fcntl, contextlib
@contextlib.contextmanager
def lock(path):
    with open(path + '.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield
