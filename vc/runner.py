"""Runs one property: proof tasks in parallel, then the replay/conformance harness; writes evidence; decides the exit code."""
import os, sys, time, json, signal, subprocess, traceback, shutil, glob, re
from multiprocessing import Pool
import build

HERE = build.HERE
OUT = os.environ.get('VERIF_OUT', HERE)
class TaskTimeout(Exception):
    pass

class Res:
    """result of one proof task"""
    def __init__(s, name):
        s.name = name
        s.obls = []          # (name, ok, detail)
        s.time = 0.0
        s.queries = 0
        s.assumptions = set()
        s.cex = []           # seed inputs for the harness: text lines
        s.functions = []
        s.kind = 'proof'
    def add(s, name, ok, detail=''):
        s.obls.append((name, ok, detail))

def _alarm(sig, frm):
    raise TaskTimeout()

def _run(job):
    fn, args, limit = job
    name = '%s%r' % (fn.__name__, args)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = fn(*args)
    except TaskTimeout:
        r = Res(name)
        r.add(name, False, 'not discharged within %d s' % limit)
    except Exception:
        r = Res(name)
        r.add(name, False, 'verifier error: ' + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    r.time = time.time() - t0
    return r

def from_report(rep):
    """kern.Report -> Res"""
    import prove
    r = Res(rep.entry)
    for o in rep.obls:
        r.add(o.name, o.ok, o.detail)
    if rep.error:
        r.add(rep.entry + ': within reach of the verifier', False, rep.error)
    if not r.obls:
        r.add(rep.entry + ': obligations generated', False, 'no obligation was generated')
    r.assumptions = set(rep.assumptions)
    r.queries = getattr(rep, 'queries', 0)
    r.functions = [rep.entry]
    return r

def from_leaf(lr):
    r = Res(lr.name)
    r.add(lr.name, lr.ok, lr.detail)
    if lr.cex:
        r.cex.append(lr.name.split('[')[0] + ' ' + ' '.join(str(v) for v in lr.cex.values()))
    r.queries = getattr(lr, 'queries', 1)
    r.functions = [lr.name]
    return r

# ---------------------------------------------------------------- native build of the library and harness
GXX = 'g++'
HCFG = {'up': 'up', 'convergent': 'convergent', 'fullaccu_rel': 'fullaccu_rel', 'fullaccu': 'fullaccu', 'dbg': 'dbg'}
def lib_sources():
    L = build.REPO + '/lib/src'
    out = []
    for f in sorted(glob.glob(L + '/**/*.cc', recursive=True)):
        b = os.path.basename(f)
        if '_vdsp' in b or '_dsp' in b or b == 'mli_perf_estim.cc':
            continue
        out.append(f)
    return out

def build_native(config, harness, with_lib=True):
    """returns path of the harness binary"""
    d = os.path.join(build.tmp(), 'native_' + config)
    os.makedirs(d, exist_ok=True)
    b = os.path.join(d, harness.split('.')[0])
    if os.path.exists(b):
        return b
    flags = ['-std=c++17', '-O1', '-fsanitize=address', '-fwrapv', '-w', '-fno-strict-aliasing', '-DMLI_BUILD_REFERENCE'] + build.CONFIGS[config] + build.incs() + ['-I' + HERE + '/harness']
    objs = []
    procs = []
    def wait_some(n):
        while len(procs) > n:
            p, src = procs.pop(0)
            e = p.communicate()[1]
            if p.returncode:
                raise build.ToolError('compile %s: %s' % (src, e[-1500:]))
    srcs = [os.path.join(HERE, 'harness', harness)]
    if with_lib:
        srcs += lib_sources()
    for f in srcs:
        o = os.path.join(d, os.path.basename(f) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            procs.append((subprocess.Popen([GXX] + flags + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), f))
        wait_some(5)
    wait_some(0)
    build.run([GXX, '-fsanitize=address', '-o', b] + objs)
    return b

def _build(h):
    try:
        build_native(h['config'], h['src'], h.get('lib', True))
        return None
    except build.ToolError as e:
        return str(e)

def harness_run(binary, config, seconds, seed, seeds, outdir, tag):
    """protocol: BIN --time S --seed N --out FILE [--seeds FILE]; exit 0 ok (prints 'CASES n DISTINCT m'), exit 1 + FILE written on a violation"""
    out = os.path.join(outdir, tag + '.case')
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, '--time', str(seconds), '--seed', str(seed), '--out', out]
    if seeds:
        sf = os.path.join(build.tmp(), tag + '.seeds')
        open(sf, 'w').write('\n'.join(seeds) + '\n')
        cmd += ['--seeds', sf]
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1')
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env), out

def search(prop, tier, seed, seeds, failed, rdir):
    """run the native conformance harnesses; returns the violations found, the number of cases, notes"""
    viol, cases, hlog, procs = [], 0, [], []
    if not getattr(prop, 'HARNESS', None):
        return viol, cases, hlog
    secs = prop.SECONDS.get(tier if not failed else 'search', 5)
    for h in prop.HARNESS:
        b = build_native(h['config'], h['src'], h.get('lib', True))
        reps = h.get('procs', 1) if not failed else max(h.get('procs', 1), 8 // max(1, len(prop.HARNESS)))
        for i in range(reps):
            tag = '%s-%s-%d' % (prop.ID, h['config'] + h.get('tag', ''), i)
            p, out = harness_run(b, h['config'], secs, seed * 1000 + i, seeds, rdir, tag)
            procs.append((h, p, out))
    end = time.time() + secs * 3 + 120
    while time.time() < end and any(p.poll() is None for _, p, _ in procs) and not any(p.poll() for _, p, _ in procs):
        time.sleep(0.05)
    stop = any(p.poll() for _, p, _ in procs)
    for h, p, out in procs:
        if stop and p.poll() is None:
            p.kill()
            p.communicate()
            continue
        try:
            o = p.communicate(timeout=max(0.1, end - time.time()))[0]
        except subprocess.TimeoutExpired:
            p.kill()
            o = p.communicate()[0] or ''
            hlog.append('%s: time limit' % h['config'])
            continue
        if os.path.exists(out + '.cur') and p.returncode in (0, 1):
            os.remove(out + '.cur')
        m = re.search(r'CASES (\d+)', o)
        if m:
            cases += int(m.group(1))
        if p.returncode == 0:
            continue
        if os.path.exists(out):
            viol.append((h, out, o))
        else:
            # the code under test crashed or stopped the process: the case being run was announced in .cur
            try:
                w = open(out + '.cur', errors='replace').read().replace('\0', ' ').split()
                head = '%s %d' % (w[1], int(w[0]))
            except (OSError, ValueError, IndexError):
                head = 'unknown 0'
            open(out, 'w').write('%s\nprocess ended with %s\n%s\n' % (head, p.returncode, o[-3000:]))
            viol.append((h, out, o))
    return viol, cases, hlog

def run_property(prop, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pid = prop.ID
    known = load_known(pid)
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    jobs = [(fn, args, lim) for fn, args, lim in prop.tasks(tier)]
    results = []
    nproc = min(8, os.cpu_count() or 4)
    build.tmp()
    with Pool(nproc, initializer=_init, initargs=(build.tmp(),), maxtasksperchild=1) as pool:
        hs = list({(h['config'], h['src'], h.get('lib', True)): h for h in getattr(prop, 'HARNESS', None) or []}.values())
        nb = [(h, pool.apply_async(_build, (h,))) for h in hs]
        ar = [pool.apply_async(_run, (j,)) for j in jobs]
        budget = 560 if tier == 'quick' else 6 * 3600
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        knownobl0 = {k['obligation']: k for k in known if k.get('obligation')}
        early = None
        first_fail = None
        got = [None] * len(jobs)
        while time.time() < t0 + budget:
            for n, a in enumerate(ar):
                if got[n] is None and a.ready():
                    try:
                        got[n] = a.get(1)
                    except Exception as e:
                        got[n] = Res(str(jobs[n][1]))
                        got[n].add(str(jobs[n][1]), False, 'verifier task died: %r' % (e,))
                    if first_fail is None and sort_out([got[n]], knownobl0, [])[2]:
                        first_fail = time.time()
            if all(g is not None for g in got):
                break
            if first_fail and early is None and time.time() > first_fail + 25 and all(a.ready() for _, a in nb):
                # an obligation failed: look for a failing input while the rest of the proof goes on
                early = [] if any(a.get() for _, a in nb) else search(prop, tier, seed, [c for g in got if g for c in g.cex], True, rdir)[0]
                if early:
                    break
            time.sleep(0.2)
        for n, g in enumerate(got):
            if g is None:
                g = Res(str(jobs[n][1]))
                g.add(str(jobs[n][1]), False, 'not decided: a failing input was found first' if early else 'verifier task did not finish within the budget')
            results.append(g)
        if early:
            for _, a in nb:
                a.get()
            pool.terminate()
        built = {}
        harness_err = None
        for h, a in nb:
            try:
                e = a.get(600)
            except Exception as x:
                e = repr(x)
            if e:
                harness_err = e
    knownobl = {k['obligation']: k for k in known if k.get('obligation')}
    kf = []
    obls, bounded, real_failed = sort_out(results, knownobl, kf)
    proof_wall = time.time() - t0
    # ---- replay / conformance
    viol, cases, hlog = early or [], 0, []
    if not early and not harness_err:
        try:
            viol, cases, hlog = search(prop, tier, seed, [c for r in results for c in r.cex], bool(real_failed), rdir)
        except build.ToolError as e:
            harness_err = str(e)
    if real_failed and not viol and not harness_err and time.time() - t0 < 500:
        # nothing fails natively: a resource limit may have been hit, so the failed tasks get more of everything
        import prove
        prove.SCALE = 5
        bad = {id(r) for r, _, _ in real_failed}
        redo = [i for i, r in enumerate(results) if id(r) in bad]
        with Pool(nproc, initializer=_init, initargs=(build.tmp(),), maxtasksperchild=1) as pool:
            ar = [(i, pool.apply_async(_run, ((jobs[i][0], jobs[i][1], jobs[i][2] * 2),))) for i in redo]
            end = t0 + (760 if tier == 'quick' else 8 * 3600)
            for i, a in ar:
                try:
                    results[i] = a.get(max(1, end - time.time()))
                except Exception:
                    pass
            pool.terminate()
        obls, bounded, real_failed = sort_out(results, knownobl, kf)
    lines = []
    code = 0
    if viol or real_failed or harness_err:
        code = 1
        rp = os.path.join(rdir, pid + '.json')
        doc = {'property': pid, 'config': None, 'failed_obligations': [{'name': n, 'detail': d[:4000]} for _, n, d in real_failed[:40]],
               'how_to_replay': 'python3-vt /verif/check.py %s --replay %s' % (pid, rp)}
        if viol:
            h, out, o = viol[0]
            doc['config'] = h['config']
            doc['harness'] = h['src']
            doc['lib'] = h.get('lib', True)
            doc['case'] = open(out).read()
            doc['output'] = o[-3000:]
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            if harness_err:
                doc['harness_build_error'] = harness_err
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        json.dump(doc, open(rp, 'w'), indent=1)
        for _, n, d in real_failed[:15]:
            print('UNDISCHARGED %s\n    %s' % (n, d[:1500].replace('\n', '\n    ')))
        for h, out, o in viol[:3]:
            print('FAILING INPUT [%s] %s' % (h['config'], o[-1500:]))
        if harness_err:
            print('replay harness does not build: ' + harness_err[-1500:])
    for k in known:
        if k.get('status') == 'known':
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # ---- evidence
    nob = len(obls)
    ndis = sum(1 for _, _, ok, _ in obls if ok)
    funcs = sorted({f for r in results for f in r.functions})
    cov = {'obligations': nob, 'discharged': ndis,
           'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
           'trusted_base': prop.TRUSTED if hasattr(prop, 'TRUSTED') else TRUSTED,
           'functions_under_contract': funcs, 'solver_queries': sum(r.queries for r in results),
           'solver': 'z3 ' + z3v(), 'solver_and_executor_cpu_s': round(sum(r.time for r in results), 1),
           'bounded_stand_ins': [n for _, n, _, _ in bounded],
           'bounded_stand_ins_ok': sum(1 for _, _, ok, _ in bounded if ok),
           'conformance_cases_run_natively': cases,
           'slowest_tasks': [[r.name, round(r.time, 1)] for r in sorted(results, key=lambda r: -r.time)[:5]]}
    if hlog:
        cov['harness_notes'] = hlog
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.LEVEL, 'coverage': cov,
          'assumptions': sorted(set(getattr(prop, 'ASSUMPTIONS', [])) | {a for r in results for a in r.assumptions}),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d contracts, %d native conformance cases, %.1f s (proof %.1f s)' % (
        pid, ndis, nob, len(funcs), cases, time.time() - t0, proof_wall))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code

def sort_out(results, knownobl, kf):
    obls = [(r, n, ok, d) for r in results for n, ok, d in r.obls if r.kind == 'proof']
    bounded = [(r, n, ok, d) for r in results for n, ok, d in r.obls if r.kind == 'bounded']
    real_failed = []
    for r, n, ok, d in obls + bounded:
        if not ok:
            hit = next((k for o, k in knownobl.items() if n == o or n.startswith(o)), None)
            if hit:
                kf.append(hit)
            else:
                real_failed.append((r, n, d))
    return obls, bounded, real_failed

def _init(tmpdir):
    build._tmp = tmpdir
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def z3v():
    import z3
    return z3.get_version_string()

TRUSTED = ['clang 18 front end and the listed LLVM passes (real sources of /repo -> SSA IR)', 'the verifier in /verif/vc (IR parser, executor, loop rules, obligation generator)', 'z3']

def load_known(pid):
    f = os.path.join(HERE, 'known_findings.jsonl')
    r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('#'):
                k = json.loads(l)
                if k['property'] == pid:
                    r.append(k)
    return r

def replay(prop, path):
    doc = json.load(open(path))
    if 'case' not in doc:
        print('no failing input recorded; failed obligations:')
        for o in doc['failed_obligations']:
            print(o['name'], '\n', o['detail'])
        return 1
    b = build_native(doc['config'], doc['harness'], doc.get('lib', True))
    cf = os.path.join(build.tmp(), 'case')
    open(cf, 'w').write(doc['case'])
    p = subprocess.run([b, '--replay', cf])
    return 1 if p.returncode else 0
