#!/usr/bin/env python3
"""Driver: decides one property.   run.py <property-id>

Compiles the contract file of the property together with /repo's current
sources to LLVM IR, generates the verification conditions of every function
under contract, discharges them, replays counterexamples natively, and writes
evidence/<id>.json."""
import json
import multiprocessing as mp
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VC = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(VC)
sys.path.insert(0, VC)
REPO = os.environ.get('VERIF_REPO', '/repo')

CLANG = 'clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
MPI = ['-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
COMMON = ['-std=c++17', '-w', '-include', 'cstring', '-include', 'stdexcept', '-isystem', '/usr/include/hdf5/openmpi',
          '-DCATCH_CONFIG_NO_POSIX_SIGNALS']


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class CompileError(Exception):
    pass


def incs(work):
    # /repo/src first (real sources), then a private copy of the configure output
    return ['-I', VC, '-I', os.path.join(REPO, 'src'), '-I', work]


def opts_header(work):
    """src/app_compile_opts.hpp is produced by ./configure and ignored by git: provide the same content if absent"""
    if not os.path.exists(os.path.join(REPO, 'src/app_compile_opts.hpp')):
        with open(os.path.join(work, 'app_compile_opts.hpp'), 'w') as f:
            f.write(''.join('#define MARA_COMPILE_SUBPROGRAM_%s 1\n' % x for x in (
                'BOILERPLATE', 'PARTDOM', 'CLOUD', 'SEDOV', 'BINARY', 'AMRSAND', 'TEST')) + '#define MARA_PREFERRED_THREAD_COUNT 12\n')


def to_ir(src, work, extra=()):
    base = os.path.join(work, os.path.basename(src)[:-4])
    raw = base + '.raw.ll'
    cmd = [CLANG, '-O2', '-Xclang', '-disable-llvm-passes', '-fno-math-errno', '-ffp-contract=off', '-fno-threadsafe-statics', '-fno-optimize-sibling-calls',
           '-S', '-emit-llvm'] + COMMON + MPI + incs(work) + list(extra) + [src, '-o', raw]
    r = sh(cmd)
    if r.returncode != 0:
        raise CompileError(r.stderr[:4000])
    # only what the contracts reach
    names = re.findall(r'^define [^\n]*@(vc_proof_\w+)\(', open(raw).read(), re.M)
    slim = base + '.slim.ll'
    names += re.findall(r'^@(vc_contract_\w+) = ', open(raw).read(), re.M)
    r = sh([OPT, '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(names), raw, '-o', slim])
    if r.returncode != 0:
        raise CompileError('opt: ' + r.stderr[:3000])
    text = open(slim).read()
    table = {}
    for m in re.finditer(r'^@vc_contract_(\w+) = .*$', text, re.M):
        syms = re.findall(r'@(_Z[\w.]+|"[^"]+")', m.group(0))
        if len(syms) >= 2:
            table[m.group(1)] = ('@' + syms[0], '@' + syms[1])
    for name, (t, s) in table.items():
        pat = re.compile(r'^(define .*?' + re.escape(t) + r'\(.*\)(?: (?:local_)?unnamed_addr)?)( .*\{)$', re.M)
        # 'weak': callers are compiled without looking into the body (no propagation of constants or of unused arguments)
        text, k = pat.subn(lambda m: re.sub(r'^define (?:internal |linkonce_odr |weak_odr |weak |private )?', 'define weak ', m.group(1), count=1) + ' noinline' + m.group(2), text)
        text = re.sub(r'^(define weak .*?' + re.escape(t) + r'\(.*\)[^\n]*?) comdat(?:\([^)]*\))?', r'\1', text, flags=re.M)
    if '@vc_opaque_text' in text:
        text = re.sub(r'^(define .*?@_ZNSt7__cxx119to_stringE\w\(.*\)(?: (?:local_)?unnamed_addr)?)( .*\{)$', r'\1 noinline\2', text, flags=re.M)
    callgraph = build_callgraph(text)
    edited = base + '.in.ll'
    open(edited, 'w').write(text)
    out = base + '.ll'
    r = sh([OPT, '-S', '-passes=default<O2>', '-vectorize-loops=0', '-vectorize-slp=0', '-phi-node-folding-threshold=12',
            '-two-entry-phi-node-folding-threshold=24', '-inline-threshold=1000', '-unroll-threshold=2000', edited, '-o', out])
    if r.returncode != 0:
        raise CompileError('opt: ' + r.stderr[:3000])
    return out, table, callgraph


def build_callgraph(text):
    g = {}
    cur = None
    for ln in text.split('\n'):
        if ln.startswith('define '):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
            cur = m.group(1)
            g[cur] = set()
        elif ln == '}':
            cur = None
        elif cur is not None and '@' in ln:
            for m in re.findall(r'@([-a-zA-Z$._0-9]+)', ln):
                g[cur].add(m)
    return g


def reachable(g, root):
    seen = set()
    st = [root]
    while st:
        x = st.pop()
        if x in seen or x not in g:
            continue
        seen.add(x)
        st.extend(g[x])
    return seen


def demangle(names):
    names = sorted(names)
    if not names:
        return {}
    r = sh(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names) + '\n')
    return dict(zip(names, r.stdout.split('\n')))


def short_name(d):
    """drop template arguments and parameters"""
    out = []
    depth = 0
    d = d.replace('operator<', 'operator\x01').replace('operator>', 'operator\x02').replace('operator\x02>', 'operator\x02\x02')
    for ch in d:
        if ch in '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    s = ''.join(out)
    s = s.split('(')[0] if not s.startswith('(') else s
    s = s.split(' ')[-1]
    return s.replace('\x01', '<').replace('\x02', '>')


def compile_all(srcs, work):
    """one child process per contract file"""
    out = []
    procs = []
    for s in srcs:
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            try:
                try:
                    ll, table, g = to_ir(s, work)
                    msg = dict(ll=ll, table=table, g={k: sorted(v) for k, v in g.items()})
                except CompileError as e:
                    msg = dict(err=str(e))
                with os.fdopen(w, 'w') as f:
                    json.dump(msg, f)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((s, p, r))
    for s, p, r in procs:
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(p, 0)
        m = json.loads(txt) if txt else dict(err='compiler process died')
        if 'err' in m:
            out.append((s, None, m['err']))
        else:
            out.append((s, (m['ll'], {k: tuple(v) for k, v in m['table'].items()}, {k: set(v) for k, v in m['g'].items()}), None))
    return out


def par_map(fn, items, n):
    """forked map (results through JSON), at most n at a time, order kept"""
    out = [None] * len(items)
    run = []
    todo = list(enumerate(items))
    while todo or run:
        while todo and len(run) < n:
            i, it = todo.pop(0)
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                os.close(r)
                try:
                    with os.fdopen(w, 'w') as f:
                        json.dump(fn(it), f)
                except BaseException:
                    if os.environ.get('VC_DEBUG'):
                        traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            run.append((i, p, r))
        i, p, r = run.pop(0)
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(p, 0)
        try:
            out[i] = json.loads(txt)
        except ValueError:
            pass
    return out


def in_child(fn, seconds):
    """run fn() in a forked child, return its JSON result, or None where it fails or takes longer"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        try:
            with os.fdopen(w, 'w') as f:
                json.dump(fn(), f)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = ''
        if select.select([f], [], [], seconds)[0]:
            txt = f.read()
        else:
            os.kill(p, signal.SIGKILL)
    os.waitpid(p, 0)
    try:
        return json.loads(txt)
    except ValueError:
        return None


def confirm(llfile, table, proof, vals, ufseed, limit):
    """evaluate every obligation of the proof in 60-digit arithmetic at a failing native input; returns the names
    of the obligations that are false there (so a rounding artefact of the native run is not reported)"""
    import exe
    import prove
    key = (llfile, proof)
    if key not in _EXECUTED:
        lim = exe.Limits()
        lim.max_time = 120
        ex = exe.Executor(MODS[llfile], table, lim)
        try:
            ex.run(proof)
            _EXECUTED[key] = ex.obligations
        except Exception:
            _EXECUTED[key] = None
    if _EXECUTED[key] is None:
        return None
    return in_child(lambda: prove.false_at(_EXECUTED[key], vals, ufseed), max(1.0, limit - time.time()))


_EXECUTED = {}


# ---------------------------------------------------------------- one proof
def prove_one(args):
    (llfile, table, proof, cfg, sem) = args
    import exe
    import ir
    import prove
    import terms as tm
    t0 = time.time()
    res = dict(proof=proof, obligations=[], error=None, paths=0, notes=[], wrap=0, contracts=[], inputs={}, covers={},
               fn=[], exec_s=0)
    try:
        mod = MODS[llfile]
        lim = exe.Limits()
        lim.max_time = cfg['exec_s']
        ex = exe.Executor(mod, table, lim)
        err = None
        try:
            ex.run(proof)
        except exe.Unsupported as e:
            err = 'unsupported: ' + str(e)
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, SyntaxError, NotImplementedError, RecursionError) as e:
            err = 'vcgen: %s: %s' % (type(e).__name__, str(e)[:300])
            if cfg.get('trace'):
                traceback.print_exc()
        res['error'] = err
        res['paths'] = ex.paths
        res['notes'] = sorted(ex.assumption_notes)
        res['wrap'] = ex.wrap_assumed
        res['contracts'] = sorted(ex.contracts_used)
        res['inputs'] = {k: list(v) for k, v in ex.inputs.items()}
        res['exec_s'] = time.time() - t0
        res['feas_s'] = ex.feas.time
        # obligations, with definedness side conditions
        obs = []
        seen = set()
        dseen = set()
        for o in ex.obligations:
            if ex.assume_defined:
                extra = []
                for cond in o.pc + [o.goal]:
                    dc = prove.defined(cond)
                    extra += [c for c in (dc.args if dc.op == 'and' else (dc,)) if c is not tm.TRUE and c not in extra]
                o.pc = o.pc + [c for c in extra if c not in o.pc]
                key = (o.name, frozenset(x.id for x in o.pc), o.goal.id)
                if key in seen and o.goal is not tm.TRUE:
                    continue
                seen.add(key)
                obs.append((o, o.goal, o.eq, o.kind))
                continue
            pk = frozenset(x.id for x in o.pc)
            key = (o.name, pk, o.goal.id)
            if key in seen and o.goal is not tm.TRUE:
                continue
            seen.add(key)
            obs.append((o, o.goal, o.eq, o.kind))
            for k, cond in enumerate(o.pc):
                dc = prove.defined(cond)
                if dc is not tm.TRUE:
                    pre = o.pc[:k]
                    pk2 = frozenset(x.id for x in pre)
                    for c in (dc.args if dc.op == 'and' else (dc,)):
                        if c is not tm.TRUE and (pk2, c.id) not in dseen:
                            dseen.add((pk2, c.id))
                            o2 = exe.Obligation(o.proof, 'branch condition', pre, c, 'defined')
                            obs.append((o2, c, None, 'defined'))
            d = prove.defined(o.goal)
            for c in (d.args if d.op == 'and' else (d,)):
                if c is not tm.TRUE and (pk, c.id) not in dseen:
                    dseen.add((pk, c.id))
                    obs.append((o, c, None, 'defined'))
        jobs = list(range(len(obs)))
        out = [None] * len(obs)
        # trivial ones first
        rest = []
        for i in jobs:
            o, g, eq, kind = obs[i]
            if g is tm.TRUE:
                out[i] = ('proved', 'simplifier', 0.0, None, '')
            else:
                rest.append(i)
        if rest:
            nchunk = min(len(rest), cfg['jobs'])
            chunks = [rest[k::nchunk] for k in range(nchunk)]
            procs = []
            failed = mp.Value('d', 0.0)      # seconds spent on obligations that were not discharged
            for ch in chunks:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 0
                    try:
                        fo = os.fdopen(w, 'w')
                        for i in ch:
                            o, g, eq, kind = obs[i]
                            sem.acquire()
                            try:
                                c = dict(cfg)
                                if failed.value > cfg['give_up_s']:
                                    q = prove.Result('unknown', '-', 0.0, None, 'not tried after others of this contract failed')
                                elif time.time() > cfg['deadline']:
                                    q = prove.Result('unknown', '-', 0.0, None, 'property time budget exhausted')
                                else:
                                    t1 = time.time()
                                    q = prove.discharge(o.pc, g, eq, c)
                                    if q.status != 'proved':
                                        with failed.get_lock():
                                            failed.value += time.time() - t1
                            except Exception as e:
                                q = prove.Result('unknown', '-', 0.0, None, '%s: %s' % (type(e).__name__, str(e)[:200]))
                                if cfg.get('trace'):
                                    traceback.print_exc()
                            finally:
                                sem.release()
                            fo.write(json.dumps([i, [q.status, q.backend, q.time, q.model, q.note]]) + '\n')
                            fo.flush()
                        fo.close()
                    finally:
                        os._exit(code)
                os.close(w)
                procs.append((pid, r))
            for pid, r in procs:
                with os.fdopen(r) as fi:
                    for ln in fi:
                        i, q = json.loads(ln)
                        out[i] = tuple(q)
                os.waitpid(pid, 0)
        for i, (o, g, eq, kind) in enumerate(obs):
            q = out[i] or ('unknown', '-', 0.0, None, 'worker ended')
            desc = ''
            if q[0] != 'proved':
                desc = tm.show(g, 7)[:600]
            res['obligations'].append(dict(name=o.name, kind=kind, status=q[0], backend=q[1], time=q[2], model=q[3], note=q[4], goal=desc))
        # vacuity: at least one path reaches the end / each cover is satisfiable
        for name, pcs in ex.covers.items():
            st = 'unknown'
            import z3
            import smt
            for pc in pcs[:6]:
                p = prove.Purifier()
                cs = [p.go(c) for c in pc]
                s = z3.Solver()
                s.set('timeout', 3000)
                for c in cs + p.side:
                    s.add(smt.to_z3(c))
                r = s.check()
                if r == z3.sat:
                    st = 'sat'
                    break
                if r == z3.unsat and st == 'unknown':
                    st = 'unsat'
                elif r == z3.unknown:
                    st = 'unknown-feasible'
            res['covers'][name] = st
    except Exception as e:
        res['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        if cfg.get('trace'):
            traceback.print_exc()
    res['total_s'] = time.time() - t0
    return res


MODS = {}


os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:log_path=/dev/null:allocator_may_return_null=1:detect_stack_use_after_return=0'


def build_native(srcs, work, extra=()):
    """one executable per contract file (each has its own stand-ins), and a script `native` that picks the executable
    which has the proof; a file that does not build leaves the others usable"""
    out = os.path.join(work, 'native')
    base = ['g++', '-O1', '-DVC_NATIVE', '-ffp-contract=off', '-fsanitize=address,shift,integer-divide-by-zero,null,bounds,return',
            '-fsanitize-undefined-trap-on-error'] + COMMON + MPI + incs(work) + list(extra)
    driver = os.path.join(work, 'native_driver.o')
    r = sh(base + ['-c', os.path.join(VC, 'native.cpp'), '-o', driver])
    if r.returncode != 0:
        raise CompileError('native: ' + r.stderr[:3000])

    def one(src):
        exe = os.path.join(work, 'native_' + os.path.basename(src)[:-4])
        r = sh(base + [src, driver, '-o', exe, '-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lhdf5', '-lmpi', '-lpthread'])
        if r.returncode != 0:
            return src, None, r.stderr
        return src, exe, sh([exe, 'list']).stdout.split()

    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(one, srcs))
    bad = ['%s: %s' % (os.path.basename(s), e[:3000]) for s, x, e in built if not x]
    if len(bad) == len(built):
        raise CompileError('native: ' + '\n'.join(bad))
    with open(out, 'w') as f:
        f.write('#!/bin/sh\ncase "$2" in\n')
        for s, x, names in built:
            if x and names:
                f.write('%s) exec "%s" "$@" ;;\n' % ('|'.join(names), x))
        f.write('esac\necho "no native executable has the proof $2" >&2\n')
        for b in bad:
            f.write('# %s\n' % b.replace('\n', '\n# '))
        f.write('exit 2\n')
    os.chmod(out, 0o755)
    return out


def parse_native(txt):
    fails, vals, seed = [], [], None
    for ln in txt.split('\n'):
        p = ln.split('\t')
        if p[0] == 'FAIL':
            fails.append((p[1], p[2] if len(p) > 2 else ''))
        elif p[0] == 'VAL':
            vals.append((p[1], p[2]))
        elif p[0] == 'UFSEED':
            seed = p[1]
    return fails, vals, seed


def main():
    pid = sys.argv[1]
    only = None
    trace = False
    keep = False
    verbose = False
    for a in sys.argv[2:]:
        if a == '--trace':
            trace = True
        elif a == '--keep':
            keep = True
        elif a == '-v':
            verbose = True
        else:
            only = a
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VC_BUDGET', 420 if tier == 'quick' else 3000))
    cfg = dict(field_s=25 if tier == 'quick' else 120, z3_s=20 if tier == 'quick' else 120,
               exec_s=150 if tier == 'quick' else 900, give_up_s=300 if tier == 'quick' else 5000, jobs=8, deadline=t0 + budget, trace=trace)
    cdir = os.path.join(ROOT, 'contracts')
    srcs = sorted(os.path.join(cdir, f) for f in os.listdir(cdir)
                  if re.match(re.escape(pid) + r'[a-z_0-9]*\.cpp$', f))
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        rc = decide(pid, srcs, work, cfg, tier, seed, t0, only, verbose)
    finally:
        if keep:
            print('work dir', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings(pid):
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))['findings'] if k['property'] == pid]


def decide(pid, srcs, work, cfg, tier, seed, t0, only, verbose):
    import ir
    opts_header(work)
    print('property %s: %d contract file(s), tier %s' % (pid, len(srcs), tier), flush=True)
    compiled = []
    undecided = []
    broken = []
    outs = compile_all(srcs, work)
    jobs = []
    fnset = set()
    cg = {}
    for s, o, err in outs:
        if err:
            broken.append((s, err))
            continue
        ll, table, g = o
        compiled.append(s)
        cg.update(g)
        MODS[ll] = ir.Module(open(ll).read())
        for f in MODS[ll].functions:
            if f.startswith('@vc_proof_'):
                jobs.append((ll, table, f[len('@vc_proof_'):], s))
    if only:
        jobs = [j for j in jobs if re.fullmatch(only, j[2])]
    sampled = [j for j in jobs if j[2].startswith('sampled_')]
    jobs = [j for j in jobs if not j[2].startswith('sampled_')]
    sem = mp.Semaphore(8)
    t_compile = time.time() - t0
    results = []
    procs = []
    # one process per proof; the global semaphore bounds concurrent solver work
    slots = 8
    pending = list(jobs)
    running = []
    while pending or running:
        while pending and len(running) < slots:
            ll, table, pr, s = pending.pop(0)
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                os.close(r)
                try:
                    res = prove_one((ll, table, pr, cfg, sem))
                    res['src'] = s
                    with os.fdopen(w, 'w') as f:
                        json.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            running.append((p, r, pr, s))
        p, r, pr, s = running.pop(0)
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(p, 0)
        if txt:
            res = json.loads(txt)
        else:
            res = dict(proof=pr, obligations=[], error='worker died', paths=0, notes=[], wrap=0, contracts=[], inputs={},
                       covers={}, exec_s=0, src=s, total_s=0)
        results.append(res)
        if verbose:
            bad = [o for o in res['obligations'] if o['status'] != 'proved']
            print('  %-44s %3d obl %3d bad  paths %d  %.1fs %s' % (
                pr, len(res['obligations']), len(bad), res['paths'], res.get('total_s', 0), res['error'] or ''), flush=True)
            for o in bad:
                print('      ', o['status'], o['name'], o['kind'], o['backend'], '%.1fs' % o['time'], o['note'])
                print('         goal', o['goal'][:300])
                if o['model']:
                    print('         model', {k: v for k, v in list(o['model'].items())[:30] if not k.startswith('!')})
    # ------------------------------------------------------------ triage
    violations = []
    native = None
    nerr = None
    searched = {}
    unb = [r for r in results if not r['proof'].startswith('bounded_')]
    bnd = [r for r in results if r['proof'].startswith('bounded_')]
    total = sum(len(r['obligations']) for r in unb)
    proved = sum(1 for r in unb for o in r['obligations'] if o['status'] == 'proved')
    bad_proofs = []
    for r in results:
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        vac = None
        if not r['error'] and r['covers'].get('#end') == 'unsat':
            vac = 'no path reaches the end of the contract (vacuous precondition)'
        if not r['error'] and '#end' not in r['covers'] and not bad:
            vac = 'no path reaches the end of the contract'
        for k, v in r['covers'].items():
            if k != '#end' and v == 'unsat':
                vac = 'cover point %s is unreachable' % k
        if not r['error'] and not r['obligations']:
            vac = 'contract generated no obligation'
        r['vacuous'] = vac
        if bad or r['error'] or vac:
            bad_proofs.append((r, bad))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    if bad_proofs or sampled:
        try:
            need = set(r['src'] for r, _ in bad_proofs) | set(j[3] for j in sampled)
            native = build_native([c for c in compiled if c in need], work)
        except CompileError as e:
            nerr = str(e)
    search_s = 12.0 if tier == 'quick' else 60.0
    n_bad = max(1, len(bad_proofs))
    search_s = max(4.0, min(search_s, 160.0 / n_bad * 4)) if tier == 'quick' else search_s
    kf = known_findings(pid)
    kf_hit = set()
    limit = time.time() + (260 if tier == 'quick' else 3000)
    if tier == 'quick':
        limit = min(limit, t0 + 780)

    def left(seconds):
        return max(0.0, min(seconds, limit - time.time()))

    def handle(rb):
        r, bad = rb
        out = dict(found=None, how=None, searched=None, rounding=0)
        if not native:
            return out
        llf, tab = next((j[0], j[1]) for j in jobs if j[2] == r['proof'])

        def accept(txt, how):
            """a native failure counts only if the obligation is also false there in 60-digit arithmetic"""
            if not r['error'] and not r['proof'].startswith('inductive_'):
                _, vals, us = parse_native(txt)
                if left(1) < 1:
                    out['rounding'] += 1
                    return False
                bad_at = confirm(llf, tab, r['proof'], {k: float(v) for k, v in vals}, int(us or 1), limit)
                if bad_at is not None and not bad_at and 'memory-safety' not in txt and 'no-exception' not in txt:
                    out['rounding'] += 1
                    return False
            out['found'] = txt
            out['how'] = how
            return True

        # 1. replay solver models on the compiled code
        for o in bad:
            if o['model'] is None or left(1) < 1:
                continue
            fn = os.path.join(work, 'm_%s_%d.txt' % (r['proof'], os.getpid()))
            with open(fn, 'w') as f:
                for k, v in o['model'].items():
                    if k.startswith('!') or k == 'pi':
                        continue
                    f.write('VAL\t%s\t%.17g\n' % (k, float(v)))
                f.write('UFSEED\t1\n')
            try:
                q = sh([native, 'run', r['proof'], fn], timeout=left(90))
                if q.returncode == 1 and 'FAIL' in q.stdout:
                    if accept(q.stdout, "solver counterexample for '%s' replayed on the compiled code" % o['name']):
                        return out
            except subprocess.TimeoutExpired:
                pass
        # 2. contract-directed search on the compiled code
        for k, tol in enumerate(('1e-4', '1e-3', '1e-6')):
            if left(5) < 5:
                break
            try:
                q = sh([native, 'search', r['proof'], str(seed + k), str(left(search_s)), tol], timeout=left(search_s + 60))
            except subprocess.TimeoutExpired:
                continue
            if q.returncode == 1 and 'FAIL' in q.stdout:
                if accept(q.stdout, 'failing input found by sampling the quantified inputs of the contract on the compiled code'):
                    return out
            else:
                out['searched'] = q.stdout.strip().split('\t')[1:]
                if k == 0 and r['error']:
                    continue
        return out

    handled = par_map(handle, bad_proofs, 8)
    for (r, bad), h in zip(bad_proofs, handled):
        h = h or dict(found=None, how=None, searched=None, rounding=0)
        rp = os.path.join('evidence', 'replay', '%s_%s.txt' % (pid, r['proof']))
        if h['searched']:
            searched[r['proof']] = h['searched']
        if h['found']:
            fails, vals, us = parse_native(h['found'])
            violations.append(dict(proof=r['proof'], obligation=fails[0][0], detail=fails[0][1], replay=rp, how=h['how'], failing=True,
                                   names=[x[0] for x in fails]))
        else:
            what = []
            if r['vacuous']:
                what.append(('not-vacuous', r['vacuous']))
            if r['error']:
                what.append(('within-reach', r['error']))
            for o in bad:
                what.append((o['name'], '%s by %s: %s' % (o['status'], o['backend'], o['note'])))
            violations.append(dict(proof=r['proof'], obligation=what[0][0], detail=what[0][1][:300], replay=rp,
                                   how='obligation not discharged; no failing input found natively', failing=False,
                                   names=[w[0] for w in what]))
            undecided.extend(('%s/%s' % (r['proof'], w[0]), w[1]) for w in what)
        with open(os.path.join(ROOT, rp), 'w') as f:
            v = violations[-1]
            f.write('property %s, contract %s (%s)\n' % (pid, r['proof'], os.path.basename(r['src'])))
            f.write('failed obligation: %s: %s\n%s\n' % (v['obligation'], v['detail'], v['how']))
            if h['found']:
                f.write('replay with: vc/replay.sh %s %s\n' % (pid, r['proof']))
                f.write(h['found'])
            else:
                f.write('no-failing-input-found: native search %s; %d native failures were rounding artefacts; %s\n' % (
                    h['searched'], h['rounding'], nerr or ''))
            for o in bad:
                f.write('\nverifier: obligation %s [%s] %s by %s: %s\n  goal: %s\n' % (
                    o['name'], o['kind'], o['status'], o['backend'], o['note'], o['goal']))
                if o['model']:
                    f.write('  model: %s\n' % json.dumps({k: v for k, v in o['model'].items() if not k.startswith('!')}))
    # bounded stand-ins: contracts evaluated on sampled inputs of the compiled code, never counted as proved
    samples = {}
    count = 4000 if tier == 'quick' else 200000

    def run_sample(j):
        try:
            q = sh([native, 'sample', j[2], str(seed), str(count), '1e-7'], timeout=120 if tier == 'quick' else 1500)
            return q.returncode, q.stdout
        except subprocess.TimeoutExpired:
            return 4, 'timeout'
    if sampled and not native:
        broken.append((sampled[0][3], nerr or 'native build failed'))
    elif sampled:
        for j, (rc, txt) in zip(sampled, par_map(run_sample, sampled, 8)):
            rp = os.path.join('evidence', 'replay', '%s_%s.txt' % (pid, j[2]))
            samples[j[2]] = txt.strip().split('\n')[0].split('\t')
            if rc == 0:
                continue
            if rc == 1 and 'FAIL' in txt:
                fails, vals, us = parse_native(txt)
                v = dict(proof=j[2], obligation=fails[0][0], detail=fails[0][1], replay=rp, failing=True, names=[x[0] for x in fails],
                         how='bounded stand-in: failing input found by sampling the contract on the compiled code')
            else:
                v = dict(proof=j[2], obligation='sampled', detail='native run ended with %s %s' % (rc, txt[:200]), replay=rp, failing=False,
                         names=['sampled'], how='bounded stand-in gave no answer')
                undecided.append((j[2], v['detail']))
            violations.append(v)
            with open(os.path.join(ROOT, rp), 'w') as f:
                f.write('property %s, contract %s (%s)\nfailed obligation: %s: %s\n%s\nreplay with: vc/replay.sh %s %s\n%s' % (
                    pid, j[2], os.path.basename(j[3]), v['obligation'], v['detail'], v['how'], pid, j[2], txt))
    for src, e in broken:
        rp = os.path.join('evidence', 'replay', '%s_%s.txt' % (pid, os.path.basename(src)))
        violations.append(dict(proof=os.path.basename(src), obligation='contract-file', detail=e[:300], replay=rp,
                               how='the contract file does not compile against the current tree', failing=False, names=['contract-file']))
        undecided.append((os.path.basename(src), e[:1500]))
        with open(os.path.join(ROOT, rp), 'w') as f:
            f.write('property %s: contract file %s does not compile against the current tree\n%s\n' % (pid, src, e))
    # known findings
    final = []
    for v in violations:
        k = next((k for k in kf if k.get('proof') == v['proof'] and k.get('status') == 'open' and
                  set(v['names']) <= set(k['obligations'])), None)
        if k:
            kf_hit.add(k['what'])
        else:
            final.append(v)
    # ------------------------------------------------------------ evidence
    names = set()
    for r in results:
        names |= reachable(cg, 'vc_proof_' + r['proof'])
    dm = demangle([n for n in names if n.startswith('_Z')])
    fns = sorted({short_name(d) for d in dm.values() if re.match(r'^(auto |decltype\(auto\) |[\w:<>, ]* )?(mara|nd|binary)::', short_name(d)) or
                  short_name(d).startswith(('mara::', 'nd::', 'binary::'))})
    fns = [f for f in fns if '{lambda' not in f and 'vc_' not in f]
    backends = {}
    stime = 0.0
    for r in unb:
        for o in r['obligations']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            stime += o['time']
    notes = sorted({n for r in results for n in r['notes']})
    assumptions = ['double arithmetic is read as exact real arithmetic (rounding, overflow, signed zero and NaN payloads not modelled); '
                   'decimal literals are read as the decimal number they denote',
                   'libm calls other than sqrt/fabs/floor/ceil/trunc/round/min/max/copysign/integer powers are uninterpreted functions with sign, range and monotonicity axioms',
                   'clang 18 and its optimiser preserve the semantics of the source when producing the verified IR',
                   'the VC generator (vc/exe.py), the field normaliser (vc/field.py), z3 %s and cvc5 are trusted' % zver()] + notes
    wraps = sum(r['wrap'] for r in results)
    if wraps:
        assumptions.append('%d integer operations treated as mathematical (no 64-bit wrap-around) because their range is not bounded by the contract' % wraps)
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=total, discharged=proved, checker_cmd='python3-vt vc/run.py %s' % pid,
                            trusted_base=['clang++-18 -O2 front end and optimiser', 'vc/ir.py, vc/exe.py, vc/terms.py (VC generation)',
                                          'vc/field.py (exact polynomial arithmetic)', 'z3 ' + zver(), 'cvc5 1.1.2'],
                            bounded={**{r['proof']: 'bounded (finite case split, sizes in the contract): %d obligations, %d discharged' % (
                                len(r['obligations']), sum(1 for o in r['obligations'] if o['status'] == 'proved')) for r in bnd},
                                **{k: 'bounded (sampled on the compiled code; tried, inside the precondition, assertions): %s' % v
                                   for k, v in samples.items()}},
                            contracts=len(unb), contracts_proved=sum(1 for r in unb if not r['error'] and not r['vacuous'] and
                                                                         all(o['status'] == 'proved' for o in r['obligations'])),
                            backends=backends, solver_time_s=round(stime, 2), paths=sum(r['paths'] for r in results),
                            functions_under_contract=fns, callee_contracts_used=sorted({c for r in results for c in r['contracts']}),
                            undecided=[list(u) for u in undecided][:60], native_search=searched,
                            per_contract={r['proof']: dict(obligations=len(r['obligations']),
                                                           discharged=sum(1 for o in r['obligations'] if o['status'] == 'proved'),
                                                           paths=r['paths'], seconds=round(r.get('total_s', 0), 2),
                                                           covers=r['covers'], error=r['error']) for r in results},
                            compile_s=round(t_compile, 2)),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(final))
    if not only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('obligations %d, discharged %d, contracts %d, backends %s, bounded %d+%d, %.1f s' % (
        total, proved, len(unb), backends, len(bnd), len(sampled), time.time() - t0))
    if verbose and samples:
        print('sampled', samples)
    for u in undecided:
        print('UNDECIDED %s: %s' % (u[0], u[1][:500]))
    for k in sorted(kf_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for v in final:
        print('failed obligation %s/%s: %s (%s)' % (v['proof'], v['obligation'], v['detail'], v['how']))
    if final:
        v = sorted(final, key=lambda v: not v['failing'])[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, v['replay'], '' if v['failing'] else ' no-failing-input-found'))
        return 1
    return 0


def zver():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    import multiprocessing.pool
    main()
