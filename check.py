#!/usr/bin/env python3-vt
"""Decide one property:  check.py Cxx  [--verbose]

 1. compile the current /repo sources to LLVM IR, generate the proof
    obligations of the property's contracts and discharge them;
 2. build the property's replay harness against the same sources and run the
    executable form of the contracts (bounded: it supplies failing inputs, and
    is the stand-in where a function is out of the verifier's reach).
"""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
sys.path[:0] = [V + '/vc', V + '/contracts']
os.environ['PATH'] = '/usr/lib/llvm-18/bin:/opt/veriftools/bin:/usr/local/bin:/usr/bin:/bin:' + os.environ.get('PATH', '')
for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPATH'):
    os.environ.pop(k, None)

import ir, sym, stl, prove       # noqa
import z3                        # noqa

CLANG = '/usr/lib/llvm-18/bin/clang'
IRFLAGS = ['-S', '-emit-llvm', '-O0', '-g', '-fstandalone-debug', '-DNDEBUG',
           '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-w']


def compile_ir(unit, out):
    """unit: path relative to /repo/src, or 'unit:<name>' for /verif/units/<name>
    (a file that only includes /repo headers and instantiates their templates)"""
    src = V + '/units/' + unit[5:] if unit.startswith('unit:') else SRC + '/' + unit
    cc = [CLANG] if src.endswith('.c') else [CLANG + '++', '-std=gnu++11']
    p = subprocess.run(cc + IRFLAGS + ['-I' + SRC, '-I' + V + '/units', src, '-o', out],
                       capture_output=True, text=True)
    return p.returncode, p.stderr


class Result:
    def __init__(self):
        self.functions = []      # dict per function
        self.failed = []         # obligations
        self.undecided = []      # (function, reason)
        self.nobl = self.ndis = 0
        self.backends = {}
        self.solver_s = 0.0
        self.assumed, self.trusted, self.inlined = set(), set(), set()
        self.vacuous = []


def verify(prop, tier, tmp, verbose=False, hfail=None):
    R = Result()
    units = {}
    for s in prop.SPECS:
        units.setdefault(s.unit, []).append(s)
    with ThreadPoolExecutor(8) as ex:
        comp = dict(zip(units, ex.map(
            lambda u: compile_ir(u, '%s/%s.ll' % (tmp, re.sub(r'\W', '_', u))), units)))
    base = {}
    try:
        base = json.load(open(V + '/vc/locals.json'))
    except OSError:
        pass
    timeout = getattr(prop, 'TIMEOUT', 6) * (2 if tier == 'thorough' else 1)
    allobl, covers, owners = [], [], []
    axioms = []
    for u, specs in units.items():
        rc, err = comp[u]
        if rc:
            for s in specs:
                R.undecided.append((s.fn, 'unit %s does not compile to IR: %s' % (u, err[-300:])))
            continue
        try:
            M = ir.parse_module('%s/%s.ll' % (tmp, re.sub(r'\W', '_', u)))
        except Exception as e:
            for s in specs:
                R.undecided.append((s.fn, 'IR of %s not parsed: %r' % (u, e)))
            continue
        table = {s.fn: s for s in sorted(getattr(prop, 'CONTRACTS', prop.SPECS), key=lambda s: s.modular)}
        for s in prop.SPECS:
            table.setdefault(s.fn, s)
        for s in specs:
            if s.trusted:
                R.trusted.add(s.fn)
                continue
            t0 = time.time()
            eng = sym.Engine(M, {k: v for k, v in table.items() if v is not s or s.modular}, stl.Stl())
            eng.locals_base = base
            eng.blob_scalar = None
            eng.structhint = {}
            if hasattr(prop, 'configure'):
                prop.configure(eng, s)
            try:
                nret, nexit = eng.verify(s)
                if not eng.obls:
                    raise ir.Unsupported('no obligations generated')
            except ir.Unsupported as e:
                R.undecided.append((s.name or s.fn, str(e)))
                R.functions.append(dict(function=s.name or s.fn, status='undecided', reason=str(e)))
                continue
            except RecursionError:
                R.undecided.append((s.name or s.fn, 'recursion limit'))
                R.functions.append(dict(function=s.name or s.fn, status='undecided', reason='recursion'))
                continue
            except Exception as e:
                if verbose:
                    import traceback
                    traceback.print_exc()
                R.undecided.append((s.name or s.fn, 'extraction error %r' % (e,)))
                R.functions.append(dict(function=s.name or s.fn, status='undecided', reason=repr(e)))
                continue
            gen = time.time() - t0
            rec = dict(function=s.name or s.fn, unit=u, paths=nret, exit_paths=nexit,
                       obligations=len(eng.obls), generation_s=round(gen, 2),
                       noreturn=getattr(s, 'noreturn', False))
            for o in eng.obls:
                o.timeout = s.timeout or timeout
                o.rec = rec
                o.axioms = eng.axioms
            allobl += eng.obls
            for a in eng.axioms:
                if not any(a.eq(b) for b in axioms):
                    axioms.append(a)
            covers.append((rec, eng.entry_pc, eng.covers))
            R.functions.append(rec)
            R.assumed |= eng.assumed
            R.inlined |= eng.inlined
            rec['contracts_used'] = sorted(eng.used_contracts)
    prove.discharge(allobl, axioms)
    # a second, longer and less loaded attempt before anything is called failed
    for rnd in (1, 2):
        retry = [o for o in allobl if o.result == 'unknown']
        if 0 < len(retry) <= (16, 6)[rnd - 1] and not (prove.T_END and time.time() > prove.T_END) and not (hfail and hfail()):
            for o in retry:
                o.result = None
                o.timeout = o.timeout * 2
                o.round = rnd
            prove.discharge(retry, axioms, jobs=(8, 4)[rnd - 1])
    # vacuity: entry and at least one return path must be satisfiable
    cl = []
    for rec, e, cs in covers:
        cl.append(e)
        cl += cs[:6]
    res = iter(prove.covers(cl, axioms)) if cl else iter([])
    for rec, e, cs in covers:
        r = next(res)
        rs = [next(res) for _ in cs[:6]]
        rec['entry_cover'] = r
        if r == 'unsat' or (all(x == 'unsat' for x in rs) and not rec.get('noreturn')):
            R.vacuous.append(rec['function'])
    for o in allobl:
        R.nobl += 1
        R.solver_s += o.time
        if o.result == 'proved':
            R.ndis += 1
            R.backends[o.solver] = R.backends.get(o.solver, 0) + 1
        else:
            R.failed.append(o)
            o.rec.setdefault('failed', []).append(o.name)
        if verbose:
            print('  %-8s %-5s %5.2fs %s' % (o.result, getattr(o, 'solver', ''), o.time, o.name))
    for r in R.functions:
        if 'status' not in r:
            r['status'] = 'failed' if 'failed' in r else 'proved'
    return R


def build_harness(prop, tmp):
    h = V + '/harness/' + prop.HARNESS
    flags = ['-O1', '-g', '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-I' + SRC, '-I' + V + '/harness'] + getattr(prop, 'HFLAGS', [])
    srcs = sorted(f for f in os.listdir(SRC) if f.endswith(('.c', '.cc')))
    objs = []

    def one(a):
        src, obj = a
        cc = ['/usr/bin/gcc'] if src.endswith('.c') else ['/usr/bin/g++', '-std=gnu++11']
        p = subprocess.run(cc + flags + ['-c', src, '-o', obj], capture_output=True, text=True)
        return p.returncode, p.stderr
    jobs = [(SRC + '/' + s, '%s/%s.o' % (tmp, s)) for s in srcs] + [(h, tmp + '/harness.o')]
    with ThreadPoolExecutor(8) as ex:
        for (s, o), (rc, err) in zip(jobs, ex.map(one, jobs)):
            if rc:
                return None, '%s: %s' % (s, err[-1500:])
            objs.append(o)
    exe = tmp + '/harness'
    p = subprocess.run(['/usr/bin/g++'] + objs + ['-o', exe, '-lm'] + getattr(prop, 'HFLAGS', []), capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-1500:]
    return exe, None


def run_harness(prop, exe, tmp, seed, tier):
    wd = tmp + '/scratch'
    os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0')
    lim = 600 if tier == 'thorough' else 200
    try:
        p = subprocess.run([exe], cwd=wd, env=env, capture_output=True, timeout=lim,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('latin-1')
        return 'timeout', out, {}
    out = p.stdout.decode('latin-1')
    stats = {}
    for m in re.finditer(r'^STAT (\S+) (\S+)$', out, re.M):
        stats[m.group(1)] = int(m.group(2))
    stats['samples'] = re.findall(r'^SAMPLE (.*)$', out, re.M)[:5]
    if p.returncode == 0 and re.search(r'^DONE', out, re.M):
        return 'pass', out, stats
    return 'fail', out + '\n(exit status %d)\n' % p.returncode + p.stderr.decode('latin-1')[-2000:], stats


def known(pid):
    out = []
    try:
        for line in open(V + '/known_findings.txt'):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    verbose = '--verbose' in sys.argv
    noharness = '--no-harness' in sys.argv
    noproof = '--no-proof' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    prove.T_END = t0 + (400 if tier == 'quick' else 3000)
    sys.setrecursionlimit(20000)
    prop = importlib.import_module(pid.lower())
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        hx = ThreadPoolExecutor(1)
        fut = None
        if prop.HARNESS and not noharness:
            os.makedirs(tmp + '/h')

            def whole():
                exe, err = build_harness(prop, tmp + '/h')
                if exe is None:
                    return 'nobuild', err, {}
                r = run_harness(prop, exe, tmp + '/h', seed, tier)
                if r[0] == 'fail':
                    prove.HURRY.value = 1
                return r
            fut = hx.submit(whole)
        if noproof:
            R = Result()
        else:
            R = verify(prop, tier, tmp, verbose,
                       (lambda: fut.result()[0] == 'fail') if fut else None)
        hstat, hout, hst = fut.result() if fut else ('none', '', {})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    replay = '%s/evidence/replay-%s.txt' % (V, pid)
    if os.path.exists(replay):
        os.unlink(replay)
    lines, viol = [], 0
    if hstat == 'fail':
        viol = 1
    elif R.failed or R.vacuous:
        viol = 1
    elif hstat == 'timeout':
        viol = 0
    if verbose:
        print('harness:', hstat, hout[-3000:] if hstat != 'pass' else hst)
        for f, why in R.undecided:
            print('UNDECIDED', f, why)
        for f in R.vacuous:
            print('VACUOUS', f)
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s  seed=%d tier=%s\n\n' % (pid, seed, tier))
            if R.failed:
                f.write('FAILED OBLIGATIONS (%d of %d)\n' % (len(R.failed), R.nobl))
                for o in R.failed[:40]:
                    f.write('  [%s] %s\n' % (o.result, o.name))
                for o in R.failed[:4]:
                    f.write('\n--- %s\n%s\ngoal: %s\n' % (o.name, o.detail, str(o.goal)[:3000]))
            for x in R.vacuous:
                f.write('VACUOUS contract: %s\n' % x)
            if hstat == 'fail':
                f.write('\nFAILING INPUT (replay: harness/%s built against %s/src, VERIF_SEED=%d VERIF_TIER=%s)\n%s\n'
                        % (prop.HARNESS, REPO, seed, tier, hout[-8000:]))
            else:
                f.write('\nThe replay harness found no failing input.\n')
    hx.shutdown()
    level = getattr(prop, 'LEVEL', 'proof')
    cov = dict(obligations=R.nobl, discharged=R.ndis,
               checker_cmd='VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s' % (seed, tier, pid),
               trusted_base=sorted(['clang 18 front end (C++ to LLVM IR)', 'vc/ (VC generator)', 'z3 / cvc5'] +
                                   ['assumed library contract: ' + a for a in R.assumed] +
                                   ['assumed contract: ' + a for a in R.trusted]),
               functions_under_contract=R.functions,
               functions_inlined=sorted(R.inlined),
               backends=R.backends, solver_s=round(R.solver_s, 2),
               undecided=[dict(function=f, reason=w) for f, w in R.undecided],
               bounded=dict(note='replay / stand-in harness on the real code; bounded, not counted as proved',
                            harness=prop.HARNESS, result=hstat, scope=getattr(prop, 'BOUNDED', ''),
                            functions=getattr(prop, 'BOUNDED_FUNCTIONS', []),
                            **{k: v for k, v in hst.items()}))
    if 'cases' in hst:
        cov['evaluations'] = hst['cases']
        cov['distinct_nontrivial'] = hst.get('nontrivial', hst['cases'])
        cov['rule'] = getattr(prop, 'BOUNDED', 'random and exhaustive small cases')
        cov['samples'] = hst.get('samples', [])
    if level == 'other':
        cov['explanation'] = getattr(prop, 'EXPLANATION', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(prop, 'ASSUMPTIONS', []) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=viol)
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d/%d obligations discharged over %d functions (%s); undecided %d; harness %s %s; %.1fs'
          % (pid, R.ndis, R.nobl, len(R.functions), R.backends, len(R.undecided), hstat,
             hst.get('cases', ''), time.time() - t0))
    for f, w in R.undecided:
        print('  undecided: %s (%s)' % (f, w))
    if viol:
        print('VIOLATION property=%s replay=%s%s'
              % (pid, replay, '' if hstat == 'fail' else ' no-failing-input-found'))
        return 1
    if hstat in ('nobuild', 'timeout') and (R.undecided or not R.nobl):
        print('no answer: harness %s: %s' % (hstat, hout[-600:]))
        return 2
    return 0


COMMON = [
    'integers are mathematical: signed overflow and allocation failure are assumed not to happen',
    'floating point is treated as real arithmetic in the proofs (no rounding, no NaN)',
    'distinct pointers reach disjoint memory, except where a contract says otherwise',
    'termination is not proved (partial correctness)',
    'exception propagation is not followed past the throw',
]

if __name__ == '__main__':
    sys.exit(main())
