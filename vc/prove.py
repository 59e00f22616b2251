"""Discharging obligations: z3 (python API), then z3 4.8 / cvc5 on SMT-LIB."""
import os, subprocess, tempfile, time, multiprocessing
import multiprocessing.connection as mpc
import z3


_sk = [0]


def touch(t):
    return z3.Function('touch_%s' % t.sort().name(), t.sort(), z3.BoolSort())(t) \
        if t.sort().kind() != z3.Z3_ARRAY_SORT else None


def split(goal, hyps=()):
    """goal -> [(extra hypotheses, goal)]: conjunctions are split, universal
    quantifiers skolemised; the trigger terms of a skolemised quantifier are
    kept visible to the solver through a dummy predicate"""
    if z3.is_and(goal):
        out = []
        for g in goal.children():
            out += split(g, hyps)
        return out
    if z3.is_implies(goal):
        return split(goal.arg(1), tuple(hyps) + (goal.arg(0),))
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = []
        for i in range(goal.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const('sk!%s!%d' % (goal.var_name(i), _sk[0]), goal.var_sort(i)))
        vs = vs[::-1]
        extra = []
        for i in range(goal.num_patterns()):
            for t in goal.pattern(i).children():
                x = touch(z3.substitute_vars(t, *vs))
                if x is not None:
                    extra.append(x)
        return split(z3.substitute_vars(goal.body(), *vs), tuple(hyps) + tuple(extra))
    return [(list(hyps), goal)]


def _smt2(pc, goal, axioms):
    s = z3.Solver()
    for a in axioms:
        s.add(a)
    for e in pc:
        s.add(e)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _try_z3(pc, goal, axioms, tmo, tactic=None, seed=0):
    s = z3.Solver()
    s.set('timeout', int(tmo * 1000))
    if seed:
        s.set('random_seed', seed)
    if tactic in ('nomodel', 'plain', 'track'):
        s.set('smt.mbqi', False)
    if tactic in ('plain', 'track'):
        s.set('auto_config', False)
    if tactic == 'track':      # assertions kept apart: other preprocessing, other instantiation order
        s.set('unsat_core', True)
        for i, e in enumerate(list(axioms) + list(pc)):
            s.assert_and_track(e, 'h?%d' % i)
    else:
        for a in axioms:
            s.add(a)
        for e in pc:
            s.add(e)
    s.add(z3.Not(goal))
    r = s.check()
    m = None
    if r == z3.sat:
        try:
            m = str(s.model())[:4000]
        except Exception:
            m = None
    return str(r), m


def _ext(cmd, text, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        n = f.name
    try:
        p = subprocess.run(cmd + [n], capture_output=True, text=True, timeout=tmo + 2)
        return p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'timeout'
    except Exception as e:
        return 'error %s' % e
    finally:
        os.unlink(n)


_OBS = None
_AX = None
T_END = None     # no deep attempts after this time
HURRY = multiprocessing.Value('b', 0)     # a failing input is known: no deep attempts either


def _one(pc, goal, ax, tmo, rnd=0):
    # short attempts with different seeds: instantiation order matters more than time
    seeds = [(0, 1), (2, 1), (3, 1), (7, 2), (9, 4), (5, 1), (11, 1), None, (0, tmo / 2.0), (23, 1), (41, 1), (58, tmo / 2.0)]
    if HURRY.value or T_END and time.time() > T_END:
        seeds = seeds[:2]        # out of time: no deep attempts any more
        tmo = 1
    text = None
    for at in seeds:
        if at is None:
            text = _smt2(pc, goal, ax)
            if _ext(['cvc5', '--tlimit=3000'], text, 3) == 'unsat':
                return 'proved', 'cvc5', None
            continue
        r, m = _try_z3(pc, goal, ax, min(at[1] * (1 + 2 * rnd), max(at[1], 20)), 'track' if at[0] in (9, 58) else 'plain' if at[0] in (2, 7, 41) else 'nomodel', at[0] + 100 * rnd)
        if r == 'unsat':
            return 'proved', 'z3', None
    r, m = _try_z3(pc, goal, ax, tmo)
    if r == 'unsat':
        return 'proved', 'z3', None
    if r == 'sat':
        return 'failed', 'z3', 'counterexample to the obligation:\n' + (m or '')
    text = text or _smt2(pc, goal, ax)
    r = _ext(['cvc5', '--tlimit=%d' % int(tmo * 1000)], text, tmo)
    if r == 'unsat':
        return 'proved', 'cvc5', None
    if r == 'sat':
        return 'failed', 'cvc5', 'cvc5: sat'
    return 'unknown', 'z3+cvc5', 'z3: unknown/timeout, cvc5: %s' % r


def _work(i):
    o = _OBS[i]
    ax = _AX
    t0 = time.time()
    try:
        sol = 'z3'
        have = {}
        for e in o.pc:
            have.setdefault(e.hash(), []).append(e)

        def known(g):
            return any(g.eq(e) for e in have.get(g.hash(), ()))
        parts, todo = [], [((), o.goal)]
        while todo:
            hy, g = todo.pop()
            if known(g):
                continue
            if z3.is_and(g):
                todo += [(hy, x) for x in g.children()]
            elif z3.is_implies(g):
                todo.append((hy + (g.arg(0),), g.arg(1)))
            else:
                parts += [(list(hy) + h2, g2) for h2, g2 in split(g)]
        for hyps, g in parts:
            r, s, d = _one(list(o.pc) + hyps, g, ax, o.timeout, getattr(o, 'round', 0))
            if r != 'proved':
                return i, r, s, time.time() - t0, '%s\npart: %s' % (d, str(g)[:1500])
            if s != 'z3':
                sol = s
        return i, 'proved', sol, time.time() - t0, None
    except Exception as e:
        return i, 'unknown', 'error', time.time() - t0, repr(e)[:500]


def _cov(i):
    pc = _OBS[i]
    s = z3.Solver()
    s.set('timeout', 3000)
    for a in _AX:
        s.add(a)
    for e in pc:
        s.add(e)
    return str(s.check())


def _loop(fn, conn):
    while True:
        i = conn.recv()
        if i is None:
            return
        conn.send(fn(i))


def pmap(fn, n, jobs, limit, lost):
    """fn(0..n-1) in forked workers, in any order. A worker that dies (solver crash) or exceeds
    the limit is replaced; its item is tried once more and then reported as lost(i, why)."""
    ctx = multiprocessing.get_context('fork')
    todo = [(i, 0) for i in reversed(range(n))]
    run = {}

    def start():
        a, b = ctx.Pipe()
        w = ctx.Process(target=_loop, args=(fn, b), daemon=True)
        w.start()
        b.close()
        run[a] = [w, None, 0]

    def stop(a):
        w = run.pop(a)[0]
        a.close()
        if w.is_alive():
            w.kill()
        w.join()

    for _ in range(min(jobs, n)):
        start()
    left = n
    try:
        while left:
            for a, r in list(run.items()):
                if r[1] is None and todo:
                    r[1] = todo.pop()
                    r[2] = time.time()
                    a.send(r[1][0])
            busy = [a for a, r in run.items() if r[1] is not None]
            ready = mpc.wait(busy, timeout=2)
            for a in busy:
                item = run[a][1]
                why = None
                if a in ready:
                    try:
                        v = a.recv()
                        run[a][1] = None
                        left -= 1
                        yield v
                        continue
                    except (EOFError, OSError):
                        why = 'worker died'
                elif time.time() - run[a][2] > limit:
                    why = 'worker exceeded %d s' % limit
                else:
                    continue
                stop(a)
                start()
                if item[1] < 1 and why == 'worker died':
                    todo.append((item[0], item[1] + 1))
                else:
                    left -= 1
                    yield lost(item[0], why)
    finally:
        for a in list(run):
            stop(a)


def covers(lists, axioms, jobs=8):
    global _OBS, _AX
    _OBS, _AX = lists, axioms
    r = [None] * len(lists)
    for i, v in pmap(_covi, len(lists), jobs, 60, lambda i, why: (i, 'unknown')):
        r[i] = v
    return r


def _covi(i):
    return i, _cov(i)


def discharge(obls, axioms, timeout=10, jobs=8):
    """sets result/solver/time/detail on each obligation"""
    global _OBS, _AX
    todo = [o for o in obls if o.result is None]
    # structurally identical obligations are discharged once
    seen = {}
    uniq = []
    for o in todo:
        key = (o.goal.get_id(), tuple(e.get_id() for e in o.pc))
        if key in seen:
            seen[key].append(o)
        else:
            seen[key] = [o]
            uniq.append((key, o))
    for k, o in uniq:
        if not hasattr(o, 'timeout') or o.timeout is None:
            o.timeout = timeout
    _OBS = [o for k, o in uniq]
    _AX = axioms
    if _OBS:
        for i, r, s, t, d in pmap(_work, len(_OBS), jobs, 240, lambda i, why: (i, 'unknown', 'none', 0.0, why)):
            for o in seen[uniq[i][0]]:
                o.result, o.solver, o.time, o.detail = r, s, t, d
    for o in obls:
        if not hasattr(o, 'time'):
            o.time, o.detail = 0.0, None
