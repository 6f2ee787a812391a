"""Explores a property's harnesses on all cores, replays what the solver finds against
the real code, and writes the evidence file."""
import importlib.util
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import engine, loader, world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', 8))
STRICT = bool(os.environ.get('VERIF_STRICT'))
MEM = 3_500_000_000


def load_property(pid):
    path = os.path.join(VERIF, 'harness', f'{pid.lower()}.py')
    spec = importlib.util.spec_from_file_location(f'harness_{pid.lower()}', path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    spec.loader.exec_module(m)
    return m


# ---------------------------------------------------------------------------
# which functions of /repo were executed

_functions = set()


def monitor():
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return
    prefix = os.path.join(loader.REPO, 'arroba') + os.sep

    def start(code, off):
        if code.co_filename.startswith(prefix):
            if not code.co_qualname.startswith('<') or code.co_qualname == '<module>':
                if code.co_qualname != '<module>':
                    _functions.add(f'{code.co_filename[len(prefix):-3]}.{code.co_qualname}')
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


# ---------------------------------------------------------------------------

class Job:
    def __init__(self, h, params, idx):
        self.h, self.params, self.idx = h, params, idx
        self.frontier = [[]]
        self.stats = engine.Stats()
        self.spent = 0.0
        self.busy = 0
        self.unrepro = []
        self.findings = {}
        self.replayed = {}

    @property
    def label(self):
        return f'{self.h.name}({", ".join(f"{k}={v}" for k, v in self.params.items())})'


def worker(conn, jobs, tier, seed, lib):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    monitor()
    sys.setrecursionlimit(3000)
    rng = random.Random(seed)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        j, prefixes, max_paths, max_s = msg
        job = jobs[j]
        t0 = time.time()
        try:
            st, left = engine.explore(
                job.h.fn, job.params, prefixes, tier, lib=lib, max_paths=max_paths,
                max_s=max_s, path_timeout=job.h.path_timeout, sample_p=0.2, rng=rng,
                max_samples=2)
            st.functions = set(_functions)
            conn.send((j, st, left, time.time() - t0, None))
        except BaseException:
            conn.send((j, None, [], time.time() - t0, traceback.format_exc()))


def run_concrete(h, params, values, tier, lib=None):
    """-> (status, message, detail)"""
    ctx = engine.ConcreteCtx(values, tier, lib)
    engine.set_ctx(None)
    try:
        try:
            h.fn(ctx, **params)
        finally:
            for c in reversed(ctx.cleanups):
                c()
        if getattr(ctx, 'failure', None) is not None:
            raise ctx.failure
        return 'ok', None, {'reached': sorted(ctx.reached), 'missing': ctx.notes.get('missing', 0)}
    except engine.ConcreteFail as e:
        return 'fail', str(e), {'tb': traceback.format_exc(), 'finding': e.finding}
    except engine.Infeasible as e:
        return 'infeasible', str(e), {}
    except (engine.Abort, Exception) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = None
        for f in tb:
            if f.filename.startswith(os.path.join(loader.REPO, 'arroba')):
                where = 'code'
            elif f.filename.startswith(os.path.join(VERIF, 'harness')):
                where = 'harness'
        st = 'exception' if where == 'code' else 'harness-error'
        return st, f'{type(e).__name__}: {e}', {'tb': traceback.format_exc()}


def replay_fork(h, params, values, tier, timeout=60):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            res = run_concrete(h, params, values, tier)
            with os.fdopen(w, 'w') as f:
                json.dump(res, f, default=repr)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    deadline = time.time() + timeout
    hang = False
    import select
    while True:
        left = deadline - time.time()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hang:
        return ['hang', f'did not finish in {timeout}s', {}]
    if not out:
        return ['crash', 'replay process died', {}]
    return json.loads(out)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k['id']: k for k in data.get('findings', []) if k['property'] == pid}


def run(pid, tier, seed, budget=None, only=None, out=sys.stdout):
    t0 = time.time()
    mod = load_property(pid)
    known = load_known(pid)
    world.warm(None)
    budget = budget or getattr(mod, 'BUDGET', {}).get(tier) or {'quick': 100, 'thorough': 780}[tier]
    rng = random.Random(seed)
    jobs = []
    for h in mod.H:
        for p in h.params[tier]:
            if only and only not in h.name:
                continue
            jobs.append(Job(h, p, len(jobs)))
    lib = None

    ctxm = mp.get_context('fork')
    procs = []
    for i in range(WORKERS):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, jobs, tier, seed * 1000 + i, lib), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    idle = [a for _, a in procs]
    running = {}
    violations = []
    errors = []
    deadline = t0 + budget
    functions = set()

    def pick():
        cand = [j for j in jobs if j.frontier]
        if not cand:
            return None
        return min(cand, key=lambda j: ((j.spent + j.busy * 2.0) / j.h.weight, j.idx))

    def handle_candidate(job, c):
        """Returns True if it's a real violation."""
        key = (c.status, (c.msg or '').split('\n')[0][:120])
        n = job.replayed.get(key, 0)
        limit = 3 if c.status == 'unsupported' else 10
        if n >= limit:
            if c.status in ('violation', 'exception', 'timeout'):
                job.unrepro.append((c.status, c.msg, None))
            return False
        job.replayed[key] = n + 1
        tmo = job.h.path_timeout + 30
        status, msg, detail = replay_fork(job.h, job.params, c.inputs, tier, tmo)
        if status in ('fail', 'exception', 'hang'):
            fid = detail.get('finding')
            if fid and fid in known:
                if fid not in job.findings:
                    job.findings[fid] = msg
                job.replayed[key] -= 1
                return False
            violations.append(dict(job=job, c=c, status=status, msg=msg, detail=detail))
            return True
        if c.status != 'unsupported':
            job.unrepro.append((c.status, c.msg, (status, msg)))
            if os.environ.get('SYMX_DEBUG'):
                print('UNREPRODUCED', job.label, c.status, c.msg, c.inputs, status, msg,
                      c.tb, detail.get('tb'), file=sys.stderr)
        return False

    stop = False
    while not stop:
        while idle and time.time() < deadline:
            job = pick()
            if job is None:
                break
            conn = idle.pop()
            nf = len(job.frontier)
            k = max(1, min(nf // WORKERS, 40))
            take = []
            for _ in range(min(k, nf)):
                i = rng.randrange(len(job.frontier))
                job.frontier[i], job.frontier[-1] = job.frontier[-1], job.frontier[i]
                take.append(job.frontier.pop())
            first = job.stats.paths < 30
            conn.send((job.idx, take, 6 if first else 4000,
                       min(1.0 if first else 4.0, max(0.5, deadline - time.time()))))
            running[conn] = job
            job.busy += 1
        if not running:
            break
        ready = mp.connection.wait(list(running), timeout=2)
        dead = [(p, a) for p, a in procs if a in running and not p.is_alive() and a not in ready]
        for p, a in dead:
            job = running.pop(a)
            job.busy -= 1
            errors.append(f'worker died in {job.label}')
        for conn in ready:
            job = running.pop(conn)
            job.busy -= 1
            try:
                j, st, left, dt, err = conn.recv()
            except EOFError:
                errors.append(f'worker died in {job.label}')
                continue
            idle.append(conn)
            job.spent += dt
            if err:
                errors.append(err)
                continue
            job.frontier.extend(left)
            cands, st.candidates = st.candidates, []
            job.stats.merge(st)
            functions |= st.functions
            for c in cands:
                if handle_candidate(job, c):
                    stop = True
                    break
            if len([u for u in job.unrepro if u[2]]) > 40:
                # this job's encoding is off; don't waste the rest of the budget
                job.frontier = []
            if stop:
                break
        if time.time() > deadline + 60:
            errors.append('workers did not return in time')
            break
    for p, a in procs:
        p.kill()
    for p, a in procs:
        p.join()

    # replay sampled paths against the real code
    validated = 0
    samples = []
    mism = []
    if not violations:
        pool = [(j, s) for j in jobs for s in j.stats.samples]
        rng.shuffle(pool)
        nmax = {'quick': 24, 'thorough': 120}[tier]
        # spread over jobs
        seen = {}
        ordered = sorted(pool, key=lambda js: seen.setdefault(js[0].idx, 0) or 0)
        by = {}
        for j, s in pool:
            by.setdefault(j.idx, []).append((j, s))
        ordered = []
        while by and len(ordered) < nmax:
            for k in list(by):
                ordered.append(by[k].pop())
                if not by[k]:
                    del by[k]
        tend = time.time() + {'quick': 25, 'thorough': 90}[tier]
        for j, s in ordered[:nmax]:
            if time.time() > tend:
                break
            status, msg, detail = replay_fork(j.h, j.params, s.inputs, tier,
                                              j.h.path_timeout + 30)
            if status == 'ok':
                validated += 1
                if len(samples) < 6:
                    samples.append({'harness': j.label, 'inputs': s.inputs})
            elif status in ('fail', 'exception', 'hang'):
                fid = detail.get('finding')
                if fid and fid in known:
                    j.findings.setdefault(fid, msg)
                    continue
                violations.append(dict(job=j, c=s, status=status, msg=msg, detail=detail))
                break
            else:
                mism.append((j.label, status, msg))
                if os.environ.get('SYMX_DEBUG'):
                    print('SAMPLE MISMATCH', j.label, status, msg, s.inputs,
                          detail.get('tb'), file=sys.stderr)

    total = engine.Stats()
    for j in jobs:
        total.merge(j.stats)
    exhaustive = all(not j.frontier for j in jobs) and not errors and not total.incomplete \
        and not total.unsupported and not total.timeouts and not any(j.unrepro for j in jobs)
    rc = 0
    lines = []
    if violations:
        rc = 1
        v = violations[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{pid}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'harness': v['job'].h.name, 'params': v['job'].params,
                       'tier': tier, 'inputs': v['c'].inputs, 'failure': v['msg'],
                       'kind': v['status'], 'symbolic': v['c'].msg,
                       'traceback': v['detail'].get('tb')}, f, indent=1, default=repr)
        lines.append(f'{v["status"]} in {v["job"].label}: {v["msg"]}')
        lines.append(f'VIOLATION property={pid} replay={path}')
    for fid, k in known.items():
        hit = [j.findings[fid] for j in jobs if fid in j.findings]
        if hit:
            lines.append(f'KNOWN-FINDING: property={pid} {fid}: {k["what"]}')
    vac = []
    if not violations:
        for j in jobs:
            for lab in j.h.needs:
                if not j.stats.reached.get(lab) and not j.frontier:
                    vac.append(f'{j.label} never reaches {lab!r}')
        if vac:
            lines.append('VACUOUS: ' + '; '.join(vac))
            rc = 2
        if all(not j.stats.paths for j in jobs):
            rc = 2
    inconcl = {}
    for j in jobs:
        for st, m, r in j.unrepro:
            k = f'{j.h.name}: {st}: {(m or "").splitlines()[0][:150] if m else ""} (concrete: {r[0] if r else "not tried"})'
            inconcl[k] = inconcl.get(k, 0) + 1
    for m, n in total.unsupported_msgs.items():
        inconcl[f'not encodable: {m}'[:200]] = n
    for m in mism:
        k = f'sample mismatch {m[0]}: {m[1]} {m[2]}'[:200]
        inconcl[k] = inconcl.get(k, 0) + 1
    for e in errors:
        inconcl[f'error: {e[-300:]}'] = 1
    for k, n in inconcl.items():
        lines.append(f'INCONCLUSIVE ({n}): {k}')
    if STRICT and rc == 0 and inconcl:
        rc = 2
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.paths,
            'transitions': total.nodes,
            'traces_validated_against_impl': validated,
            'samples': samples or [{'harness': j.label, 'inputs': 'no path completed'} for j in jobs[:1]],
            'exhaustive': exhaustive,
            'rule': 'states: symbolic end states (paths of the real code, each standing for '
                    'all inputs that follow it); transitions: edges of the symbolic execution '
                    'tree; traces: models of completed paths re-run on the untransformed code',
            'solver_queries': total.queries,
            'obligations': total.obligations,
            'solver_s': round(total.solver_s, 2),
            'infeasible_paths': total.infeasible,
            'harnesses': [{
                'name': j.label, 'paths': j.stats.paths, 'queries': j.stats.queries,
                'obligations': j.stats.obligations, 'exhaustive': not j.frontier,
                'cpu_s': round(j.spent, 1), 'reached': j.stats.reached,
            } for j in jobs],
            'functions_encoded': sorted(functions),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'inconclusive': inconcl,
            'known_findings': sorted({f for j in jobs for f in j.findings}),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f'{pid} {tier}: {total.paths} paths, {total.queries} queries, '
          f'{total.obligations} obligations, {validated} traces replayed, '
          f'exhaustive={exhaustive}, {wall:.1f}s', file=out)
    if os.environ.get('SYMX_VERBOSE'):
        for j in jobs:
            print(f'   {j.label}: {j.stats.paths} paths, left {len(j.frontier)}, '
                  f'{j.spent:.1f}s, inf {j.stats.infeasible}, {j.stats.reached}', file=out)
    for l in lines:
        print(l, file=out)
    out.flush()
    return rc


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_property(d['property'])
    world.warm(None)
    h = next(h for h in mod.H if h.name == d['harness'])
    status, msg, detail = run_concrete(h, d['params'], d['inputs'], d['tier'])
    print(status, msg or '')
    if detail.get('tb'):
        print(detail['tb'])
    return 0 if status == 'ok' else 1
