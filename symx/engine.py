"""Dynamic symbolic execution engine.

A *harness* is a Python function ``fn(ctx, **params)``.  It is executed over and
over; every run follows one path.  Inputs come from ``ctx`` as symbolic values;
each time the code under test branches on a symbolic condition the engine asks
z3 which sides are feasible, follows one and queues the other.  ``ctx.check``
asks z3 whether the asserted condition can be false for *any* values that follow
the current path.

The same harness also runs in concrete mode (``ConcreteCtx``), where inputs are
the values of a solver model and the code under test is the real, untransformed
package in /repo with its real libraries.
"""
import json
import os
import random
import signal
import sys
import time
import traceback

import z3


class Abort(BaseException):
    """Ends the current path. BaseException so that code under test can't catch it
    with ``except Exception``."""


class Infeasible(Abort):
    """assume() failed, path is vacuous."""


class Violation(Abort):
    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.msg = msg
        self.finding = finding


class Unsupported(Abort):
    """The encoding can't represent an operation; path isn't decided symbolically."""


class PathTimeout(Abort):
    pass


class Incomplete(Abort):
    """solver said unknown."""


_ctx = None


def cur():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


QUERY_TIMEOUT_MS = 20000
import operator
PY_COMPARISONS = {z3.Z3_OP_LE: operator.le, z3.Z3_OP_GE: operator.ge, z3.Z3_OP_LT: operator.lt,
                  z3.Z3_OP_GT: operator.gt, z3.Z3_OP_EQ: operator.eq}
COMPARISONS = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ)


class Ctx:
    """Symbolic mode: one path."""
    symbolic = True

    def __init__(self, prefix=(), tier='quick', lib=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []      # taken so far: ints
        self.alts = []           # new prefixes discovered
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', QUERY_TIMEOUT_MS)
        self.npc = 0
        self.model_ = None
        self.inputs = {}         # name -> ('int', expr) etc
        self.names = {}
        self.queries = 0
        self.obligations = 0
        self.solver_s = 0.0
        self.tier = tier
        self.dead = None
        self.reached = set()
        self.concretised = 0
        self.observed = []
        self.key_atoms = []
        self.memo = {}
        self.cleanups = []
        self.lib = lib
        self.notes = {}
        self.known = {}          # ast id -> (decision, ast)
        self.ranges = {}         # ast id -> (lo, hi, ast), for atoms of linear terms
        self.codes = {}          # ast id -> (set of possible values, ast)
        self.divs = {}           # (ast id, divisor) -> (quotient, remainder, ast)
        self.inverse = {}        # (table, ast id) -> (index or code, ast)

    # ---- plumbing
    def _alive(self):
        if self.dead is not None:
            raise self.dead

    def die(self, exc):
        if self.dead is None:
            self.dead = exc
        raise exc

    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    def add(self, c):
        self.solver.add(c)
        self.npc += 1

    def _check(self, *assumps):
        t = time.perf_counter()
        self.queries += 1
        r = self.solver.check(*assumps)
        self.solver_s += time.perf_counter() - t
        return r

    def model(self):
        if self.model_ is None:
            r = self._check()
            if r == z3.unsat:
                self.die(Infeasible('path condition unsat'))
            elif r != z3.sat:
                self.die(Incomplete('solver: unknown'))
            self.model_ = self.solver.model()
        return self.model_

    def sat(self, cond):
        """Is pc and cond satisfiable?  Returns model or None."""
        r = self._check(cond)
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unsat:
            return None
        self.die(Incomplete('solver: unknown'))

    # ---- branching
    def branch(self, cond):
        self._alive()
        if isinstance(cond, bool):
            return cond
        cid = cond.get_id()
        hit = self.known.get(cid)
        if hit is not None:
            return hit[0]
        orig = cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.known[cid] = (True, orig)
            return True
        if z3.is_false(cond):
            self.known[cid] = (False, orig)
            return False
        sid = cond.get_id()
        hit = self.known.get(sid)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            v = bool(d & 1)
            self.known[cid] = (v, orig)
            self.known[sid] = (v, cond)
            if not d & 2:        # not implied by the path so far
                self.add(cond if v else z3.Not(cond))
                self.model_ = None
            return v
        v = self.decided(cond)
        if v is None:
            v = self.decided(orig)
        if v is not None:
            self.decisions.append(2 | v)
            self.pos += 1
            self.known[cid] = (v, orig)
            self.known[sid] = (v, cond)
            return v
        m = self.model()
        mv = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if mv else cond
        r = self._check(other)
        if r != z3.unsat:
            self.alts.append(self.decisions + [0 if mv else 1])
            if r != z3.sat:
                self.notes['unknown_branch'] = self.notes.get('unknown_branch', 0) + 1
        self.decisions.append((1 if mv else 0) | (2 if r == z3.unsat else 0))
        self.pos += 1
        self.known[cid] = (mv, orig)
        self.known[sid] = (mv, cond)
        if r != z3.unsat:
            self.add(cond if mv else z3.Not(cond))
        return mv

    def choose(self, name, n):
        """Symbolic choice in [0, n): an unconstrained variable that is split on at once, so every
        value is feasible and no solver state is needed."""
        self._alive()
        name = self.fresh(name)
        if n <= 1:
            self.inputs[name] = ('int', 0)
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.alts.append(self.decisions + [i])
        self.inputs[name] = ('int', d)
        self.pos += 1
        self.decisions.append(d)
        return d

    def concretize(self, expr):
        """Forks over all feasible values of an int expression."""
        self._alive()
        expr = z3.simplify(expr)
        while True:
            if z3.is_int_value(expr):
                return expr.as_long()
            # pick the smallest-effort candidate: current model's value. deterministic
            # under re-execution because the value is recorded as a decision.
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(v)
            else:
                v = self.model().eval(expr, model_completion=True).as_long()
                self.pos += 1
                self.decisions.append(v)
            if self.branch(expr == v):
                return v

    # ---- linear arithmetic
    def bounded(self, e, lo, hi):
        self.ranges[e.get_id()] = (lo, hi, e)

    def define(self, name, e, lo, hi):
        """A variable equal to e, which the path says is in lo..hi."""
        if z3.is_const(e):
            self.bounded(e, lo, hi)
            return e
        v = z3.Int(self.fresh(name))
        self.add(v == e)
        self.add(v >= lo)
        self.add(v <= hi)
        self.model_ = None
        self.bounded(v, lo, hi)
        return v

    def linear(self, e):
        """{id: (coefficient, atom)}, constant"""
        out, const = {}, 0
        todo = [(e, 1)]
        while todo:
            e, k = todo.pop()
            if z3.is_int_value(e):
                const += k * e.as_long()
            elif z3.is_add(e):
                todo.extend((c, k) for c in e.children())
            elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
                todo.append((e.arg(1), k * e.arg(0).as_long()))
            else:
                i = e.get_id()
                out[i] = (out.get(i, (0,))[0] + k, e)
        return out, const

    def span(self, lin):
        """Range of a linear term, or None."""
        terms, lo = lin
        hi = lo
        for k, a in terms.values():
            r = self.range_of(a)
            if r is None:
                return None
            lo += min(k * r[0], k * r[1])
            hi += max(k * r[0], k * r[1])
        return lo, hi

    def range_of(self, e):
        r = self.ranges.get(e.get_id())
        if r is None and z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int(e):
            a, b = (self.range_of(x) for x in e.children()[1:])
            r = a and b and (min(a[0], b[0]), max(a[1], b[1]))
        elif r is None and (z3.is_add(e) or z3.is_mul(e) or z3.is_int_value(e)):
            lin = self.linear(e)
            if len(lin[0]) != 1 or not next(iter(lin[0].values()))[1].eq(e):
                r = self.span(lin)
        if r is not None:
            self.bounded(e, *r[:2])
            r = r[:2]
        return r

    def decided(self, cond):
        """Truth of a comparison that follows from the ranges of its terms, or None."""
        if z3.is_not(cond):
            r = self.decided(cond.arg(0))
            return r if r is None else not r
        k = cond.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            rs = [self.decided(c) for c in cond.children()]
            stop = k == z3.Z3_OP_OR
            return stop if stop in rs else None if None in rs else not stop
        if k not in COMPARISONS or not z3.is_int(cond.arg(0)):
            return None
        s = self.codes.get(cond.arg(0).get_id())
        if s is not None and z3.is_int_value(cond.arg(1)):
            n = cond.arg(1).as_long()
            op = PY_COMPARISONS[k]
            got = {op(x, n) for x in s[0]}
            return got.pop() if len(got) == 1 else None
        a, b = (self.linear(x) for x in cond.children())
        s = None
        if not b[0]:
            s = self.range_of(cond.arg(0))
            s = s and (s[0] - b[1], s[1] - b[1])
        if s is None:
            for i, (c, x) in b[0].items():
                a[0][i] = (a[0].get(i, (0,))[0] - c, x)
            s = self.span(({i: t for i, t in a[0].items() if t[0]}, a[1] - b[1]))
        if s is None:
            return None
        lo, hi = s
        if k == z3.Z3_OP_LE:
            return True if hi <= 0 else False if lo > 0 else None
        if k == z3.Z3_OP_GE:
            return True if lo >= 0 else False if hi < 0 else None
        if k == z3.Z3_OP_LT:
            return True if hi < 0 else False if lo >= 0 else None
        if k == z3.Z3_OP_GT:
            return True if lo > 0 else False if hi <= 0 else None
        return False if lo > 0 or hi < 0 else True if lo == hi == 0 else None

    def divmod(self, e, z):
        """Quotient and remainder by a positive constant, without div and mod terms."""
        hit = self.divs.get((e.get_id(), z))
        if hit is not None:
            return hit[:2]
        terms, const = lin = self.linear(z3.simplify(e, som=True))
        whole = {i: t for i, t in terms.items() if t[0] % z == 0}
        rest = {i: t for i, t in terms.items() if t[0] % z}, const % z
        s = self.span(rest)

        def build(ts, c):
            return z3.simplify(z3.Sum([z3.IntVal(c)] + [k * a for k, a in ts])) if ts else z3.IntVal(c)
        q = build([(k // z, a) for k, a in whole.values()], const // z)
        r = build(rest[0].values(), rest[1])
        if s is None or s[0] < 0 or s[1] >= z:
            # a fresh quotient and remainder of what isn't a multiple
            lo, hi = (s[0] // z, s[1] // z) if s else (None, None)
            v = z3.Int(self.fresh('$div'))
            m = z3.simplify(r - z * v)
            self.add(m >= 0)
            self.add(m < z)
            self.bounded(m, 0, z - 1)
            if s:
                self.add(v >= lo)
                self.add(v <= hi)
                self.bounded(v, lo, hi)
            self.model_ = None
            q, r = z3.simplify(q + v), m
        self.divs[e.get_id(), z] = (q, r, e)
        return q, r

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        from .values import SymInt
        self._alive()
        name = self.fresh(name)
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        if lo is not None and hi is not None and lo > hi:
            self.die(Infeasible('empty range'))
        if lo is not None and hi is not None:
            self.bounded(v, lo, hi)
        self.model_ = None
        return SymInt(v)

    def bool(self, name):
        from .values import SymBool
        self._alive()
        name = self.fresh(name)
        v = z3.Bool(name)
        self.inputs[name] = ('bool', v)
        return SymBool(v)

    def flag(self, name):
        """A symbolic boolean, branched on immediately."""
        return bool(self.choose(name, 2))

    def str(self, name, length, alphabet=None, lo=0x21, hi=0x7e):
        """Symbolic string with fixed length."""
        from .values import SymStr
        self._alive()
        name = self.fresh(name)
        chars = []
        for i in range(length):
            v = z3.Int(f'{name}[{i}]')
            if alphabet is not None:
                codes = sorted(set(ord(c) for c in alphabet))
                self.add(in_codes(v, codes))
            else:
                self.add(v >= lo)
                self.add(v <= hi)
            chars.append(v)
        self.inputs[name] = ('str', chars)
        self.model_ = None
        return SymStr.make(chars)

    def bytes(self, name, length):
        from .values import SymBytes
        self._alive()
        name = self.fresh(name)
        chars = []
        for i in range(length):
            v = z3.Int(f'{name}[{i}]')
            self.add(v >= 0)
            self.add(v <= 255)
            chars.append(v)
        self.inputs[name] = ('bytes', chars)
        self.model_ = None
        return SymBytes.make(chars)

    # ---- assertions
    def assume(self, cond):
        self._alive()
        c = to_z3(cond)
        if c is True:
            return
        if c is False:
            self.die(Infeasible('assume False'))
        self.add(c)
        if self.model_ is not None and not z3.is_true(
                self.model_.eval(c, model_completion=True)):
            self.model_ = None
        self.model()  # dies if infeasible

    def check(self, cond, msg='', finding=None, when=True):
        """Asserts cond. finding names a recorded defect that may break it, but only
        where `when` holds."""
        self._alive()
        self.obligations += 1
        if finding is not None and when is not True:
            from .values import OR
            self.check(OR(cond, when), msg)
        c = to_z3(cond)
        if c is True:
            return
        if c is not False:
            c = z3.simplify(c)
            if z3.is_true(c) or self.decided(c):
                return
            m = self.sat(z3.Not(c))
            if m is None:
                return
            self.add(z3.Not(c))
            self.model_ = m
        else:
            self.model()
        self.die(Violation(msg, finding))

    def fail(self, msg, finding=None):
        self.check(False, msg, finding)

    def reach(self, label='end'):
        self.reached.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def unsupported(self, msg):
        self.die(Unsupported(msg))

    def input_values(self):
        m = self.model()
        out = {}

        def ev(e):
            if isinstance(e, int):
                return e
            return m.eval(e, model_completion=True).as_long()

        for name, (kind, e) in self.inputs.items():
            if kind == 'int':
                out[name] = ev(e)
            elif kind == 'bool':
                out[name] = z3.is_true(m.eval(e, model_completion=True))
            elif kind == 'str':
                out[name] = ''.join(chr(ev(x)) for x in e)
            elif kind == 'bytes':
                out[name] = {'bytes': [ev(x) for x in e]}
            elif kind == 'fn':
                out[name] = e(m, ev)
        return out


def in_codes(v, codes):
    """z3 formula: v is one of the sorted ints codes, as ranges."""
    ranges = []
    for c in codes:
        if ranges and ranges[-1][1] == c - 1:
            ranges[-1][1] = c
        else:
            ranges.append([c, c])
    return z3.Or(*[v == a if a == b else z3.And(v >= a, v <= b) for a, b in ranges])


def to_z3(cond):
    from .values import SymBool, SymInt
    if type(cond) is bool:
        return cond
    if isinstance(cond, z3.ExprRef):
        return cond
    if type(cond) is SymBool:
        e = cond.e
        return e
    return bool(cond)


class ConcreteFail(Abort):
    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class ConcreteCtx:
    """Concrete replay."""
    symbolic = False

    def __init__(self, values, tier='quick', lib=None):
        self.values = values
        self.names = {}
        self.tier = tier
        self.observed = []
        self.reached = set()
        self.memo = {}
        self.cleanups = []
        self.lib = lib
        self.notes = {}
        self.obligations = 0
        self.failure = None

    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    def _get(self, name, default):
        name = self.fresh(name)
        if name not in self.values:
            self.notes['missing'] = self.notes.get('missing', 0) + 1
            return default
        return self.values[name]

    def _alive(self):
        pass

    def choose(self, name, n):
        v = self._get(name, 0)
        return v if 0 <= v < max(n, 1) else 0

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def bool(self, name):
        return bool(self._get(name, False))

    def flag(self, name):
        return bool(self.choose(name, 2))

    def str(self, name, length, alphabet=None, lo=0x21, hi=0x7e):
        return self._get(name, (alphabet[0] if alphabet else chr(lo)) * length)

    def bytes(self, name, length):
        v = self._get(name, {'bytes': [0] * length})
        return bytes(v['bytes'])

    def assume(self, cond):
        if not cond:
            raise Infeasible('assumption fails concretely')

    def check(self, cond, msg='', finding=None, when=True):
        self.obligations += 1
        if not cond:
            if finding is not None and not when:
                finding = None
            e = ConcreteFail(msg, finding)
            if self.failure is None:
                self.failure = e
            raise e

    def fail(self, msg, finding=None):
        self.check(False, msg, finding)

    def reach(self, label='end'):
        self.reached.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def concretize(self, expr):
        return expr


# ---------------------------------------------------------------------------
# exploration

class PathResult:
    __slots__ = ('status', 'msg', 'inputs', 'decisions', 'tb', 'harness')

    def __init__(self, status, msg=None, inputs=None, decisions=None, tb=None):
        self.status, self.msg, self.inputs = status, msg, inputs
        self.decisions, self.tb = decisions, tb


class Stats:
    FIELDS = ('paths', 'decisions', 'queries', 'obligations', 'infeasible',
              'unsupported', 'incomplete', 'timeouts', 'nodes')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.reached = {}
        self.candidates = []     # PathResults to replay: violations, exceptions...
        self.samples = []
        self.unsupported_msgs = {}
        self.functions = set()

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.candidates += o.candidates
        self.samples += o.samples
        for k, v in o.unsupported_msgs.items():
            self.unsupported_msgs[k] = self.unsupported_msgs.get(k, 0) + v
        self.functions |= o.functions


def _alarm(sig, frame):
    c = cur()
    exc = PathTimeout('path timeout')
    if c is not None:
        c.dead = exc
    raise exc


def run_path(fn, params, prefix, tier, path_timeout, lib):
    ctx = Ctx(prefix, tier, lib)
    set_ctx(ctx)
    status, msg, tb = 'ok', None, None
    if path_timeout:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, path_timeout)
    try:
        try:
            fn(ctx, **params)
        finally:
            if path_timeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
            for c in reversed(ctx.cleanups):
                c()
        if ctx.dead is not None:
            raise ctx.dead
    except BaseException as e:
        e2 = ctx.dead if ctx.dead is not None else e
        if isinstance(e2, Infeasible):
            status = 'infeasible'
        elif isinstance(e2, Violation):
            status, msg = 'violation', e2.msg
        elif isinstance(e2, Unsupported):
            status, msg = 'unsupported', str(e2)
            tb = traceback.format_exc()
        elif isinstance(e2, Incomplete):
            status, msg = 'incomplete', str(e2)
        elif isinstance(e2, PathTimeout):
            status, msg = 'timeout', str(e2)
            tb = traceback.format_exc()
        elif isinstance(e2, (KeyboardInterrupt, SystemExit)):
            raise
        else:
            status, msg = 'exception', f'{type(e2).__name__}: {e2}'
            tb = traceback.format_exc()
    finally:
        set_ctx(None)
    return ctx, status, msg, tb


def explore(fn, params, prefixes, tier, *, lib=None, max_paths=200, max_s=10.0,
            path_timeout=30, sample_p=0.0, rng=None, max_candidates=6,
            max_samples=3, end_label='end'):
    """DFS from prefixes; returns (Stats, leftover prefixes)."""
    st = Stats()
    stack = list(prefixes)
    t0 = time.time()
    n = 0
    while stack:
        if n >= max_paths or time.time() - t0 > max_s:
            break
        if sum(c.status != 'unsupported' for c in st.candidates) >= max_candidates:
            break
        prefix = stack.pop()
        ctx, status, msg, tb = run_path(fn, params, prefix, tier, path_timeout, lib)
        n += 1
        st.paths += 1
        st.queries += ctx.queries
        st.obligations += ctx.obligations
        st.solver_s += ctx.solver_s
        st.decisions += len(ctx.decisions)
        st.nodes += max(0, len(ctx.decisions) - len(prefix)) + 1
        stack.extend(ctx.alts)
        for r in ctx.reached:
            st.reached[r] = st.reached.get(r, 0) + 1
        if status == 'ok':
            if sample_p and len(st.samples) < max_samples and rng.random() < sample_p:
                try:
                    st.samples.append(PathResult('sample', None, ctx.input_values(),
                                                 list(ctx.decisions)))
                except Abort:
                    pass
        elif status == 'infeasible':
            st.infeasible += 1
        else:
            inputs = None
            if status == 'incomplete':
                st.incomplete += 1
                key = f'{status}: {msg}'
                st.unsupported_msgs[key] = st.unsupported_msgs.get(key, 0) + 1
                continue
            if status == 'unsupported':
                st.unsupported += 1
                st.unsupported_msgs[msg] = st.unsupported_msgs.get(msg, 0) + 1
                if os.environ.get('SYMX_DEBUG'):
                    sys.stderr.write(tb or '')
            if status == 'timeout':
                st.timeouts += 1
            try:
                ctx.dead = None
                inputs = ctx.input_values()
            except Abort as e:
                st.incomplete += 1
                continue
            if (status == 'unsupported' and
                    sum(c.status == 'unsupported' for c in st.candidates) >= 4):
                continue
            st.candidates.append(PathResult(status, msg, inputs, list(ctx.decisions), tb))
    return st, stack
