"""Regular expressions over symbolic strings.

Compiles Python's own parse of a pattern (re._parser) into an NFA and evaluates it on
a list of (possibly symbolic) characters as a z3 formula: for each position, the
condition under which each NFA state is active. Supports the regular subset: literals,
classes, ranges, ., repeats, groups, alternation, ^ $ \\A \\Z. Only yes/no answers
(match object truthiness) and group(0) of a fullmatch are supported symbolically.
"""
import re as _re
import re._parser as _p
import re._constants as _c
import z3

from .engine import cur
from .values import SymStr, SymBytes, mk_bool, _orz, _andz, is_sym

MAXU = 0x10FFFF


class _NFA:
    def __init__(self):
        self.eps = []     # list of lists
        self.tr = []      # list of (pred, target) or None
        self.anch = []    # list of (kind, target)

    def state(self):
        self.eps.append([])
        self.tr.append([])
        self.anch.append([])
        return len(self.eps) - 1


CATS = {
    _c.CATEGORY_DIGIT: ([(48, 57)], False),
    _c.CATEGORY_NOT_DIGIT: ([(48, 57)], True),
    _c.CATEGORY_WORD: ([(48, 57), (65, 90), (95, 95), (97, 122)], False),
    _c.CATEGORY_NOT_WORD: ([(48, 57), (65, 90), (95, 95), (97, 122)], True),
    _c.CATEGORY_SPACE: ([(9, 13), (32, 32)], False),
    _c.CATEGORY_NOT_SPACE: ([(9, 13), (32, 32)], True),
}


def _in_pred(items):
    neg = False
    parts = []
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            parts.append(([(av, av)], False))
        elif op is _c.RANGE:
            parts.append(([av], False))
        elif op is _c.CATEGORY:
            parts.append(CATS[av])
        else:
            cur().unsupported(f'regex class {op}')
    return (parts, neg)


def _pred_eval(pred, ch):
    parts, neg = pred
    if isinstance(ch, int) and not is_sym(ch):
        r = any((any(a <= ch <= b for a, b in rs)) != n for rs, n in parts)
        return r != neg
    known = cur().codes.get(ch.get_id())
    if known is not None:
        got = {_pred_eval(pred, x) for x in known[0]}
        if len(got) == 1:
            return got.pop()
    es = []
    for rs, n in parts:
        e = _orz([(ch == a) if a == b else z3.And(ch >= a, ch <= b) for a, b in rs])
        es.append((z3.Not(e) if n else e) if not isinstance(e, bool) else (e != n))
    e = _orz(es)
    if isinstance(e, bool):
        return e != neg
    return z3.Not(e) if neg else e


class _Compiler:
    def __init__(self, flags):
        self.n = _NFA()
        self.flags = flags

    def seq(self, items, start):
        for op, av in items:
            start = self.item(op, av, start)
        return start

    def item(self, op, av, s):
        n = self.n
        if op is _c.LITERAL:
            if self.flags & _re.I and chr(av).isalpha():
                pr = ([([(ord(chr(av).lower()),) * 2, (ord(chr(av).upper()),) * 2], False)], False)
            else:
                pr = ([([(av, av)], False)], False)
            t = n.state()
            n.tr[s].append((pr, t))
            return t
        if op is _c.NOT_LITERAL:
            t = n.state()
            n.tr[s].append((([([(av, av)], False)], True), t))
            return t
        if op is _c.ANY:
            t = n.state()
            pr = ([([(10, 10)], False)], True) if not self.flags & _re.S else ([([(0, MAXU)], False)], False)
            n.tr[s].append((pr, t))
            return t
        if op is _c.IN:
            t = n.state()
            if self.flags & _re.I:
                cur().unsupported('regex IGNORECASE class')
            n.tr[s].append((_in_pred(av), t))
            return t
        if op is _c.SUBPATTERN:
            return self.seq(av[3], s)
        if op is _c.BRANCH:
            t = n.state()
            for alt in av[1]:
                b = n.state()
                n.eps[s].append(b)
                e = self.seq(alt, b)
                n.eps[e].append(t)
            return t
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is _c.POSSESSIVE_REPEAT:
                cur().unsupported('possessive')
            for _ in range(lo):
                s = self.seq(sub, s)
            if hi is _c.MAXREPEAT:
                loop = n.state()
                n.eps[s].append(loop)
                e = self.seq(sub, loop)
                n.eps[e].append(loop)
                t = n.state()
                n.eps[loop].append(t)
                return t
            t = n.state()
            for _ in range(hi - lo):
                n.eps[s].append(t)
                s = self.seq(sub, s)
            n.eps[s].append(t)
            return t
        if op is _c.AT:
            t = n.state()
            n.anch[s].append((av, t))
            return t
        cur().unsupported(f'regex op {op}')


class SymMatch:
    def __init__(self, string):
        self.string = string

    def __bool__(self):
        return True

    def group(self, *a):
        if not a or a == (0,):
            return self.string
        cur().unsupported('regex group')


class Pattern:
    """Wraps a real compiled pattern."""
    _cache = {}

    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self._nfa = None

    def nfa(self):
        if self._nfa is None:
            comp = _Compiler(self.flags)
            s = comp.n.state()
            e = comp.seq(_p.parse(self.pattern, self.flags & ~_re.U), s)
            self._nfa = (comp.n, s, e)
        return self._nfa

    def _closure(self, n, act, i, length):
        work = list(act)
        # iterate to fixpoint: conditions are OR'd; use repeated propagation over DAG/cycles
        changed = True
        seen = dict(act)
        order = list(seen)
        idx = 0
        # breadth-first propagate; conditions merge as OR of distinct sources
        contrib = {k: {('init',): v} for k, v in act.items()}
        queue = list(act)
        cond = dict(act)
        it = 0
        while queue:
            s = queue.pop(0)
            it += 1
            if it > 20000:
                cur().unsupported('regex too big')
            c = cond[s]
            outs = [(t, True) for t in n.eps[s]]
            for kind, t in n.anch[s]:
                if kind in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
                    ok = i == 0
                elif kind is _c.AT_END_STRING:
                    ok = i == length
                elif kind is _c.AT_END:
                    ok = ('$', i)
                else:
                    cur().unsupported(f'regex anchor {kind}')
                if ok is not False:
                    outs.append((t, ok))
            for t, ok in outs:
                if isinstance(ok, tuple):
                    if i == length:
                        v = c
                    elif i == length - 1:
                        v = _andz([c, self._nl(i)])
                    else:
                        continue
                else:
                    v = c
                if v is False:
                    continue
                d = contrib.setdefault(t, {})
                key = (s,)
                old = d.get(key)
                if old is not None and (old is v or (not isinstance(old, bool) and not isinstance(v, bool) and old.eq(v))):
                    continue
                d[key] = v
                new = _orz(list({(x if isinstance(x, bool) else x.get_id()): x for x in d.values()}.values()))
                prev = cond.get(t)
                if prev is True:
                    continue
                if t in cond and prev is not None and not isinstance(prev, bool) and not isinstance(new, bool):
                    # avoid infinite growth in cycles: stop if t already covers the
                    # same base conditions
                    if len(d) > 1 and self._implied(v, prev):
                        continue
                cond[t] = new
                queue.append(t)
        return cond

    @staticmethod
    def _implied(v, prev):
        if v.eq(prev):
            return True
        if z3.is_or(prev):
            return any(ch.eq(v) for ch in prev.children())
        return False

    def _nl(self, i):
        ch = self._chars[i]
        return (ch == 10)

    def _run(self, chars, full, search):
        n, s0, acc = self.nfa()
        self._chars = chars
        L = len(chars)
        act = {s0: True}
        accepted = []
        for i in range(L + 1):
            if i and search:
                act[s0] = True
            act = self._closure(n, act, i, L)
            if acc in act and (not full or i == L):
                accepted.append(act[acc])
                if act[acc] is True:
                    break
            if i == L:
                break
            nxt = {}
            for s, c in act.items():
                for pred, t in n.tr[s]:
                    v = _andz([c, _pred_eval(pred, chars[i])])
                    if v is False:
                        continue
                    nxt.setdefault(t, []).append(v)
            act = {}
            for t, vs in nxt.items():
                v = _orz(vs)
                if not isinstance(v, bool):
                    # name big conditions to keep formulas linear in size
                    global _names
                    _names += 1
                    b = z3.Bool(f're!{_names}')
                    self._side.append(b == v)
                    v = b
                act[t] = v
        return mk_bool(_orz(accepted))

    def _do(self, string, how, *a):
        if not is_sym(string):
            return getattr(self.real, how)(string, *a)
        if a:
            cur().unsupported('regex pos')
        c = cur()
        # formulas only depend on the terms, so they are shared between paths
        key = (self.real.pattern, self.real.flags, how, tuple(
            x if isinstance(x, int) else ('z', x.get_id(), id(c.codes.get(x.get_id(), (0,))[0])) for x in string.chars))
        hit = _formulas.get(key)
        if hit is None:
            self._side = []
            r = self._run(string.chars, how == 'fullmatch', how == 'search')
            hit = _formulas[key] = (r, self._side, list(string.chars))
        r, side, _ = hit
        if side and key not in c.memo:
            c.memo[key] = True
            for f in side:
                c.add(f)
            c.model_ = None
        return SymMatch(string) if r else None

    def fullmatch(self, s, *a): return self._do(s, 'fullmatch', *a)
    def match(self, s, *a): return self._do(s, 'match', *a)
    def search(self, s, *a): return self._do(s, 'search', *a)

    def __getattr__(self, name):
        real = getattr(self.real, name)
        if callable(real):
            def f(*a, **kw):
                if any(is_sym(x) for x in a):
                    cur().unsupported(f're.{name}')
                return real(*a, **kw)
            return f
        return real


_formulas = {}
_names = 0


class ReModule:
    """Stands in for the re module."""
    def __init__(self):
        self._cache = {}

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        k = (p, flags)
        if k not in self._cache:
            self._cache[k] = Pattern(_re.compile(p, flags))
        return self._cache[k]

    def fullmatch(self, p, s, flags=0): return self.compile(p, flags).fullmatch(s)
    def match(self, p, s, flags=0): return self.compile(p, flags).match(s)
    def search(self, p, s, flags=0): return self.compile(p, flags).search(s)

    def __getattr__(self, name):
        real = getattr(_re, name)
        if callable(real) and not isinstance(real, type):
            def f(p, *a, **kw):
                if isinstance(p, Pattern):
                    p = p.real
                if any(is_sym(x) for x in a):
                    cur().unsupported(f're.{name}')
                return real(p, *a, **kw)
            return f
        return real
