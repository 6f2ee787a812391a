"""Loads /repo/arroba/*.py for checking.

mode 'sym': the source is parsed, a few expression forms that CPython evaluates in C on
exact str/int types are rewritten to helper calls (f-strings, str/bytes method calls,
subscripts, ``in``), and the result is executed with builtins that understand
symbolic values. Statements, control flow and calls are untouched.

mode 'plain': the source is compiled as is.

In both modes only imports of *libraries* are redirected (``overrides``); arroba's own
modules are always the code in /repo. Compiled code is cached per process, modules are
re-executed for every path so that no state leaks between paths.
"""
import ast
import builtins
import functools
import os
import sys
import types

from collections import defaultdict as _defaultdict, OrderedDict as _OrderedDict

from . import engine
from .values import (SymBool, SymBytes, SymInt, SymReal, SymStr, SymIso, is_sym, mk_int,
                     SymTimedelta)
import z3

REPO = os.environ.get('VERIF_REPO', '/repo')

STR_METHODS = {n for n in dir(str) if not n.startswith('_')} | {
    n for n in dir(bytes) if not n.startswith('_')}
# methods whose results on a plain receiver only matter if an argument is symbolic


# ---------------------------------------------------------------------------
# helpers called by transformed code

def vf_fstr(*parts):
    """parts: literal str, or (value, conversion, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == -1 and spec == '':
            if type(v) is SymStr:
                out.append(v)
                sym = True
                continue
            j = getattr(type(v), '_symfstr', None)
            if j is not None:
                out.append(j(v))
                sym = True
                continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        try:
            out.append(format(v, spec))
        except engine.Abort:
            raise
    if not sym:
        return ''.join(out)
    if len(out) == 1:
        return out[0]
    if any(type(o) is not SymStr and not isinstance(o, str) or
           (is_sym(o) and type(o) is not SymStr) for o in out):
        return OpaqueStr.make(out)
    r = ''
    for o in out:
        r = r + o
    return r


class OpaqueStr:
    """Concatenation of strings and opaque symbolic strings. Compared structurally."""
    _sym = True

    def __init__(self, parts):
        self.parts = parts

    @classmethod
    def make(cls, parts):
        out = []
        for p in parts:
            ps = p.parts if type(p) is OpaqueStr else [p]
            for q in ps:
                if out and isinstance(q, str) and not is_sym(q) and not is_sym(out[-1]):
                    out[-1] += q
                elif not (not is_sym(q) and q == ''):
                    out.append(q)
        return out[0] if len(out) == 1 else cls(out)

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is OpaqueStr and len(o.parts) == len(self.parts):
            from .values import AND
            return AND(*[a == b for a, b in zip(self.parts, o.parts)])
        return False

    def __ne__(self, o):
        from .values import NOT
        return NOT(self == o)

    def __hash__(self):
        return 0x60

    def __bool__(self):
        return True

    def __repr__(self):
        return '<opaquestr>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<opaquestr>'

    def _symfstr(self):
        return self

    def __add__(self, o):
        return OpaqueStr.make([self, o])

    def __radd__(self, o):
        return OpaqueStr.make([o, self])

    def startswith(self, p):
        f = self.parts[0]
        if not is_sym(f) and len(f) >= len(p):
            return f.startswith(p)
        engine.cur().unsupported('startswith on opaque str')

    def removeprefix(self, p):
        if self.startswith(p):
            return OpaqueStr.make([self.parts[0][len(p):]] + self.parts[1:])
        return self

    def split(self, sep=None, maxsplit=-1):
        # opaque parts (cids, base64url, tids) are assumed free of separators
        out = [[]]
        for p in self.parts:
            if is_sym(p):
                out[-1].append(p)
            else:
                pieces = p.split(sep)
                out[-1].append(pieces[0])
                out += [[x] for x in pieces[1:]]
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            engine.cur().unsupported('maxsplit on opaque')
        return [OpaqueStr.make(x) if x else '' for x in out]

    def rpartition(self, sep):
        for i in range(len(self.parts) - 1, -1, -1):
            p = self.parts[i]
            if not is_sym(p) and sep in p:
                a, s, b = p.rpartition(sep)
                return (OpaqueStr.make(self.parts[:i] + [a]), sep,
                        OpaqueStr.make([b] + self.parts[i + 1:]))
        return '', '', self

    def rsplit(self, sep, n):
        a, s, b = self.rpartition(sep)
        return [a, b] if s else [b]

    def strip(self, *a):
        return self

    def lower(self):
        return self

    def __len__(self):
        engine.cur().unsupported('len of opaque str')

    def encode(self, *a):
        return OpaqueBytes(self)

    def __contains__(self, o):
        if not is_sym(o):
            return any(not is_sym(p) and o in p for p in self.parts)
        engine.cur().unsupported('in opaque str')


class OpaqueBytes:
    _sym = True

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, *a):
        return self.s

    def __eq__(self, o):
        return type(o) is OpaqueBytes and self.s == o.s

    def __hash__(self):
        return 0x61


class _Bound:
    __slots__ = ('o', 'n')

    def __init__(self, o, n):
        self.o, self.n = o, n

    def __call__(self, *a, **kw):
        o = self.o
        if any(is_sym(x) for x in a) or (
                self.n == 'join' and a and not is_sym(a[0])):
            if self.n == 'join':
                items = list(a[0])
                if not any(is_sym(x) for x in items):
                    return o.join(items)
                if any(type(x) in (OpaqueStr,) or (is_sym(x) and type(x) not in (SymStr, SymBytes))
                       for x in items):
                    parts = []
                    for i, x in enumerate(items):
                        if i:
                            parts.append(o)
                        parts.append(x)
                    return OpaqueStr.make(parts)
                a = (items,)
            cls = SymStr if isinstance(o, str) else SymBytes
            lifted = cls([ord(c) for c in o] if cls is SymStr else list(o))
            return getattr(lifted, self.n)(*a, **kw)
        return getattr(o, self.n)(*a, **kw)


DICT_METHODS = {'get', 'pop', 'setdefault', 'discard', 'remove', 'add'}


def resolve_key(container, k):
    """If a symbolic str/int k equals a key already in container, returns that key.
    Forks on the comparison."""
    if type(k) in (SymStr, SymInt, SymBytes, OpaqueStr, SymIso):
        for c in list(container):
            if c is k:
                return c
            if isinstance(c, (str, int, bytes)) and not isinstance(c, bool) and bool(k == c):
                return c
    elif type(k) in (str, int, bytes) and any(is_sym(c) for c in container):
        for c in list(container):
            if is_sym(c) and isinstance(c, type(k)) and bool(c == k):
                return c
    return k


class _BoundDict:
    __slots__ = ('o', 'n')

    def __init__(self, o, n):
        self.o, self.n = o, n

    def __call__(self, *a, **kw):
        if a:
            a = (resolve_key(self.o, a[0]),) + a[1:]
        return getattr(self.o, self.n)(*a, **kw)


def vf_meth(obj, name):
    t = type(obj)
    if t is str or t is bytes:
        return _Bound(obj, name)
    if name in DICT_METHODS and (t is dict or t is set or t is _defaultdict or t is _OrderedDict):
        return _BoundDict(obj, name)
    return getattr(obj, name)


def vf_getitem(obj, idx):
    if type(idx) is SymInt:
        t = type(obj)
        if t is str or t is bytes:
            from .values import zint
            e = idx.e
            n = len(obj)
            c = engine.cur()
            if not c.branch(z3.And(e >= -n, e < n)):
                raise IndexError('index out of range')
            if not c.branch(e >= 0):
                e = e + n
            codes = [ord(x) for x in obj] if t is str else list(obj)
            table = tuple(codes)
            hit = c.inverse.get((table, 'at', e.get_id()))
            if hit is not None:
                return SymStr.make([hit[0]]) if t is str else mk_int(hit[0])
            runs = []
            for k, code in enumerate(codes):
                if runs and runs[-1][2] + (k - runs[-1][0]) == code:
                    runs[-1][1] = k
                else:
                    runs.append([k, k, code])
            r = None
            for a, b, code in reversed(runs):
                v = e - a + code
                r = v if r is None else z3.If(e <= b, v, r)
            r = z3.simplify(r)
            if not z3.is_int_value(r):
                c.bounded(r, min(table), max(table))
                c.codes[r.get_id()] = (set(table), r)
            if not z3.is_int_value(r) and len(set(table)) == n:
                c.inverse[table, r.get_id()] = (e, r)
            return SymStr.make([r]) if t is str else mk_int(r)
    if isinstance(obj, dict) and (is_sym(idx) or type(idx) in (str, int)):
        return obj[resolve_key(obj, idx)]
    return obj[idx]


def vf_in(a, b):
    """a in b"""
    if is_sym(a) and type(b) is str:
        if type(a) is SymStr:
            return SymStr([ord(c) for c in b]).__contains__(a)
        return False
    if is_sym(a) and type(b) in (dict, set, frozenset) and not getattr(
            type(a), '_symkey', False):
        # hash-based containers can hold concrete keys equal to a symbolic one
        return resolve_key(b, a) in b
    if type(b) in (dict, set, frozenset) and type(a) in (str, int):
        return resolve_key(b, a) in b
    return a in b


def vf_notin(a, b):
    return not vf_in(a, b)


class Transformer(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant('')
                args.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec],
                                      ast.Load()))
        return ast.copy_location(
            ast.Call(ast.Name('__vf_fstr__', ast.Load()), args, []), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and (f.attr in STR_METHODS or f.attr in DICT_METHODS):
            node.func = ast.copy_location(
                ast.Call(ast.Name('__vf_meth__', ast.Load()),
                         [f.value, ast.Constant(f.attr)], []), f)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Constant):
                return node
            return ast.copy_location(
                ast.Call(ast.Name('__vf_getitem__', ast.Load()),
                         [node.value, node.slice], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = '__vf_in__' if isinstance(node.ops[0], ast.In) else '__vf_notin__'
            return ast.copy_location(
                ast.Call(ast.Name(name, ast.Load()),
                         [node.left, node.comparators[0]], []), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


# ---------------------------------------------------------------------------
# builtins

class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls._real or type.__eq__(cls, o) is True

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __or__(cls, o):
        return cls._real | getattr(o, '_real', o)

    def __ror__(cls, o):
        return getattr(o, '_real', o) | cls._real


class IntShim(metaclass=_Meta):
    _real = int

    def __new__(cls, x=0, *a, **kw):
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            from .values import zint
            return mk_int(zint(x))
        if isinstance(x, float) and t is not float:
            return x.trunc()
        if t is SymStr or t is SymBytes:
            if a or kw:
                engine.cur().unsupported('int(str, base)')
            if not x.isdigit():
                # signs/underscores/whitespace are not modelled
                c = engine.cur()
                from .values import _orz
                odd = _orz([z3.Or(ch == 43, ch == 45, ch == 95, ch <= 32, ch > 127)
                            if not isinstance(ch, int) else ch in (43, 45, 95) or ch <= 32
                            for ch in x.chars])
                if c.branch(odd):
                    c.unsupported('int() of unusual string')
                raise ValueError('invalid literal for int()')
            v = 0
            for ch in x.chars:
                v = v * 10 + (ch - 48)
            return mk_int(z3.simplify(v) if not isinstance(v, int) else v)
        s = getattr(t, '_symint', None)
        if s is not None:
            return s(x)
        return int(x, *a, **kw)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if type(b) is SymBytes:
            chars = b.chars if byteorder == 'big' else list(reversed(b.chars))
            c = engine.cur()
            key = ('from_bytes', tuple(x.get_id() if not isinstance(x, int) else ('c', x)
                                       for x in chars))
            hit = c.memo.get(key)
            if hit is not None:
                return mk_int(hit[0])
            v = 0
            for ch in chars:
                v = v * 256 + ch
            return mk_int(z3.simplify(v))
        return int.from_bytes(b, byteorder, signed=signed)


class StrShim(metaclass=_Meta):
    _real = str

    def __new__(cls, x='', *a, **kw):
        if is_sym(x) and isinstance(x, str):
            return x
        if is_sym(x) and isinstance(x, bytes) and a:
            return x.decode(*a)
        j = getattr(type(x), '_symfstr', None)
        if j is not None:
            return j(x)
        return str(x, *a, **kw)


class BytesShim(metaclass=_Meta):
    _real = bytes

    def __new__(cls, x=b'', *a, **kw):
        if is_sym(x) and isinstance(x, bytes):
            return x
        if type(x) is SymStr:
            return x.encode(*a)
        j = getattr(type(x), '_symbytes', None)
        if j is not None:
            return j(x)
        if isinstance(x, (list, tuple)) and any(is_sym(i) for i in x):
            from .values import zint
            return SymBytes.make([zint(i) for i in x])
        return bytes(x, *a, **kw)


class FloatShim(metaclass=_Meta):
    _real = float

    def __new__(cls, x=0.0):
        t = type(x)
        if t is SymInt:
            return SymReal(z3.ToReal(x.e))
        if is_sym(x) and isinstance(x, float):
            return x
        return float(x)


class RangeShim(metaclass=_Meta):
    _real = range

    def __new__(cls, *a):
        if not any(is_sym(x) for x in a):
            return range(*a)
        return cls._gen(*a)

    @staticmethod
    def _gen(a, b=None, step=1):
        lo, hi = (0, a) if b is None else (a, b)
        if is_sym(step):
            step = step.__index__()
        i = lo
        n = 0
        while (i < hi) if step > 0 else (i > hi):
            yield i
            i = i + step
            n += 1
            if n > 5000:
                engine.cur().unsupported('range too long')


def sym_len(x):
    f = getattr(type(x), '_symlen', None)
    if f is not None:
        return f(x)
    return len(x)


def sym_ord(x):
    if type(x) is SymStr and len(x.chars) == 1:
        return mk_int(x.chars[0])
    if type(x) is SymBytes and len(x.chars) == 1:
        return mk_int(x.chars[0])
    return ord(x)


def sym_chr(x):
    if type(x) is SymInt:
        return SymStr.make([x.e])
    return chr(x)


def _minmax(args, kw, less):
    items = list(args[0]) if len(args) == 1 else list(args)
    key = kw.get('key')
    if not items:
        if 'default' in kw:
            return kw['default']
        raise ValueError('arg is an empty sequence')
    if key is None and all(type(x) in (SymInt, int) for x in items) and any(
            type(x) is SymInt for x in items):
        r = items[0]
        for x in items[1:]:
            from .values import zint, SymInt as SI
            a, b = zint(x), zint(r)
            cond = (a < b) if less else (a > b)
            r = mk_int(z3.simplify(z3.If(cond, a, b)))
        return r
    best = items[0]
    bk = key(best) if key else best
    for x in items[1:]:
        xk = key(x) if key else x
        if (xk < bk) if less else (xk > bk):
            best, bk = x, xk
    return best


def sym_min(*args, **kw):
    return _minmax(args, kw, True)


def sym_max(*args, **kw):
    return _minmax(args, kw, False)


def sym_divmod(a, b):
    return a // b, a % b


def sym_round(x, n=None):
    return round(x) if n is None else round(x, n)


SYM_BUILTINS = {
    'int': IntShim, 'str': StrShim, 'bytes': BytesShim, 'float': FloatShim,
    'range': RangeShim, 'len': sym_len, 'ord': sym_ord, 'chr': sym_chr,
    'min': sym_min, 'max': sym_max, 'divmod': sym_divmod,
    '__vf_fstr__': vf_fstr, '__vf_meth__': vf_meth, '__vf_getitem__': vf_getitem,
    '__vf_in__': vf_in, '__vf_notin__': vf_notin,
}


# ---------------------------------------------------------------------------

_code_cache = {}


class Yielder(ast.NodeTransformer):
    """Inserts a yield point before every statement of functions, and between evaluating and
    storing the value of an assignment to something shared."""
    def __init__(self, only=None, tree=None):
        self.only = only
        self.depth = 0
        # module level variables
        self.vars = {'self', 'cls', 'server'}
        for st in (tree.body if tree else ()):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else ()):
                if isinstance(t, ast.Name) and not t.id.isupper() and t.id != 'logger':
                    self.vars.add(t.id)
        for n in ast.walk(tree) if tree else ():
            if isinstance(n, ast.Global):
                self.vars.update(n.names)

    def visit_FunctionDef(self, node):
        if self.only is not None and self.depth == 0 and node.name not in self.only:
            return node
        self.depth += 1
        self.globals = {n for st in ast.walk(node) if isinstance(st, ast.Global) for n in st.names}
        before = getattr(self, 'names', None)
        self.names = set(self.vars)
        # locals that refer to the same objects
        while True:
            n0 = len(self.names)
            for st in ast.walk(node):
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                    v = st.value
                    while isinstance(v, (ast.Attribute, ast.Subscript)):
                        v = v.value
                    if isinstance(v, ast.Name) and v.id in self.names:
                        self.names.add(st.targets[0].id)
            if len(self.names) == n0:
                break
        for st in node.body:
            self.visit(st)
        node.body = self.block(node.body)
        if before is not None:
            self.names = before
        self.depth -= 1
        return node

    @staticmethod
    def call():
        return ast.Expr(ast.Call(ast.Name('__yp__', ast.Load()), [], []))

    def shared(self, st):
        # only the parts evaluated by the statement itself
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal,
                           ast.Break, ast.Continue, ast.Try, ast.Import, ast.ImportFrom)):
            return False
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return False
        if isinstance(st, (ast.If, ast.While)):
            parts = [st.test]
        elif isinstance(st, ast.For):
            parts = [st.iter]
        elif isinstance(st, ast.With):
            parts = [i.context_expr for i in st.items]
        else:
            parts = [st]
        for p in parts:
            for n in ast.walk(p):
                if isinstance(n, ast.Call):
                    f = n.func
                    if (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)
                            and f.value.id == 'logger') or (isinstance(f, ast.Name) and f.id == 'log'):
                        return False
                if isinstance(n, ast.Name) and n.id in self.names:
                    return True
        return False

    def block(self, stmts):
        out = []
        for st in stmts:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(st, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(
                        st, (ast.FunctionDef, ast.ClassDef)):
                    setattr(st, f, self.block(b))
            for h in getattr(st, 'handlers', ()):
                h.body = self.block(h.body)
            if self.shared(st):
                out.append(self.call())
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and self.store(st.targets[0]) and any(
                    isinstance(n, ast.Call) for n in ast.walk(st.value)):
                out.append(ast.Assign([ast.Name('__vf_tmp__', ast.Store())], st.value))
                out.append(self.call())
                st.value = ast.Name('__vf_tmp__', ast.Load())
            elif isinstance(st, ast.AugAssign) and self.store(st.target) and any(
                    isinstance(n, ast.Call) for n in ast.walk(st.value)):
                import copy
                load = copy.deepcopy(st.target)
                for n in ast.walk(load):
                    if hasattr(n, 'ctx'):
                        n.ctx = ast.Load()
                out.append(ast.Assign([ast.Name('__vf_tmp__', ast.Store())],
                                      ast.BinOp(load, st.op, st.value)))
                out.append(self.call())
                st = ast.Assign([st.target], ast.Name('__vf_tmp__', ast.Load()))
            out.append(st)
        return out

    def store(self, t):
        return isinstance(t, (ast.Attribute, ast.Subscript)) or (
            isinstance(t, ast.Name) and t.id in self.globals)


def code_for(path, mode, yields=None):
    """yields: None, or 'all' or a tuple of names of the functions that get yield points"""
    key = (path, mode, yields)
    if key not in _code_cache:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        if yields is not None:
            tree = Yielder(None if yields == 'all' else yields, tree).visit(tree)
            ast.fix_missing_locations(tree)
        if mode == 'sym':
            tree = Transformer().visit(tree)
            ast.fix_missing_locations(tree)
        _code_cache[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _code_cache[key]


class ModProxy(types.ModuleType):
    """A library module with some attributes replaced."""
    def __init__(self, real, **attrs):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


class Loader:
    PKG = 'arroba'

    def __init__(self, mode, overrides, repo=None, yields=None):
        self._mode = mode
        self._yields = yields or {}
        self._overrides = overrides          # dotted library name -> module-like
        self._repo = repo or REPO
        self.modules = {}
        b = dict(vars(builtins))
        if mode == 'sym':
            b.update(SYM_BUILTINS)
        b['__import__'] = self._import
        b['__yp__'] = lambda: None
        self.builtins = b
        pkg = types.ModuleType(self.PKG)
        pkg.__path__ = [os.path.join(self._repo, 'arroba')]
        self.modules[self.PKG] = pkg

    def get(self, name):
        """Loads arroba.<name>."""
        full = f'{self.PKG}.{name}'
        if full in self.modules:
            return self.modules[full]
        path = os.path.join(self._repo, 'arroba', name.replace('.', '/') + '.py')
        if not os.path.exists(path):
            raise ImportError(f'no module {full}')
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = self.PKG
        m.__dict__['__builtins__'] = self.builtins
        self.modules[full] = m
        setattr(self.modules[self.PKG], name, m)
        try:
            exec(code_for(path, self._mode, self._yields.get(name)), m.__dict__)
        except BaseException:
            del self.modules[full]
            raise
        return m

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return self.get(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == self.PKG or name.startswith(self.PKG + '.'):
            if level > 0:
                full = self.PKG + ('.' + name if name else '')
            else:
                full = name
            if full == self.PKG:
                for f in fromlist or ():
                    p = os.path.join(self._repo, 'arroba', f + '.py')
                    if os.path.exists(p):
                        self.get(f)
                return self.modules[self.PKG]
            m = self.get(full[len(self.PKG) + 1:])
            if not fromlist and level == 0:
                return self.modules[self.PKG]
            return m

        ov = self._overrides
        if name in ov:
            if fromlist:
                return ov[name]
            root = name.split('.')[0]
            return self._root(root)
        # from google.cloud import ndb
        if fromlist:
            hit = {f: ov[f'{name}.{f}'] for f in fromlist if f'{name}.{f}' in ov}
            if hit:
                try:
                    real = builtins.__import__(name, globals, locals,
                                               [f for f in fromlist if f not in hit] or ['__name__'], 0)
                except ImportError:
                    real = types.ModuleType(name)
                return ModProxy(real, **hit)
            return builtins.__import__(name, globals, locals, fromlist, 0)
        root = name.split('.')[0]
        mod = builtins.__import__(name, globals, locals, (), 0)
        if any(k == root or k.startswith(root + '.') for k in ov):
            return self._root(root)
        return mod

    def _root(self, root):
        ov = self._overrides
        if root in ov:
            base = ov[root]
        else:
            base = builtins.__import__(root)
        subs = {}
        for k in ov:
            parts = k.split('.')
            if parts[0] == root and len(parts) == 2:
                subs[parts[1]] = ov[k]
            elif parts[0] == root and len(parts) > 2:
                # nested: build proxies
                real = builtins.__import__('.'.join(parts[:2]), fromlist=['x'])
                subs.setdefault(parts[1], ModProxy(real, **{parts[2]: ov[k]}))
        if not subs:
            return base
        return ModProxy(base, **subs)
