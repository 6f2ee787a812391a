"""Symbolic proxies for Python ints, bools, strs, bytes and datetimes.

SymInt is a z3 *mathematical* integer (Python's int). SymStr/SymBytes have a concrete
length and a list of code points, each a Python int or a z3 Int term.
"""
import builtins
import datetime as _dt
import operator as _operator
import z3

from . import engine
from .engine import cur

_int, _str, _bytes, _len, _bool = int, str, bytes, len, bool


def is_sym(x):
    return getattr(type(x), '_sym', False)


def zint(x):
    """Python int or SymInt or SymBool -> z3 expr or int."""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is _bool:
        return 1 if x else 0
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, _int):
        return x
    return None


def mk_bool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk_int(e):
    if isinstance(e, _int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymBool:
    _sym = True
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return _bool

    def __bool__(self):
        c = cur()
        if c is None:
            raise RuntimeError('symbolic bool outside run')
        return c.branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mk_bool(self.e == o.e)
        if isinstance(o, _bool):
            return self if o else mk_bool(z3.Not(self.e))
        if type(o) is SymInt or isinstance(o, (_int, float)):
            return (1 if self else 0) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    def __hash__(self):
        return hash(_bool(self))

    def __and__(self, o):
        return AND(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return OR(self, o)
    __ror__ = __or__

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def __repr__(self):
        return '<symbool>'

    def __xor__(self, o):
        return NOT(self == o) if isinstance(o, _bool) else _operator.xor(int(self), o)
    __rxor__ = __xor__

    def __round__(self, n=None):
        return int(self)


# a bool is an int
for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'lshift', 'rshift', 'pow'):
    def _op(self, o, _f=getattr(_operator, f'__{_n}__')):
        return _f(int(self), o)

    def _rop(self, o, _f=getattr(_operator, f'__{_n}__')):
        return _f(o, int(self))
    setattr(SymBool, f'__{_n}__', _op)
    setattr(SymBool, f'__r{_n}__', _rop)
for _n in ('lt', 'le', 'gt', 'ge'):
    def _op(self, o, _f=getattr(_operator, f'__{_n}__')):
        return _f(int(self), int(o) if type(o) is SymBool else o)
    setattr(SymBool, f'__{_n}__', _op)
for _n in ('neg', 'pos', 'abs', 'invert'):
    def _op(self, _f=getattr(_operator, f'__{_n}__')):
        return _f(int(self))
    setattr(SymBool, f'__{_n}__', _op)


def _ez(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if t is _bool:
        return z3.BoolVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    return z3.BoolVal(_bool(x))


def AND(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif isinstance(x, z3.ExprRef):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return mk_bool(out[0] if len(out) == 1 else z3.And(*out))


def OR(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif isinstance(x, z3.ExprRef):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return mk_bool(out[0] if len(out) == 1 else z3.Or(*out))


def NOT(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x.e))
    if isinstance(x, z3.ExprRef):
        return mk_bool(z3.Not(x))
    return not x


def IMPLIES(a, b):
    return OR(NOT(a), b)


def ITE(c, a, b):
    """For ints."""
    if type(c) is not SymBool:
        return a if c else b
    return mk_int(z3.If(c.e, zint(a), zint(b)))


class SymInt:
    """b + k: a z3 expression plus a constant, so that comparing and adding constants is cheap."""
    _sym = True
    __slots__ = ('b', 'k', '_e')

    def __init__(self, e, k=0):
        self.b = e
        self.k = k
        self._e = e if k == 0 else None

    @property
    def e(self):
        if self._e is None:
            self._e = z3.simplify(self.b + self.k)
        return self._e

    def _same(self, o):
        return type(o) is SymInt and (o.b is self.b or o.b.eq(self.b))

    @property
    def __class__(self):
        return _int

    def __hash__(self):
        return 0x51

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().concretize(self.e)
    __int__ = __index__

    def __float__(self):
        return float(cur().concretize(self.e))

    def __repr__(self):
        return '<symint>'

    def __str__(self):
        return '<symint>'

    def __format__(self, spec):
        return '<symint>'

    def _cmp(self, o, op):
        if self._same(o):
            return op(self.k, o.k)
        z = zint(o)
        if z is None:
            return NotImplemented
        return mk_bool(z3.simplify(op(self.e, z)))

    def __eq__(self, o):
        if self._same(o):
            return self.k == o.k
        z = zint(o)
        if z is None:
            return False if o is None or isinstance(o, (_str, _bytes)) else NotImplemented
        return mk_bool(z3.simplify(self.e == z))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    def __lt__(self, o):
        if isinstance(o, float):
            return mk_bool(z3.ToReal(self.e) < z3.RealVal(repr(o)))
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if isinstance(o, float):
            return mk_bool(z3.ToReal(self.e) <= z3.RealVal(repr(o)))
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if isinstance(o, float):
            return mk_bool(z3.ToReal(self.e) > z3.RealVal(repr(o)))
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if isinstance(o, float):
            return mk_bool(z3.ToReal(self.e) >= z3.RealVal(repr(o)))
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, op):
        z = zint(o)
        if z is None:
            return NotImplemented
        e = self.e
        r = z3.simplify(op(e, z))
        ranges = cur().ranges
        a = ranges.get(e.get_id())
        if a is not None:
            # keeps bounds that are lost when terms are merged
            b = (z, z) if isinstance(z, _int) else ranges.get(z.get_id())
            if b is not None and not z3.is_int_value(r):
                ends = [op(x, y) for x in a[:2] for y in b[:2]]
                lo, hi = min(ends), max(ends)
                old = ranges.get(r.get_id())
                if old is not None:
                    lo, hi = max(lo, old[0]), min(hi, old[1])
                ranges[r.get_id()] = (lo, hi, r)
        return mk_int(r)

    def __add__(self, o):
        if isinstance(o, (_dt.timedelta, _dt.datetime)):
            return NotImplemented
        if type(o) is _int:
            return SymInt(self.b, self.k + o) if o else self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if type(o) is _int:
            return SymInt(self.b, self.k + o) if o else self
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if type(o) is _int:
            return SymInt(self.b, self.k - o) if o else self
        if self._same(o):
            return self.k - o.k
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, _dt.timedelta) or type(o) is SymTimedelta:
            return SymTimedelta.of(o) * self
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.e < 0, -self.e, self.e))

    @staticmethod
    def _posdiv(a, b):
        """both z3/int; divisor must be known positive."""
        if isinstance(b, _int):
            if b > 0:
                return
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            cur().unsupported('division by a negative constant')
        if cur().branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not cur().branch(b > 0):
            cur().unsupported('division by a negative symbolic value')

    def __floordiv__(self, o):
        if type(o) is SymTimedelta or isinstance(o, _dt.timedelta):
            return NotImplemented
        z = zint(o)
        if z is None:
            return NotImplemented
        self._posdiv(self.e, z)
        if isinstance(z, _int):
            return mk_int(cur().divmod(self.e, z)[0])
        return mk_int(z3.simplify(self.e / z))

    def __rfloordiv__(self, o):
        z = zint(o)
        if z is None:
            return NotImplemented
        self._posdiv(z, self.e)
        return mk_int(z3.simplify(z3.IntVal(z) / self.e if isinstance(z, _int) else z / self.e))

    def __mod__(self, o):
        z = zint(o)
        if z is None:
            return NotImplemented
        self._posdiv(self.e, z)
        if isinstance(z, _int):
            return mk_int(cur().divmod(self.e, z)[1])
        return mk_int(z3.simplify(self.e % z))

    def __rmod__(self, o):
        z = zint(o)
        if z is None:
            return NotImplemented
        self._posdiv(z, self.e)
        return mk_int(z3.simplify((z3.IntVal(z) if isinstance(z, _int) else z) % self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        z = zint(o)
        if z is None:
            return NotImplemented
        return SymReal(z3.simplify(z3.ToReal(self.e) / (z3.ToReal(z) if isinstance(z, z3.ExprRef) else z3.RealVal(z))))

    def __lshift__(self, o):
        if not isinstance(o, _int) or is_sym(o):
            o = o.__index__()
        return self * (1 << o)

    def __rshift__(self, o):
        if is_sym(o):
            o = o.__index__()
        return self // (1 << o)

    def __and__(self, o):
        z = zint(o)
        if isinstance(z, _int) and z >= 0 and (z & (z + 1)) == 0:
            return self % (z + 1)
        if isinstance(z, _int) and z > 0:
            # contiguous mask
            low = (z & -z)
            if ((z // low) & (z // low + 1)) == 0:
                return ((self // low) % (z // low + 1)) * low
        cur().unsupported('bitwise and')

    __rand__ = __and__

    def __or__(self, o):
        # disjoint constant/low bits only
        c = cur()
        z = zint(o)
        if isinstance(z, _int):
            if z == 0:
                return self
            n = z.bit_length()
            if c.branch(self.e % (1 << n) == 0):
                return self + z
        elif z is not None:
            # a<<k | b with b < 2^k: try k=5,10
            for k in (5, 10, 8, 16):
                if c.branch(z3.And(self.e % (1 << k) == 0, z >= 0, z < (1 << k))):
                    return self + o
        c.unsupported('bitwise or')

    __ror__ = __or__

    def __xor__(self, o):
        cur().unsupported('bitwise xor')

    def __pow__(self, o):
        if o == 2:
            return self * self
        cur().unsupported('pow')

    def bit_length(self):
        n = 0
        x = self
        while cur().branch(x.e >= (1 << n)) if type(x) is SymInt else x >= (1 << n):
            n += 1
            if n > 264:
                cur().unsupported('bit_length')
        return n

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            cur().unsupported('signed to_bytes')
        if cur().branch(z3.Or(self.e < 0, self.e >= 256 ** length)):
            raise OverflowError('int too big to convert')
        key = ('to_bytes', self.e.get_id(), length)
        c = cur()
        got = c.memo.get(key)
        if got is None:
            # bytes are fresh vars constrained by the (unique) positional expansion:
            # far easier on the solver than nested div/mod
            vs = []
            tot = 0
            nm = c.fresh('tb')
            for i in range(length):
                v = z3.Int(f'{nm}[{i}]')
                c.add(z3.And(v >= 0, v <= 255))
                c.bounded(v, 0, 255)
                vs.append(v)
                tot = tot * 256 + v
            c.add(tot == self.e)
            c.model_ = None
            got = c.memo[key] = (vs, self.e)
            c.memo[('from_bytes', tuple(v.get_id() for v in vs))] = (self.e, vs)
        vs = list(got[0])
        if byteorder == 'little':
            vs.reverse()
        return SymBytes.make(vs)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


class SymReal:
    """Real-valued (not IEEE): used only for durations in seconds."""
    _sym = True
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 0x52

    @staticmethod
    def _z(o):
        if type(o) is SymReal:
            return o.e
        if type(o) is SymInt:
            return z3.ToReal(o.e)
        if isinstance(o, (_int, float)):
            import fractions
            f = fractions.Fraction(o)
            return z3.Q(f.numerator, f.denominator)
        return None

    def _b(self, o, op, wrap):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return wrap(z3.simplify(op(self.e, z)))

    def __lt__(self, o): return self._b(o, lambda a, b: a < b, mk_bool)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, mk_bool)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, mk_bool)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, mk_bool)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b, mk_bool)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    def __add__(self, o): return self._b(o, lambda a, b: a + b, SymReal)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b, SymReal)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a, SymReal)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b, SymReal)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b, SymReal)

    def __neg__(self): return SymReal(-self.e)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def trunc(self):
        # int() truncates toward zero
        return mk_int(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    def ceil(self):
        return mk_int(z3.simplify(-z3.ToInt(-self.e)))

    def floor(self):
        return mk_int(z3.simplify(z3.ToInt(self.e)))

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, n=None):
        if n is None:
            return mk_int(z3.simplify(z3.ToInt(self.e + z3.Q(1, 2))))
        cur().unsupported('round')

    def __int__(self):
        r = self.trunc()
        return r if not is_sym(r) else r.__index__()

    def __float__(self):
        cur().unsupported('float() of symbolic real')

    def __repr__(self): return '<symreal>'
    def __format__(self, s): return '<symreal>'


class SymFP(SymReal):
    """An IEEE double, over-approximated: after each operation the exact real result is
    perturbed by at most half an ulp of its binade."""
    __slots__ = ()

    @staticmethod
    def rounded(e):
        c = cur()
        d = z3.Real(c.fresh('fperr'))
        absr = z3.If(e >= 0, e, -e)
        cases = [z3.And(absr < 1, d <= z3.Q(1, 2 ** 54), d >= -z3.Q(1, 2 ** 54))]
        for k in range(0, 64):
            h = z3.Q(2 ** k, 2 ** 53)
            cases.append(z3.And(absr >= 2 ** k, absr < 2 ** (k + 1), d <= h, d >= -h))
        c.add(z3.Or(*cases))
        c.model_ = None
        return SymFP(e + d)

    def _b(self, o, op, wrap):
        z = self._z(o)
        if z is None:
            return NotImplemented
        r = op(self.e, z)
        return SymFP.rounded(r) if wrap is SymReal else wrap(z3.simplify(r))


# ---------------------------------------------------------------------------
# strings

def _ceq(a, b):
    """equality of two chars -> bool or z3"""
    if isinstance(a, _int):
        if isinstance(b, _int):
            return a == b
        return b == a
    if isinstance(b, _int):
        return a == b
    if a.eq(b):
        return True
    return a == b


def _clt(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a < b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return False
    if isinstance(a, _int):
        return b > a
    return a < b


def _andz(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if _len(out) == 1 else z3.And(*out)


def _orz(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if _len(out) == 1 else z3.Or(*out)


def seq_eq(a, b):
    if _len(a) != _len(b):
        return False
    return _andz([_ceq(x, y) for x, y in zip(a, b)])


def seq_lt(a, b, strict=True):
    """Lexicographic a < b (or <=)."""
    n = min(_len(a), _len(b))
    # base: all n equal
    acc = (_len(a) < _len(b)) if strict else (_len(a) <= _len(b))
    for i in range(n - 1, -1, -1):
        lt = _clt(a[i], b[i])
        eq = _ceq(a[i], b[i])
        if lt is True:
            acc = True
        elif eq is True:
            pass
        elif eq is False and lt is False:
            acc = False
        else:
            acc = _orz([lt, _andz([eq, acc])])
    return acc


class _SymSeq:
    _sym = True
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = chars

    @classmethod
    def make(cls, chars):
        out = []
        conc = True
        for c in chars:
            if not isinstance(c, _int):
                if z3.is_int_value(c):
                    c = c.as_long()
                else:
                    conc = False
            out.append(c)
        if conc:
            return cls._conc(out)
        return cls(out)

    def __len__(self):
        return _len(self.chars)

    def __bool__(self):
        return _len(self.chars) > 0

    def __hash__(self):
        return 0x53

    def __repr__(self):
        return '<sym' + self._tname + '>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __fspath__(self):
        cur().unsupported('fspath of symbolic str')

    def _co(self, o):
        """chars of a comparable operand, or None."""
        raise NotImplementedError

    def _need(self, o):
        c = self._co(o)
        if c is None:
            raise TypeError(f'expected {self._tname}, got {type(o)}')
        return c

    def __eq__(self, o):
        if o is self:
            return True
        c = self._co(o)
        if c is None:
            return NotImplemented if is_sym(o) else False
        return mk_bool(seq_eq(self.chars, c))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    def __lt__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mk_bool(seq_lt(self.chars, c))

    def __le__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mk_bool(seq_lt(self.chars, c, False))

    def __gt__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mk_bool(seq_lt(c, self.chars))

    def __ge__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mk_bool(seq_lt(c, self.chars, False))

    def __add__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self.make(self.chars + c)

    def __radd__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self.make(c + self.chars)

    def __mul__(self, n):
        return self.make(self.chars * _int(n))
    __rmul__ = __mul__

    def _idx(self, i):
        if isinstance(i, slice):
            f = lambda x: None if x is None else (x.__index__() if is_sym(x) else x)
            return slice(f(i.start), f(i.stop), f(i.step))
        return i.__index__() if is_sym(i) else i

    def _match_at(self, sub, i):
        return _andz([_ceq(a, b) for a, b in zip(self.chars[i:i + _len(sub)], sub)])

    def __contains__(self, o):
        sub = self._need(o)
        n = _len(sub)
        if n > _len(self.chars):
            return False
        e = _orz([self._match_at(sub, i) for i in range(_len(self.chars) - n + 1)])
        return _bool(mk_bool(e))

    def contains(self, o):
        sub = self._need(o)
        n = _len(sub)
        if n > _len(self.chars):
            return False
        return mk_bool(_orz([self._match_at(sub, i)
                             for i in range(_len(self.chars) - n + 1)]))

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple) and not is_sym(p):
            return OR(*[self.startswith(x, start, end) for x in p])
        me = self.chars[start:end]
        sub = self._need(p)
        if _len(sub) > _len(me):
            return False
        return mk_bool(seq_eq(me[:_len(sub)], sub))

    def endswith(self, p):
        if isinstance(p, tuple) and not is_sym(p):
            return OR(*[self.endswith(x) for x in p])
        sub = self._need(p)
        if _len(sub) > _len(self.chars):
            return False
        return mk_bool(seq_eq(self.chars[_len(self.chars) - _len(sub):], sub))

    def removeprefix(self, p):
        if self.startswith(p):
            return self.make(self.chars[_len(p):])
        return self

    def removesuffix(self, p):
        if _len(p) and self.endswith(p):
            return self.make(self.chars[:_len(self.chars) - _len(p)])
        return self

    def find(self, sub, start=0, end=None):
        sub = self._need(sub)
        n = _len(sub)
        stop = _len(self.chars) if end is None else min(end, _len(self.chars))
        for i in range(start, stop - n + 1):
            if _bool(mk_bool(self._match_at(sub, i))):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = self._need(sub)
        n = _len(sub)
        stop = _len(self.chars) if end is None else min(end, _len(self.chars))
        for i in range(stop - n, start - 1, -1):
            if _bool(mk_bool(self._match_at(sub, i))):
                return i
        return -1

    def index(self, sub, *a):
        if _len(self._need(sub)) == 1 and not a:
            # index of a char: fork-free for concrete haystack
            if all(isinstance(c, _int) for c in self.chars):
                ch = self._need(sub)[0]
                if not isinstance(ch, _int):
                    ctx, table = cur(), tuple(self.chars)
                    hit = ctx.inverse.get((table, ch.get_id()))
                    if hit is not None:
                        return mk_int(hit[0])
                    # contiguous runs keep the term linear
                    i = 0
                    runs = []
                    first = {}
                    for k, c in enumerate(self.chars):
                        first.setdefault(c, k)
                    items = sorted(first.items())
                    for c, k in items:
                        if runs and runs[-1][1] + 1 == c and runs[-1][2] + (c - runs[-1][0]) == k:
                            runs[-1][1] = c
                        else:
                            runs.append([c, c, k])
                    inside = _orz([z3.And(ch >= a0, ch <= b0) for a0, b0, _ in runs])
                    if not cur().branch(inside):
                        raise ValueError('substring not found')
                    e = None
                    for a0, b0, k in reversed(runs):
                        v = ch - a0 + k
                        e = v if e is None else z3.If(z3.And(ch >= a0, ch <= b0), v, e)
                    e = z3.simplify(e)
                    if not z3.is_int_value(e):
                        e = ctx.define('$index', e, 0, _len(table) - 1)
                        if _len(first) == _len(table):
                            ctx.inverse[table, ch.get_id()] = (e, ch)
                            ctx.inverse[table, 'at', e.get_id()] = (ch, e)
                    return mk_int(e)
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        sub = self._need(sub)
        i = n = 0
        while i + _len(sub) <= _len(self.chars):
            if _bool(mk_bool(self._match_at(sub, i))):
                n += 1
                i += _len(sub)
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            cur().unsupported('split on whitespace')
        sub = self._need(sep)
        out, curc, i, n = [], [], 0, _len(sub)
        while i < _len(self.chars):
            if (maxsplit < 0 or _len(out) < maxsplit) and i + n <= _len(self.chars) \
                    and _bool(mk_bool(self._match_at(sub, i))):
                out.append(self.make(curc))
                curc = []
                i += n
            else:
                curc.append(self.chars[i])
                i += 1
        out.append(self.make(curc))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        sub = self._need(sep)
        n = _len(sub)
        out, end, i = [], _len(self.chars), _len(self.chars) - n
        while i >= 0 and _len(out) < maxsplit:
            if _bool(mk_bool(self._match_at(sub, i))):
                out.insert(0, self.make(self.chars[i + n:end]))
                end = i
                i -= n
            else:
                i -= 1
        out.insert(0, self.make(self.chars[:end]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._empty, self._empty
        return (self.make(self.chars[:i]), sep, self.make(self.chars[i + _len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._empty, self._empty, self
        return (self.make(self.chars[:i]), sep, self.make(self.chars[i + _len(sep):]))

    def _stripset(self, chars):
        if chars is None:
            return [9, 10, 11, 12, 13, 28, 29, 30, 31, 32] if self._tname == 'str' else [9, 10, 11, 12, 13, 32]
        return self._need(chars)

    def lstrip(self, chars=None):
        s = self._stripset(chars)
        i = 0
        while i < _len(self.chars) and _bool(mk_bool(_orz([_ceq(self.chars[i], c) for c in s]))):
            i += 1
        return self.make(self.chars[i:])

    def rstrip(self, chars=None):
        s = self._stripset(chars)
        i = _len(self.chars)
        while i > 0 and _bool(mk_bool(_orz([_ceq(self.chars[i - 1], c) for c in s]))):
            i -= 1
        return self.make(self.chars[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        if not is_sym(r):
            return r.strip() if chars is None else r.strip(chars)
        return r.rstrip(chars)

    def replace(self, a, b, count=-1):
        sub, rep = self._need(a), self._need(b)
        out, i, n, k = [], 0, _len(sub), 0
        if n == 0:
            cur().unsupported('replace empty')
        while i < _len(self.chars):
            if (count < 0 or k < count) and i + n <= _len(self.chars) \
                    and _bool(mk_bool(self._match_at(sub, i))):
                out += rep
                i += n
                k += 1
            else:
                out.append(self.chars[i])
                i += 1
        return self.make(out)

    def _fill(self, fill):
        return self._need(fill)

    def ljust(self, n, fill=None):
        f = self._need(fill if fill is not None else (' ' if self._tname == 'str' else b' '))
        return self.make(self.chars + f * max(0, n - _len(self.chars)))

    def rjust(self, n, fill=None):
        f = self._need(fill if fill is not None else (' ' if self._tname == 'str' else b' '))
        return self.make(f * max(0, n - _len(self.chars)) + self.chars)

    def zfill(self, n):
        return self.rjust(n, '0' if self._tname == 'str' else b'0')

    def _mapc(self, lo, hi, d):
        out = []
        for c in self.chars:
            if isinstance(c, _int):
                out.append(c + d if lo <= c <= hi else c)
            else:
                out.append(z3.simplify(z3.If(z3.And(c >= lo, c <= hi), c + d, c)))
        return self.make(out)

    def lower(self):
        return self._mapc(65, 90, 32)
    casefold = lower

    def upper(self):
        return self._mapc(97, 122, -32)

    def _all(self, ranges):
        if not self.chars:
            return False
        es = []
        for c in self.chars:
            es.append(_orz([(a <= c <= b) if isinstance(c, _int)
                            else z3.And(c >= a, c <= b) for a, b in ranges]))
        return mk_bool(_andz(es))

    def isdigit(self): return self._all([(48, 57)])
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all([(65, 90), (97, 122)])
    def isalnum(self): return self._all([(48, 57), (65, 90), (97, 122)])
    def isascii(self): return True if not self.chars else self._all([(0, 127)])

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out += self.chars
            out += self._need(x)
        return self.make(out)

    def __reversed__(self):
        return iter([self[i] for i in range(_len(self.chars) - 1, -1, -1)])


class SymStr(_SymSeq):
    __slots__ = ()
    _tname = 'str'
    _empty = ''

    @property
    def __class__(self):
        return _str

    @staticmethod
    def _conc(codes):
        return ''.join(map(chr, codes))

    def _co(self, o):
        t = type(o)
        if t is SymStr:
            return o.chars
        if isinstance(o, _str) and not getattr(t, '_sym', False):
            return [ord(c) for c in o]
        return None

    def __getitem__(self, i):
        i = self._idx(i)
        if isinstance(i, slice):
            return SymStr.make(self.chars[i])
        return SymStr.make([self.chars[i]])

    def __iter__(self):
        return iter([SymStr.make([c]) for c in self.chars])

    def encode(self, encoding='utf-8', errors='strict'):
        for c in self.chars:
            if isinstance(c, _int):
                if c > 127:
                    cur().unsupported('non-ascii encode')
            elif not cur().branch(c <= 127):
                if encoding.lower().replace('_', '-') in ('ascii', 'us-ascii'):
                    raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
                cur().unsupported('non-ascii encode')
        return SymBytes.make(self.chars)


class SymBytes(_SymSeq):
    __slots__ = ()
    _tname = 'bytes'
    _empty = b''

    @property
    def __class__(self):
        return _bytes

    @staticmethod
    def _conc(codes):
        return _bytes(codes)

    def _co(self, o):
        t = type(o)
        if t is SymBytes:
            return o.chars
        if isinstance(o, (_bytes, bytearray)) and not getattr(t, '_sym', False):
            return list(o)
        return None

    def __getitem__(self, i):
        i = self._idx(i)
        if isinstance(i, slice):
            return SymBytes.make(self.chars[i])
        return mk_int(self.chars[i])

    def __iter__(self):
        return iter([mk_int(c) for c in self.chars])

    def decode(self, encoding='utf-8', errors='strict'):
        for c in self.chars:
            if isinstance(c, _int):
                if c > 127:
                    cur().unsupported('non-ascii decode')
            elif not cur().branch(c <= 127):
                cur().unsupported('non-ascii decode')
        return SymStr.make(self.chars)

    def hex(self):
        cur().unsupported('hex')


# ---------------------------------------------------------------------------
# datetimes, integer microseconds (naive == UTC is not modelled; tz is tracked)

_EPOCH = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
_US = _dt.timedelta(microseconds=1)


class SymTimedelta:
    _sym = True
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    @staticmethod
    def of(x):
        if type(x) is SymTimedelta:
            return x
        return SymTimedelta(x // _US)

    @staticmethod
    def make(us):
        if is_sym(us):
            return SymTimedelta(us)
        return us * _US

    def __hash__(self): return 0x54

    def _o(self, o):
        if type(o) is SymTimedelta:
            return o.us
        if isinstance(o, _dt.timedelta):
            return o // _US
        return None

    def __add__(self, o):
        z = self._o(o)
        if z is None:
            if isinstance(o, _dt.datetime) or type(o) is SymDatetime:
                return SymDatetime.of(o) + self
            return NotImplemented
        return SymTimedelta.make(self.us + z)
    __radd__ = __add__

    def __sub__(self, o):
        z = self._o(o)
        return NotImplemented if z is None else SymTimedelta.make(self.us - z)

    def __rsub__(self, o):
        z = self._o(o)
        if z is None:
            if isinstance(o, _dt.datetime):
                return SymDatetime.of(o) - self
            return NotImplemented
        return SymTimedelta.make(z - self.us)

    def __neg__(self): return SymTimedelta.make(-self.us)
    def __abs__(self): return SymTimedelta.make(abs(self.us))

    def __mul__(self, o):
        if isinstance(o, _int):
            return SymTimedelta.make(self.us * o)
        if isinstance(o, float):
            return SymTimedelta.make(_real_of(self.us * 1, o))
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        z = self._o(o)
        if z is None:
            return SymTimedelta.make(self.us // o)
        return self.us // z

    def __rfloordiv__(self, o):
        return self._o(o) // self.us

    def __mod__(self, o):
        return SymTimedelta.make(self.us % self._o(o))

    def __truediv__(self, o):
        z = self._o(o)
        if z is not None:
            return self.us / z
        return SymTimedelta.make((self.us / o).trunc())

    def total_seconds(self):
        return self.us / 1_000_000

    @property
    def days(self): return self.us // 86_400_000_000
    @property
    def seconds(self): return (self.us // 1_000_000) % 86400
    @property
    def microseconds(self): return self.us % 1_000_000

    def _c(self, o, f):
        z = self._o(o)
        return NotImplemented if z is None else f(self.us, z)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        z = self._o(o)
        return False if z is None else self.us == z

    def __ne__(self, o): return NOT(self.__eq__(o))
    def __bool__(self): return _bool(self.us != 0)
    def __repr__(self): return '<symtimedelta>'


def _real_of(us, f):
    import fractions
    fr = fractions.Fraction(f)
    return mk_int(z3.simplify(z3.ToInt(z3.ToReal(us.e) * z3.Q(fr.numerator, fr.denominator))))


class SymDatetime:
    """us = microseconds since the epoch in UTC; tz None (naive, taken as UTC, which is
    also the local zone of the sandbox) or a tzinfo."""
    _sym = True
    __slots__ = ('us', 'tzinfo')

    def __init__(self, us, tz=_dt.timezone.utc):
        self.us = us
        self.tzinfo = tz

    @property
    def __class__(self):
        return _dt.datetime

    @staticmethod
    def of(x):
        if type(x) is SymDatetime:
            return x
        tz = x.tzinfo
        if tz is None:
            x = x.replace(tzinfo=_dt.timezone.utc)
        return SymDatetime((x - _EPOCH) // _US, tz)

    @staticmethod
    def make(us, tz):
        if is_sym(us):
            return SymDatetime(us, tz)
        d = _EPOCH + us * _US
        if tz is None:
            return d.replace(tzinfo=None)
        return d.astimezone(tz)

    def __hash__(self): return 0x55

    def _pair(self, o):
        if type(o) is SymDatetime or isinstance(o, _dt.datetime):
            d = SymDatetime.of(o)
            if (d.tzinfo is None) != (self.tzinfo is None):
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return d.us
        return None

    def __add__(self, o):
        if type(o) is SymTimedelta:
            return SymDatetime.make(self.us + o.us, self.tzinfo)
        if isinstance(o, _dt.timedelta):
            return SymDatetime.make(self.us + o // _US, self.tzinfo)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymTimedelta:
            return SymDatetime.make(self.us - o.us, self.tzinfo)
        if isinstance(o, _dt.timedelta):
            return SymDatetime.make(self.us - o // _US, self.tzinfo)
        z = self._pair(o)
        return NotImplemented if z is None else SymTimedelta.make(self.us - z)

    def __rsub__(self, o):
        z = self._pair(o)
        return NotImplemented if z is None else SymTimedelta.make(z - self.us)

    def _c(self, o, f):
        z = self._pair(o)
        return NotImplemented if z is None else f(self.us, z)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not (type(o) is SymDatetime or isinstance(o, _dt.datetime)):
            return False
        return self.us == SymDatetime.of(o).us

    def __ne__(self, o): return NOT(self.__eq__(o))

    def astimezone(self, tz=None):
        return SymDatetime(self.us, tz or _dt.timezone.utc)

    def replace(self, **kw):
        if set(kw) == {'tzinfo'}:
            # wall-clock is kept; every tz used is UTC, so the instant is too
            tz = kw['tzinfo']
            if (tz is None or tz.utcoffset(None) == _dt.timedelta(0)) and (
                    self.tzinfo is None or self.tzinfo.utcoffset(None) == _dt.timedelta(0)):
                return SymDatetime(self.us, tz)
        if set(kw) == {'microsecond'} and kw['microsecond'] == 0:
            return SymDatetime(self.us - self.us % 1_000_000, self.tzinfo)
        cur().unsupported(f'datetime.replace {kw}')

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def timestamp(self):
        r = self.us / 1_000_000
        return SymFP.rounded(r.e) if type(r) is SymReal else r

    def isoformat(self, *a, **kw):
        return SymIso(self)

    def __repr__(self): return '<symdatetime>'
    def __format__(self, s): return '<symdatetime>'


class SymIso:
    """isoformat() of a SymDatetime: an opaque, invertible string."""
    _sym = True
    __slots__ = ('dt',)

    def __init__(self, dt):
        self.dt = dt

    @property
    def __class__(self):
        return _str

    def __eq__(self, o):
        if type(o) is SymIso:
            return self.dt == o.dt
        return False

    def __hash__(self): return 0x56
    def __repr__(self): return '<symiso>'
    def __format__(self, s): return '<symiso>'
    def __bool__(self): return True
