"""Symbolic stand-ins for the libraries arroba calls.

Hashing is modelled as injective (collision-free): a CID is its content, so two CIDs are
equal iff the encoded objects are. DAG-CBOR encode/decode are modelled as structural
freeze/thaw. SHA-256 of an MST key is an uninterpreted function of the key whose first
byte decides the layer.
"""
import types
import z3

from . import engine
from .engine import cur
from .values import (AND, NOT, OR, SymBool, SymBytes, SymDatetime, SymInt, SymIso,
                     SymStr, is_sym, mk_bool, mk_int, zint)
from .loader import ModProxy, OpaqueStr, OpaqueBytes


# ---------------------------------------------------------------------------
# structural equality

def same(a, b):
    """Deep structural equality -> bool or SymBool."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            r = same(x, y)
            if r is False:
                return False
            if r is not True:
                acc.append(r)
        return AND(*acc) if acc else True
    if ta is tuple or tb is tuple:
        return False
    if a is None or b is None:
        return False
    if is_sym(a) or is_sym(b):
        ca, cb = a.__class__, b.__class__
        if ca is not cb and not (issubclass(ca, int) and issubclass(cb, int)):
            return False
        r = (a == b)
        if r is NotImplemented:
            return False
        return r
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


class Pad:
    """Filler string in a record so that its DAG-CBOR encoding has exactly `size` bytes."""
    _sym = True

    def __init__(self, size):
        self.size = size

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        return type(o) is Pad and self.size == o.size

    def __hash__(self):
        return 0x70

    def __repr__(self):
        return '<pad>'
    __str__ = __repr__
    def __format__(self, s): return '<pad>'

    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self


class Content(dict):
    """arbitrary record: plain dict subclass marker (unused fields)"""


def freeze(o):
    t = type(o)
    if t is SymCID or t is SymCIDBytes:
        return SymCID.of(o)
    if t is dict or isinstance(o, dict):
        for k in o:
            if not isinstance(k, str):
                raise TypeError('DAG-CBOR map keys must be str')
        items = sorted(((k, freeze(v)) for k, v in o.items()),
                       key=lambda kv: (len(kv[0]), kv[0]) if not is_sym(kv[0]) else (0, ''))
        return ('d',) + tuple(items)
    if t is list or t is tuple:
        return ('l',) + tuple(freeze(x) for x in o)
    if o is None or is_sym(o) or isinstance(o, (str, bytes, int, float, bool)):
        return o
    if isinstance(o, (list, tuple)):
        return ('l',) + tuple(freeze(x) for x in o)
    raise TypeError(f'DAG-CBOR cannot encode {type(o)}')


def thaw(f, cidfn=lambda c: c):
    if type(f) is tuple:
        if f[0] == 'd':
            return {k: thaw(v, cidfn) for k, v in f[1:]}
        return [thaw(v, cidfn) for v in f[1:]]
    if type(f) is SymCID:
        return cidfn(f)
    return f


def shape(f):
    if type(f) is tuple:
        if f[0] == 'd':
            return ('d', tuple((k, 'l' if type(v) is tuple and v[0] == 'l' else 'x')
                               for k, v in f[1:]),
                    len(f[-1][1]) if len(f) > 1 and type(f[-1][1]) is tuple else 0)
        return ('l', len(f))
    return 'x'


class SymEnc:
    """Encoded bytes of a frozen object."""
    _sym = True
    __slots__ = ('f', 'h')

    def __init__(self, f):
        self.f = f
        self.h = None

    @property
    def __class__(self):
        return bytes

    def __eq__(self, o):
        if type(o) is SymEnc:
            return same(self.f, o.f)
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        if self.h is None:
            f = self.f
            # equal objects have the same number of fields and field names
            self.h = hash(('enc', len(f), tuple(k for k, _ in f[1:] if type(k) is str)
                           if type(f) is tuple and f and f[0] == 'd' else 0,
                           tuple(len(v) for _, v in f[1:] if type(v) is tuple)
                           if type(f) is tuple and f and f[0] == 'd' else 0))
        return self.h

    def _symlen(self):
        f = self.f
        if type(f) is tuple and f and f[0] == 'd':
            for k, v in f[1:]:
                if type(v) is Pad:
                    return v.size
        return 100

    def __len__(self):
        n = self._symlen()
        return n.__index__() if is_sym(n) else n

    def __bool__(self):
        return True

    def __repr__(self):
        return '<enc>'
    def __format__(self, s): return '<enc>'

    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self
    def hex(self):
        return '<hex>'


class BadBytes:
    """bytes that are not the encoding of anything in the model (corrupt)."""


class SymDigest:
    _sym = True
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data

    @property
    def __class__(self):
        return bytes

    def __eq__(self, o):
        return type(o) is SymDigest and self.data == o.data

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(self.data)

    def bytes_(self):
        return content_digest(self.data)

    def __len__(self): return 32
    def __getitem__(self, i): return self.bytes_()[i]
    def __iter__(self): return iter(self.bytes_())
    def __bool__(self): return True
    def hex(self): cur().unsupported('hex of a digest')
    def __repr__(self): return '<digest>'
    def __format__(self, s): return '<digest>'


class _CIDMeta(type):
    def __call__(cls, *a, **kw):
        return cls._make(*a, **kw)


class SymCID(metaclass=_CIDMeta):
    """kind 'atom': payload int/SymInt id.  kind 'content': payload (codec, data)."""
    _sym = True
    _symkey = True
    __slots__ = ('kind', 'payload', 'h')

    @classmethod
    def new(cls, kind, payload):
        self = object.__new__(cls)
        self.kind, self.payload, self.h = kind, payload, None
        return self

    @classmethod
    def atom(cls, n):
        return cls.new('atom', n)

    @classmethod
    def _make(cls, base, version, codec, digest):
        if not isinstance(codec, str):
            codec = codec.name
        d = digest.data if type(digest) is SymDigest else digest
        if version != 1:
            codec = f'v{version}-{codec}'
        return cls.new('content', (codec, d))

    @staticmethod
    def of(x):
        if type(x) is SymCID:
            return x
        if type(x) in (SymCIDBytes, SymCIDStr):
            return x.cid
        cur().unsupported(f'not a cid: {type(x)}')

    @staticmethod
    def decode(x):
        if type(x) in (SymCIDBytes, SymCIDStr):
            return x.cid
        if type(x) is OpaqueStr:
            raise MultibaseValueError('bad cid')
        if isinstance(x, str):
            raise MultibaseKeyError('bad cid')
        cur().unsupported('CID.decode')

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is not SymCID:
            return False
        if self.kind != o.kind:
            return False
        if self.kind == 'atom':
            return self.payload == o.payload
        if self.payload[0] != o.payload[0]:
            return False
        a, b = self.payload[1], o.payload[1]
        if is_sym(a) != is_sym(b):
            return False
        return a == b

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        if self.h is None:
            self.h = 0xA70 if self.kind == 'atom' else (
                hash(self.payload[0]) ^ (hash(self.payload[1])))
        return self.h

    def encode(self, base=None):
        return SymCIDStr(self)

    @property
    def codec(self):
        return types.SimpleNamespace(name=self.payload[0] if self.kind != 'atom' else 'dag-cbor')

    @property
    def digest(self):
        return SymDigest(self.payload[1])

    @property
    def version(self):
        return 1

    @property
    def hashfun(self):
        return types.SimpleNamespace(name='sha2-256', digest=SymDigest)

    def _symbytes(self):
        return SymCIDBytes(self)

    def __bytes__(self):
        cur().unsupported('bytes(CID)')

    def __repr__(self): return '<cid>'
    def __str__(self): return '<cid>'
    def __format__(self, s): return '<cid>'

    def _symfstr(self):
        return SymCIDStr(self)

    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self


class _CIDView:
    _sym = True
    _symkey = True
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid

    def __eq__(self, o):
        if type(o) is type(self):
            return self.cid == o.cid
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(self.cid) ^ 1

    def __bool__(self): return True
    def __repr__(self): return '<cidview>'
    def __format__(self, s): return '<cidview>'
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


class SymCIDStr(_CIDView):
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def __str__(self): return '<cidstr>'

    def _symfstr(self):
        return self

    def encode(self, *a):
        return OpaqueBytes(self)

    def __lt__(self, o): cur().unsupported('order of CIDs')
    __gt__ = __le__ = __ge__ = __lt__

    def strip(self, *a): return self
    def startswith(self, p):
        cur().unsupported('cid str startswith')


class SymCIDBytes(_CIDView):
    __slots__ = ()

    @property
    def __class__(self):
        return bytes

    def _symbytes(self):
        return self


class MultibaseKeyError(KeyError):
    pass


class MultibaseValueError(ValueError):
    pass


def dag_cbor_encode(obj, **kw):
    return SymEnc(freeze(obj))


def dag_cbor_decode(enc, **kw):
    if type(enc) is SymEnc:
        return thaw(enc.f)
    if isinstance(enc, bytes):
        raise ValueError('bad DAG-CBOR')
    cur().unsupported(f'dag_cbor.decode {type(enc)}')


def multihash_digest(data, name, size=None):
    if name not in ('sha2-256',):
        return SymDigest(('hash', name, data))
    return SymDigest(data)


# --- sha256 for MST keys

def key_layer_byte(c, key):
    """z3 term: first byte of SHA-256 of the (symbolic) key bytes."""
    raise NotImplementedError


class Sha256:
    def __init__(self, data=b''):
        self.data = data

    def update(self, d):
        self.data = self.data + d

    def digest(self):
        return sha_bytes(self.data)

    def hexdigest(self):
        cur().unsupported('hexdigest')


def sha_bytes(data):
    """Uninterpreted: SHA-256 of a symbolic byte string."""
    c = cur()
    hook = c.memo.get('sha_hook')
    if hook is not None:
        r = hook(data)
        if r is not None:
            return r
    if not is_sym(data):
        import hashlib
        return hashlib.sha256(data).digest()
    if type(data) is SymEnc:
        return SymDigest(data)
    if type(data) is not SymBytes:
        c.unsupported('sha256 of opaque bytes')
    chars = data.chars
    key = ('sha', tuple(x if isinstance(x, int) else ('z', x.get_id()) for x in chars))
    hit = c.memo.get(key)
    if hit is None:
        syms = [x for x in chars if not isinstance(x, int)]
        pat = ''.join(chr(x) if isinstance(x, int) else '\x00' for x in chars)
        f = z3.Function(f'sha0|{pat!r}', *([z3.IntSort()] * len(syms)), z3.IntSort())
        b0 = f(*syms)
        lo = c.memo.get('min_byte0', 4)
        c.add(z3.And(b0 >= lo, b0 <= 255))
        if c.model_ is not None:
            c.model_ = None
        hit = SymBytes.make([b0] + [0xAA] * 31)
        c.memo[key] = (hit, syms)
        return hit
    return hit[0]


def content_digest(data):
    """SHA-256 of encoded content as 32 symbolic bytes (the same ones for the same content)."""
    c = cur()
    if type(data) is not SymEnc:
        return sha_bytes(data)
    known = c.memo.setdefault('digests', [])
    for enc, d in known:
        if enc == data:
            return d
    chars = [z3.Int(f'digest{len(known)}_{i}') for i in range(32)]
    c.add(z3.And(*[z3.And(x >= 0, x <= 255) for x in chars]))
    if c.model_ is not None:
        c.model_ = None
    d = SymBytes.make(chars)
    known.append((data, d))
    return d


class CryptoHash:
    """cryptography.hazmat.primitives.hashes.Hash"""
    def __init__(self, alg, backend=None):
        if alg.name != 'sha256':
            cur().unsupported(f'hash {alg.name}')
        self.data = b''

    def update(self, d):
        self.data = self.data + d if not (type(self.data) is bytes and not self.data) else d

    def finalize(self):
        return content_digest(self.data)


# --- CARs

class CarBlock:
    def __init__(self, cid=None, data=None, decoded=None):
        assert data or decoded
        self._cid, self._data, self._decoded = cid, data, decoded

    @property
    def cid(self):
        if self._cid is None:
            d = self.data
            self._cid = SymCID.new('content', ('dag-cbor', d))
        c = self._cid
        return c.cid if type(c) is SymCIDBytes else c

    @property
    def data(self):
        if self._data is None:
            self._data = dag_cbor_encode(self._decoded)
        return self._data

    @property
    def decoded(self):
        if self._decoded is None:
            self._decoded = dag_cbor_decode(self.data)
        return self._decoded

    def __eq__(self, o):
        return self.cid == o.cid

    def __hash__(self):
        return hash(self.cid)


class SymCar:
    """A CAR file: roots and (cid, data) sections in order."""
    _sym = True

    def __init__(self, roots, blocks):
        self.roots = roots
        self.blocks = blocks

    @property
    def __class__(self):
        return bytes

    def __eq__(self, o):
        return type(o) is SymCar and same(self._t(), o._t())

    def _t(self):
        return (tuple(self.roots), tuple(self.blocks))

    def __hash__(self):
        return 0x77

    def __bool__(self): return True
    def __len__(self): return 1000
    def __repr__(self): return '<car>'
    def __format__(self, s): return '<car>'
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def write_car(roots, blocks):
    bs = []
    for b in blocks:
        bs.append((b.cid, b.data))
    for r in roots:
        if type(r) is not SymCID:
            raise TypeError(f'root must be a CID, got {type(r)}')
    return SymCar(list(roots), bs)


def read_car(data, validate=True):
    if type(data) is not SymCar:
        if is_sym(data):
            cur().unsupported('read_car')
        raise ValueError('bad CAR')
    out = []
    for cid, d in data.blocks:
        if validate:
            if cid.kind == 'content':
                ok = cid.payload[1] == d
                if not ok:
                    raise ValueError('CID digest does not match')
        out.append(CarBlock(cid=cid, data=d))
    return list(data.roots), out


# --- JSON

class SymJson:
    _sym = True

    def __init__(self, f, cid=None):
        self.f = f

    @property
    def __class__(self):
        return bytes

    def decode(self, *a):
        return self
    def __repr__(self): return '<json>'
    def __format__(self, s): return '<json>'


def dag_json_encode(obj, dialect=None, **kw):
    return SymJson(freeze(obj))


def json_loads(x, **kw):
    if type(x) is SymJson:
        return thaw(x.f, lambda c: {'$link': SymCIDStr(c)})
    import json
    return json.loads(x, **kw)


def json_dumps(x, **kw):
    import json
    try:
        return json.dumps(x, **kw)
    except TypeError:
        return '<json>'


# --- ECDSA (secp256k1), ideal

class InvalidSignature(Exception):
    pass


class SymDER:
    _sym = True

    def __init__(self, r, s):
        self.r, self.s = r, s

    @property
    def __class__(self):
        return bytes
    def __repr__(self): return '<der>'
    def __format__(self, s): return '<der>'


def decode_dss_signature(sig):
    if type(sig) is SymDER:
        return sig.r, sig.s
    from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature as d
    return d(sig)


def encode_dss_signature(r, s):
    return SymDER(r, s)


# --- base64

def _b64chars(x):
    return x.chars if type(x) in (SymStr, SymBytes) else [ord(c) for c in x] if type(x) is str else list(x)


def _b64table(altchars):
    import string
    return string.ascii_uppercase + string.ascii_lowercase + string.digits + altchars


def b64encode(data, altchars='+/'):
    import base64
    if not is_sym(data):
        return base64.b64encode(data, altchars.encode())
    from .loader import vf_getitem
    table = _b64table(altchars)
    chars = [mk_int(c) for c in _b64chars(data)]
    out = []
    for i in range(0, len(chars), 3):
        g = chars[i:i + 3]
        n = len(g)
        a, b, c = (g + [0, 0])[:3]
        bh, bl = b // 16, b % 16
        ch, cl = c // 64, c % 64
        digits = [a // 4, (a % 4) * 16 + bh, bl * 4 + ch, cl][:n + 1]
        out += [_b64chars(vf_getitem(table, d))[0] for d in digits] + [ord('=')] * (3 - n)
    return SymBytes.make(out)


def b64decode(data, altchars='+/'):
    import base64, binascii
    if not is_sym(data):
        return base64.b64decode(data, altchars.encode())
    table = SymStr([ord(c) for c in _b64table(altchars)])
    chars = list(_b64chars(data))
    pads = 0
    while chars and isinstance(chars[-1], int) and chars[-1] == ord('='):
        chars.pop()
        pads += 1
    rem = len(chars) % 4
    if rem == 1 or (rem and pads < 4 - rem):
        raise binascii.Error('Incorrect padding')
    digits = []
    for c in chars:
        try:
            digits.append(table.index(SymStr.make([c])) if not isinstance(c, int) else _b64table(altchars).index(chr(c)))
        except ValueError:
            cur().unsupported('base64 with other characters')
    out = []
    for i in range(0, len(digits), 4):
        g = digits[i:i + 4]
        n = len(g)
        a, b, c, d = (g + [0, 0])[:4] if n < 4 else g
        out += [a * 4 + b // 16, (b % 16) * 16 + c // 4, (c % 4) * 64 + d][:n - 1]
    return SymBytes.make([zint(x) for x in out])


B32 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'


def b32encode(data):
    import base64
    if not is_sym(data):
        return base64.b32encode(data)
    if type(data) is SymDigest:
        data = data.bytes_()
    if type(data) is not SymBytes:
        cur().unsupported('base32 of opaque bytes')
    chars = [z3.IntVal(c) if isinstance(c, int) else c for c in data.chars]
    digit = lambda d: z3.If(d < 26, d + 65, d + 24)
    out = []
    bits = 8 * len(chars)
    for i in range(0, bits, 5):
        n, k = divmod(i, 8)
        x = chars[n]
        if k <= 3:
            d = (x / (1 << (3 - k))) % 32
        else:
            over = k - 3
            nxt = chars[n + 1] / (1 << (8 - over)) if n + 1 < len(chars) else z3.IntVal(0)
            d = (x % (1 << (8 - k))) * (1 << over) + nxt
        out.append(z3.simplify(digit(d)))
    while len(out) % 8:
        out.append(ord('='))
    return SymBytes.make(out)


# --- urllib.parse

def _find_any(s, chars, start=0):
    for i in range(start, len(s)):
        c = s[i]
        for x in chars:
            if c == x:
                return i
    return -1


def _strip_url(url):
    """As urlsplit does: control characters and spaces around it, and tabs and newlines in it."""
    out = ''
    i, j = 0, len(url)
    while i < j and url[i] <= ' ':
        i += 1
    for c in [url[k] for k in range(i, j)]:
        if not (c == '\t') and not (c == '\r') and not (c == '\n'):
            out = out + c
    return out


def urlparse(url, scheme='', allow_fragments=True):
    """urllib.parse.urlparse of a symbolic URL, as of Python 3.12."""
    import urllib.parse as up
    if not is_sym(url):
        return up.urlparse(url, scheme, allow_fragments)
    url = _strip_url(url)
    netloc = query = fragment = params = ''
    i = _find_any(url, ':')
    if i > 0 and url[0].isascii() and url[0].isalpha():
        for k in range(i):
            ok = False
            c = url[k]
            if (('a' <= c) & (c <= 'z')) | (('A' <= c) & (c <= 'Z')) | (('0' <= c) & (c <= '9')) | (c == '+') | (c == '-') | (c == '.'):
                ok = True
            if not ok:
                break
        else:
            scheme, url = url[:i].lower(), url[i + 1:]
    if url[:2] == '//':
        j = _find_any(url, '/?#', 2)
        if j < 0:
            j = len(url)
        netloc, url = url[2:j], url[j:]
        opening, closing = _find_any(netloc, '['), _find_any(netloc, ']')
        if (opening >= 0) != (closing >= 0):
            raise ValueError('Invalid IPv6 URL')
        if opening >= 0:
            cur().unsupported('IPv6 URL')
        for c in [netloc[k] for k in range(len(netloc))]:
            if c > '\x7f':
                cur().unsupported('URL with non-ASCII characters')
    if allow_fragments:
        i = _find_any(url, '#')
        if i >= 0:
            url, fragment = url[:i], url[i + 1:]
    i = _find_any(url, '?')
    if i >= 0:
        url, query = url[:i], url[i + 1:]
    if is_sym(scheme):
        cur().unsupported('symbolic URL scheme')
    if scheme in up.uses_params and _find_any(url, ';') >= 0:
        cur().unsupported('URL parameters')
    return up.ParseResult(scheme, netloc, url, params, query, fragment)


def unquote(s, *a, **kw):
    import urllib.parse as up
    if not is_sym(s):
        return up.unquote(s, *a, **kw)
    if _find_any(s, '%') >= 0:
        cur().unsupported('unquote of a symbolic %')
    return s


def quote(s, safe='/', *a, **kw):
    import urllib.parse as up
    if not is_sym(s):
        return up.quote(s, safe, *a, **kw)
    for k in range(len(s)):
        c = s[k]
        if not ((('a' <= c) & (c <= 'z')) | (('A' <= c) & (c <= 'Z')) | (('0' <= c) & (c <= '9'))) and _find_any(c, '_.-~' + safe) < 0:
            cur().unsupported('quote of a symbolic character')
    return s


def base_overrides(hash_module=None):
    """Library overrides for sym mode."""
    import re as _re
    import os
    import os.path as osp
    import hashlib, json, base64
    from .regex import ReModule
    from cryptography.hazmat.primitives.asymmetric import utils as asymutils
    import cryptography.exceptions as cexc

    def commonprefix(m):
        # genericpath.commonprefix, without os.fspath()
        if not m:
            return ''
        s1 = min(m)
        s2 = max(m)
        for i, c in enumerate(s1):
            if c != s2[i]:
                return s1[:i]
        return s1

    ospath = ModProxy(osp, commonprefix=commonprefix)
    osmod = ModProxy(os, path=ospath)
    mh = ModProxy(__import__('multiformats.multihash', fromlist=['x']),
                  digest=multihash_digest)
    import multiformats
    carmod = types.ModuleType('carbox.car')
    carmod.Block, carmod.write_car, carmod.read_car = CarBlock, write_car, read_car
    cb = types.ModuleType('carbox')
    cb.car, cb.read_car, cb.write_car, cb.Block = carmod, read_car, write_car, CarBlock
    dc = types.ModuleType('dag_cbor')
    dc.encode, dc.decode = dag_cbor_encode, dag_cbor_decode
    dj = types.ModuleType('dag_json')
    dj.encode = dag_json_encode
    ipld = types.ModuleType('libipld')
    ipld.decode_dag_cbor = lambda enc: thaw(enc.f, SymCIDBytes) if type(enc) is SymEnc else cur().unsupported('libipld')
    ipld.encode_dag_cbor = dag_cbor_encode
    ipld.encode_cid = lambda c: SymCIDStr(SymCID.of(c))
    ipld.decode_cid = lambda c: cur().unsupported('decode_cid')
    mf = ModProxy(multiformats, CID=SymCID, multihash=mh)
    mb = __import__('multiformats.multibase', fromlist=['x'])
    mfb = ModProxy(mb, MultibaseKeyError=MultibaseKeyError,
                   MultibaseValueError=MultibaseValueError)
    return {
        're': ReModule(),
        'os': osmod,
        'os.path': ospath,
        'hashlib': ModProxy(hashlib, sha256=Sha256),
        'dag_cbor': dc,
        'dag_json': dj,
        'libipld': ipld,
        'base64': ModProxy(base64, b64encode=lambda s, altchars=None: b64encode(s, *([altchars.decode()] if altchars else [])),
                           b64decode=lambda s, altchars=None, validate=False: b64decode(s, *([altchars.decode()] if altchars else [])),
                           b32encode=b32encode, standard_b64encode=b64encode, standard_b64decode=b64decode,
                           urlsafe_b64encode=lambda s: b64encode(s, '-_'),
                           urlsafe_b64decode=lambda s: b64decode(s, '-_')),
        'urllib.parse': ModProxy(__import__('urllib.parse', fromlist=['x']), urlparse=urlparse, unquote=unquote, quote=quote),
        'json': ModProxy(json, loads=json_loads, dumps=json_dumps),
        'multiformats': mf,
        'multiformats.multihash': mh,
        'multiformats.multibase': mfb,
        'carbox': cb,
        'carbox.car': carmod,
        'cryptography.hazmat.primitives.asymmetric.utils': ModProxy(
            asymutils, decode_dss_signature=decode_dss_signature,
            encode_dss_signature=encode_dss_signature),
        'cryptography.hazmat.primitives.hashes': ModProxy(
            __import__('cryptography.hazmat.primitives.hashes', fromlist=['x']), Hash=CryptoHash),
        'cryptography.exceptions': ModProxy(cexc, InvalidSignature=InvalidSignature),
    }
