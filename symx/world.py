"""A harness's view of the system: one World per path, symbolic or concrete.

World.mods.<name> is arroba.<name>, freshly executed from /repo's current source.
"""
import datetime as _dt
import hashlib
import logging
import sys
import types

import z3

from . import engine, libsym
from .engine import in_codes
from .loader import Loader, ModProxy
from .values import (AND, IMPLIES, NOT, OR, SymBool, SymBytes, SymDatetime, SymInt,
                     SymReal, SymStr, SymTimedelta, is_sym, mk_bool, mk_int, zint)

logging.disable(logging.CRITICAL)

UTC = _dt.timezone.utc
EPOCH = _dt.datetime(1970, 1, 1, tzinfo=UTC)
NOW_US = 1_700_000_000_000_000      # default wall clock, microseconds
# characters of record keys, as in the specification
RKEY = frozenset(map(ord, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_:~'))
NSID = 'com.atproto.sync.subscribeRepos'

_lib_cache = {}


def warm(mode):
    """Imports the real libraries once per process."""
    if 'warm' in _lib_cache:
        return
    import os
    os.environ.setdefault('DATASTORE_EMULATOR_HOST', 'localhost:8089')
    import carbox, dag_cbor, dag_json, libipld, multiformats, lexrpc.server, lexrpc.base  # noqa
    import webutil.util, flask, requests, jwt, cachetools, dns.resolver  # noqa
    import cryptography.hazmat.primitives.asymmetric.ec  # noqa
    import google.cloud.ndb, pymediainfo  # noqa
    _lib_cache['warm'] = True


class StubServer:
    """lexrpc.server.Server without schemas."""
    def __init__(self, world):
        self.world = world
        self._methods = {}
        self.validate_hook = None
        self.mime_hook = None

    def method(self, nsid, override=False):
        def dec(fn):
            self._methods[nsid] = fn
            return fn
        return dec

    def register(self, nsid, fn, override=False):
        self._methods[nsid] = fn

    def validate(self, nsid, type, obj, ignore=()):
        if self.validate_hook:
            return self.validate_hook(nsid, type, obj)
        return obj

    def validate_mime_type(self, mime_type, accept, name=''):
        if self.mime_hook:
            return self.mime_hook(mime_type, accept, name)

    def call(self, nsid, input=None, **params):
        return self._methods[nsid](input, **params)


class World:
    def __init__(self, ctx, env=None, overrides=None, sched=None, yields=None):
        self.ctx = ctx
        self.sym = ctx.symbolic
        warm(None)
        self.now_us = NOW_US
        self.sleeps = []
        self.on_sleep = None
        self.clock_hook = None
        self._keys = {}
        ov = libsym.base_overrides() if self.sym else {}
        ov.update(self._env_overrides())
        if env:
            import os
            base_os = ov.get('os')
            real_os = base_os if base_os is not None else os
            environ = dict(os.environ)
            environ.update(env)
            kw = dict(environ=environ, getenv=environ.get)
            if base_os is not None:
                base_os.__dict__.update(kw)
            else:
                ov['os'] = ModProxy(os, **kw)
            self.environ = environ
        if sched:
            ov.update(sched.overrides())
        if overrides:
            ov.update(overrides)
        self.overrides = ov
        self.mods = Loader('sym' if self.sym else 'plain', ov, yields=yields)
        if sched:
            sched.bind(self)
        if not self.sym:
            self.ctx.world = self

    # ---- environment
    def time_us(self):
        if self.clock_hook:
            return self.clock_hook()
        return self.now_us

    def _env_overrides(self):
        import time, random, webutil, webutil.util
        w = self

        def time_ns():
            return w.time_us() * 1000

        def time_time():
            u = w.time_us()
            return u / 1_000_000

        def sleep(s):
            w.sleeps.append(s)
            if w.on_sleep:
                w.on_sleep(s)

        def now(tz=UTC, **kw):
            u = w.time_us()
            d = SymDatetime(u, UTC) if is_sym(u) else EPOCH + u * _dt.timedelta(microseconds=1)
            if tz is None:
                d = d.replace(tzinfo=None)
            return d

        self.util_now = now
        timep = ModProxy(time, time_ns=time_ns, time=time_time, sleep=sleep,
                         monotonic=time_time)

        def randint(a, b):
            return self.ctx.int('randint', a, b)

        rnd = ModProxy(random, randint=randint,
                       randrange=lambda a, b=None: randint(a, b - 1) if b is not None else randint(0, a - 1))

        class FakeSession:
            def get(self, *a, **kw):
                raise RuntimeError('unexpected network access')
            post = get

        self.session = FakeSession()
        wutil = ModProxy(webutil.util, now=now, session=self.session,
                         read=lambda *a, **kw: None)
        out = {'time': timep, 'random': rnd, 'webutil.util': wutil}
        if self.sym:
            import lexrpc.server

            def Server(**kw):
                w.server_stub = StubServer(w)
                return w.server_stub
            out['lexrpc.server'] = ModProxy(lexrpc.server, Server=Server)
            import cryptography.hazmat.primitives.asymmetric.ec as ec
        from . import fakendb
        self.ndb = fakendb.make(self)
        out.update(self.ndb.overrides)
        # datetime with a controlled clock
        import datetime as dtm

        class DT(dtm.datetime):
            @classmethod
            def now(cls, tz=None):
                d = now()
                return d if tz is not None else d.replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                return now().replace(tzinfo=None)

            @staticmethod
            def fromisoformat(s):
                if type(s) is libsym.SymIso:
                    return s.dt
                return dtm.datetime.fromisoformat(s)

            @classmethod
            def __class_getitem__(cls, x):
                return cls

        class Meta(type):
            def __instancecheck__(c, x):
                return isinstance(x, dtm.datetime)

            def __call__(c, *a, **kw):
                return dtm.datetime(*a, **kw)

        class datetime(metaclass=Meta):
            now = staticmethod(lambda tz=None: DT.now(tz))
            utcnow = staticmethod(lambda: DT.utcnow())
            fromisoformat = staticmethod(DT.fromisoformat)
            combine = dtm.datetime.combine
            strptime = dtm.datetime.strptime
            min, max = dtm.datetime.min, dtm.datetime.max

            @staticmethod
            def fromtimestamp(t, tz=None):
                if type(t) in (SymInt, SymReal):
                    r = t * 1_000_000
                    us = r if type(r) is SymInt else r.__round__()
                    return SymDatetime(us, tz)
                return dtm.datetime.fromtimestamp(t, tz)
        self.datetime_cls = datetime
        UNITS = dict(days=86_400_000_000, seconds=1_000_000, microseconds=1, milliseconds=1000, minutes=60_000_000,
                     hours=3_600_000_000, weeks=604_800_000_000)

        class TDMeta(type):
            def __instancecheck__(c, x):
                return isinstance(x, dtm.timedelta)

            def __call__(c, *a, **kw):
                kw.update(zip(UNITS, a))
                if any(is_sym(v) for v in kw.values()):
                    us = 0
                    for k, v in kw.items():
                        v = v * UNITS[k]
                        us = us + (v if type(v) in (int, SymInt) else v.__round__())
                    return SymTimedelta.make(us) if is_sym(us) else dtm.timedelta(microseconds=us)
                return dtm.timedelta(**kw)

        class timedelta(metaclass=TDMeta):
            min, max, resolution = dtm.timedelta.min, dtm.timedelta.max, dtm.timedelta.resolution
        dmod = ModProxy(dtm, datetime=datetime, timedelta=timedelta)
        out['datetime'] = dmod
        return out

    def datetime_of(self, us):
        """The UTC datetime us microseconds after the epoch."""
        if is_sym(us):
            return SymDatetime(us, UTC)
        return EPOCH + us * _dt.timedelta(microseconds=1)

    @staticmethod
    def us_of(dt):
        """Microseconds from the epoch to a datetime."""
        return SymDatetime.of(dt).us

    # ---- content
    def cid_of(self, obj, codec='dag-cbor'):
        """CID of a DAG-CBOR object, computed independently of arroba."""
        if self.sym:
            return libsym.SymCID.new('content', (codec, libsym.dag_cbor_encode(obj)))
        import dag_cbor
        from multiformats import CID, multihash
        return CID('base58btc', 1, codec, multihash.digest(dag_cbor.encode(obj), 'sha2-256'))

    def cid(self, name, lo=0, hi=3):
        """A leaf value CID with a symbolic identity."""
        n = self.ctx.int(name, lo, hi)
        return self.cid_n(n)

    def cid_n(self, n):
        if self.sym:
            return libsym.SymCID.atom(n)
        return self.cid_of({'$cid': n})

    def encode(self, obj):
        if self.sym:
            return libsym.dag_cbor_encode(obj)
        import dag_cbor
        return dag_cbor.encode(obj)

    def decode(self, enc):
        if self.sym:
            return libsym.dag_cbor_decode(enc)
        import dag_cbor
        return dag_cbor.decode(enc)

    def read_car(self, car):
        """-> (roots, [(cid, encoded)])"""
        if self.sym:
            roots, blocks = libsym.read_car(car, validate=False)
        else:
            from carbox import read_car
            roots, blocks = read_car(car, validate=False)
        return list(roots), [(b.cid, b.data) for b in blocks]

    def write_car(self, roots, blocks):
        """blocks: [(cid, encoded)]"""
        if self.sym:
            return libsym.SymCar(list(roots), list(blocks))
        from carbox import car
        return car.write_car(roots, [car.Block(cid=c, data=d) for c, d in blocks])

    def b32(self, cid):
        return cid.encode('base32')

    # ---- MST keys
    def key(self, name, colls=('a',)):
        """An arbitrary MST key <coll>/<rkey> (its hash layer is arbitrary too)."""
        ctx = self.ctx
        ci = ctx.choose(name + '.coll', len(colls)) if len(colls) > 1 else 0
        coll = colls[ci]
        name = ctx.fresh(name)
        if not self.sym:
            v = ctx.values.get(name)
            if v is None:
                return f'{coll}/zz{name}'
            return ctx_key(ctx, v['key'])
        code = z3.Int(name)
        ctx.add(in_codes(code, sorted(RKEY)))
        ctx.codes[code.get_id()] = (RKEY, code)
        ctx.bounded(code, min(RKEY), max(RKEY))
        ctx.model_ = None
        k = SymStr([ord(c) for c in coll] + [ord('/'), code])

        # registers the hash (so that its range constraint is part of every query)
        b0 = libsym.sha_bytes(SymBytes(k.chars)).chars[0]

        def extract(m, ev):
            b = m.eval(b0, model_completion=True).as_long()
            return {'key': [coll, ev(code), layer_of_byte(b)]}
        ctx.inputs[name] = ('fn', extract)
        self._keys[name] = k
        return k

    def sorted_keys(self, name, n, **kw):
        ks = [self.key(f'{name}{i}', **kw) for i in range(n)]
        if self.sym:
            for a, b in zip(ks, ks[1:]):
                self.ctx.add((a < b).e if type(a < b) is SymBool else z3.BoolVal(a < b))
            self.ctx.model_ = None
        return ks

    def layer(self, key):
        """Reference: number of leading zero *pairs of bits* of SHA-256(key)."""
        if self.sym:
            k = key if is_sym(key) else None
            data = libsym.sha_bytes(key.encode())
            b0 = data[0]
            if not is_sym(b0):
                return leading_zero_pairs(bytes(data))
            for l, lim in enumerate((64, 16, 4, 1)):
                if b0 >= lim:
                    return l
            self.ctx.unsupported('layer >= 4')
        return leading_zero_pairs(hashlib.sha256(key.encode()).digest())

    # ---- records
    def record(self, n, type_='com.example.x', size=None):
        """A record whose identity is n (int or SymInt)."""
        rec = {'$type': type_, 'n': n}
        if size is not None:
            rec['pad'] = self.pad(rec, size)
        return rec

    def pad(self, rec, size):
        if self.sym:
            return libsym.Pad(size)
        import dag_cbor
        base = len(dag_cbor.encode({**rec, 'pad': ''}))
        p = max(0, size - base)
        for k in range(p, max(-1, p - 12), -1):
            if len(dag_cbor.encode({**rec, 'pad': 'x' * k})) <= size:
                return 'x' * k
        return ''


def leading_zero_pairs(digest):
    bits = ''.join(f'{b:08b}' for b in digest)
    return (len(bits) - len(bits.lstrip('0'))) // 2


def layer_of_byte(b):
    for l, lim in enumerate((64, 16, 4, 1)):
        if b >= lim:
            return l
    return 4


def ctx_key(ctx, spec):
    """Real key for (coll, code, layer): order-preserving within a collection."""
    table = getattr(ctx, '_keytable', None)
    if table is None:
        groups = {}

        def visit(v):
            if isinstance(v, dict):
                if 'key' in v:
                    coll, code, layer = v['key']
                    groups.setdefault(coll, {})[code] = layer
                else:
                    for x in v.values():
                        visit(x)
            elif isinstance(v, list):
                for x in v:
                    visit(x)
        visit(ctx.values)
        table = {}
        for coll, codes in groups.items():
            i = 0
            for code in sorted(codes):
                while True:
                    i += 1
                    k = f'{coll}/{chr(code)}{i:06d}'
                    if leading_zero_pairs(hashlib.sha256(k.encode()).digest()) == codes[code]:
                        break
                table[coll, code] = k
        ctx._keytable = table
    coll, code, _ = spec
    return table[coll, code]
