"""In-memory google.cloud.ndb, used by both symbolic and concrete runs.

There is no Datastore emulator in the sandbox, so DatastoreStorage and friends run
against this model of the parts of ndb they use: entities are snapshots, transactions
are serializable with optimistic concurrency (reads see the snapshot at the start of the
transaction, commit fails and retries when something read or written has changed),
``join``/``INDEPENDENT``/``non_transactional`` propagation, required properties,
write-once blobs, per-thread contexts, and the gRPC lookup call with its 1000 key limit
and deferred keys.
"""
import contextlib
import copy
import functools
import threading
import types

from .values import is_sym
from .loader import ModProxy


class ContextError(Exception):
    pass


class BadValueError(Exception):
    pass


class ReadonlyPropertyError(Exception):
    pass


class Contention(Exception):
    """google.api_core.exceptions.Aborted"""


MAX_KEYPART_BYTES = 1500


class Options:
    INDEPENDENT = 'independent'
    MANDATORY = 'mandatory'
    ALLOWED = 'allowed'
    NESTED = 'nested'


class Filter:
    def __init__(self, name, op, value):
        self.name, self.op, self.value = name, op, value

    def match(self, row):
        if self.name == '__key__':
            v = row.key
        else:
            v = row.values.get(self.name)
        o = self.value
        if self.op == 'in':
            for x in o:
                if v == x:
                    return True
            return False
        if isinstance(v, list):
            for x in v:
                if self._cmp(x, o):
                    return True
            return False
        return self._cmp(v, o)

    def _cmp(self, v, o):
        if v is None or o is None:
            if self.op == '=':
                return v is None and o is None
            if self.op == '!=':
                return not (v is None and o is None)
            return False
        return bool({'=': lambda: v == o, '!=': lambda: v != o, '<': lambda: v < o,
                     '<=': lambda: v <= o, '>': lambda: v > o,
                     '>=': lambda: v >= o}[self.op]())


class Property:
    def __init__(self, kind=None, *, required=False, choices=None, repeated=False,
                 default=None, auto_now_add=False, auto_now=False, tzinfo=None,
                 write_once=False, **kw):
        self.kind = kind
        self.required, self.choices, self.repeated = required, choices, repeated
        self.default, self.auto_now_add, self.auto_now = default, auto_now_add, auto_now
        self.tzinfo, self.write_once = tzinfo, write_once
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls):
        if obj is None:
            return self
        if self.name not in obj._values:
            v = [] if self.repeated else self.default
            if self.repeated:
                obj._values[self.name] = v
            return v
        return obj._values[self.name]

    def __set__(self, obj, val):
        if self.repeated:
            if not isinstance(val, (list, tuple, set, frozenset)):
                raise BadValueError(f'{self.name}: expected list')
            val = list(val)
        elif self.choices and val is not None and val not in self.choices:
            raise BadValueError(f'{self.name}: {val} not in choices')
        if (self.write_once and obj._values.get(self.name) is not None
                and not (obj._values[self.name] == val)):
            raise ReadonlyPropertyError(f'{self.name} is write once')
        obj._values[self.name] = val

    def _f(self, op, o):
        return Filter(self.name, op, o)

    def __eq__(self, o): return self._f('=', o)
    def __ne__(self, o): return self._f('!=', o)
    def __lt__(self, o): return self._f('<', o)
    def __le__(self, o): return self._f('<=', o)
    def __gt__(self, o): return self._f('>', o)
    def __ge__(self, o): return self._f('>=', o)
    def IN(self, o): return self._f('in', list(o))
    def __neg__(self): return Desc(self)
    __hash__ = object.__hash__


class Desc:
    def __init__(self, p):
        self.p = p


class KeyAttr(Property):
    """Model.key"""
    def __init__(self):
        super().__init__()
        self.name = '__key__'

    def __set_name__(self, owner, name):
        pass

    def __get__(self, obj, cls):
        return self if obj is None else obj.__dict__.get('_key')

    def __set__(self, obj, val):
        obj.__dict__['_key'] = val


class Row:
    __slots__ = ('key', 'values', 'version', 'n')

    def __init__(self, key, values, version, n):
        self.key, self.values, self.version, self.n = key, values, version, n


def _copy_values(v):
    out = {}
    for k, x in v.items():
        if isinstance(x, list):
            x = [copy.copy(i) for i in x]
        out[k] = x
    return out


class Txn:
    def __init__(self, db):
        self.snapshot = {k: dict(t) for k, t in db.tables.items()}
        self.writes = []        # [(kind, id, values or None)]
        self.seen = []          # [(kind, id, version or 0)]
        self.queries = []       # [(kind, filters, [(id, version)])]


class Context:
    def __init__(self, client, txn=None):
        self.client, self.txn = client, txn
        self.dead = False

    @contextlib.contextmanager
    def use(self):
        st = self.client.db.state
        prev = st.context
        st.context = self
        try:
            yield self
        finally:
            st.context = prev

    def in_transaction(self):
        return self.txn is not None


class DB:
    """One Datastore."""
    def __init__(self, world):
        self.w = world
        self.tables = {}
        self.version = 0
        self.n = 0
        self.state = _State()
        self.query_hook = None      # (kind, i, row) called before each query result
        self.lookup_hook = None     # names -> (found order, deferred)
        self.put_hook = None        # (kind, id) before a write is applied
        self.ops = 0
        self.tie = None

    def yp(self, what):
        self.ops += 1
        y = getattr(self.w, 'yp', None)
        if y is not None:
            y(what)

    def ctx(self):
        c = self.state.context
        if c is None:
            raise ContextError('No current context')
        return c

    def table(self, kind, txn):
        src = txn.snapshot if txn else self.tables
        return src.get(kind, {})

    def get(self, kind, id, raw=False):
        c = self.ctx()
        self.yp(f'get {kind}')
        t = c.txn
        if t:
            for k, i, v in reversed(t.writes):
                if k == kind and i == id:
                    return v
        row = self.table(kind, t).get(id)
        if t:
            t.seen.append((kind, id, row.version if row else 0))
        return row.values if row else None

    def put(self, kind, key, values):
        c = self.ctx()
        self.yp(f'put {kind}')
        if self.put_hook:
            self.put_hook(kind, key.id())
        if c.txn:
            c.txn.writes.append((kind, key.id(), _copy_values(values)))
        else:
            self.apply(kind, key.id(), _copy_values(values))

    def apply(self, kind, id, values):
        self.version += 1
        t = self.tables.setdefault(kind, {})
        old = t.get(id)
        self.n += 1
        t[id] = Row(Key(kind, id), values, self.version, old.n if old else self.n)

    def commit(self, txn):
        self.yp('txn commit')
        for kind, id, ver in txn.seen + [(k, i, None) for k, i, _ in txn.writes]:
            row = self.tables.get(kind, {}).get(id)
            now = row.version if row else 0
            if ver is None:
                r = txn.snapshot.get(kind, {}).get(id)
                ver = r.version if r else 0
            if now != ver:
                raise Contention(f'{kind} {id} changed')
        for kind, id, values in txn.writes:
            self.apply(kind, id, values)

    def transaction(self, fn, retries=3, join=False, propagation=None, **kw):
        c = self.ctx()
        if propagation == Options.INDEPENDENT:
            join = False
        elif propagation in (Options.ALLOWED, Options.MANDATORY):
            join = True
        if c.txn is not None:
            if join:
                return fn()
            if propagation != Options.INDEPENDENT:
                raise NotImplementedError('Transactions may not be nested. Pass join=True')
        attempt = 0
        while True:
            self.yp('txn begin')
            txn = Txn(self)
            tc = Context(c.client, txn)
            try:
                with tc.use():
                    ret = fn()
                self.commit(txn)
                return ret
            except Contention:
                attempt += 1
                if attempt > retries:
                    raise

    def run_query(self, q):
        c = self.ctx()
        self.yp(f'query {q.model._kind}')
        rows = list(self.table(q.model._kind, c.txn).values())
        out = []
        for r in rows:
            if all(f.match(r) for f in q.filters):
                out.append(r)
        orders = q.orders or []
        # datastore breaks ties, and orders by default, by key
        for_key = any(f.name == '__key__' and f.op != 'in' for f in q.filters)
        symkeys = any(is_sym(r.key.id()) for r in out)
        if not symkeys:
            out = _sort(out, lambda r: r.key.id())
        elif self.tie is not None:
            out = self.tie(out)
        for o in reversed(orders):
            desc = isinstance(o, Desc)
            p = o.p if desc else o
            if p.name == '__key__':
                out = _sort(out, lambda r: r.key.id(), desc)
            else:
                out = _sort([r for r in out if r.values.get(p.name) is not None],
                            lambda r: r.values[p.name], desc)
        return out


def _sort(items, key, desc=False):
    """Insertion sort, works with symbolic comparisons. Stable."""
    out = []
    for x in items:
        k = key(x)
        i = len(out)
        while i > 0:
            pk = key(out[i - 1])
            if (k > pk) if desc else (k < pk):
                i -= 1
            else:
                break
        out.insert(i, x)
    return out


class _State(threading.local):
    context = None
    toplevel_context = None


class Key:
    def __init__(self, kind, id, **kw):
        if not isinstance(kind, str):
            kind = kind._kind
        self._kind, self._id = kind, id
        if isinstance(id, str) and not is_sym(id) and len(id.encode()) > MAX_KEYPART_BYTES:
            raise BadValueError('key name too long')
        if id is None or id == '':
            raise BadValueError('empty key')

    def id(self): return self._id
    def string_id(self): return self._id
    def kind(self): return self._kind

    def __eq__(self, o):
        return isinstance(o, Key) and self._kind == o._kind and self._id == o._id

    def __ne__(self, o):
        r = self == o
        return not r

    def __hash__(self): return hash((self._kind, self._id))
    def _c(self, o, f):
        assert self._kind == o._kind
        return f(self._id, o._id)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __repr__(self): return f'Key({self._kind!r}, {self._id!r})'
    def get(self): return self._db_model().get_by_id(self._id)


class Query:
    def __init__(self, model, filters=()):
        self.model, self.filters, self.orders = model, list(filters), []

    def _clone(self):
        q = Query(self.model, self.filters)
        q.orders = list(self.orders)
        return q

    def filter(self, *fs):
        q = self._clone()
        q.filters += fs
        return q

    def order(self, *os):
        q = self._clone()
        q.orders += os
        return q

    def fetch(self, limit=None, keys_only=False, **kw):
        rows = self.model._db.run_query(self)
        if limit is not None:
            rows = rows[:limit]
        return [r.key if keys_only else self.model._from_row(r) for r in rows]

    def get(self, **kw):
        got = self.fetch(limit=1)
        return got[0] if got else None

    def count(self, limit=None):
        return len(self.fetch(limit=limit))

    def iter(self, limit=None, keys_only=False, **kw):
        db = self.model._db
        c = db.ctx()
        rows = db.run_query(self)
        if limit is not None:
            rows = rows[:limit]
        for i, r in enumerate(rows):
            if db.state.context is not c or c.dead:
                raise ContextError('query used outside its context')
            if db.query_hook:
                db.query_hook(self.model._kind, i, r)
            yield r.key if keys_only else self.model._from_row(r)
        if db.query_hook:
            db.query_hook(self.model._kind, len(rows), None)

    __iter__ = iter


def make_ndb(world):
    db = DB(world)

    class MetaModel(type):
        def __new__(mcs, name, bases, ns):
            cls = super().__new__(mcs, name, bases, ns)
            cls._kind = name
            cls._props = {}
            for b in reversed(cls.__mro__):
                for k, v in vars(b).items():
                    if isinstance(v, Property) and not isinstance(v, KeyAttr):
                        v.name = k
                        cls._props[k] = v
            return cls

    class Model(metaclass=MetaModel):
        _db = db
        key = KeyAttr()

        def __init__(self, id=None, key=None, parent=None, **props):
            self.__dict__['_values'] = {}
            self.__dict__['_key'] = key if key is not None else (
                Key(self._kind, id) if id is not None else None)
            for k, v in props.items():
                if k not in self._props:
                    raise AttributeError(f'{self._kind} has no property {k}')
                setattr(self, k, v)

        @classmethod
        def _from_row(cls, row):
            return cls._make(row.key, row.values)

        @classmethod
        def _make(cls, key, values):
            o = cls.__new__(cls)
            o.__dict__['_values'] = _copy_values(values)
            o.__dict__['_key'] = key
            return o

        def _pre_put(self):
            pass

        @classmethod
        def _get_kind(cls):
            return cls._kind

        def put(self, **kw):
            self._pre_put()
            now = None
            for k, p in self._props.items():
                if p.auto_now or (p.auto_now_add and self._values.get(k) is None):
                    now = now or world.util_now().replace(tzinfo=None)
                    self._values[k] = now
                v = getattr(self, k)
                if p.required and (v is None or (p.repeated and not v)):
                    raise BadValueError(f'Entity has uninitialized properties: {k}')
                if p.default is not None and v is p.default:
                    self._values[k] = v
            assert self._key is not None, 'allocated ids are not modelled'
            db.put(self._kind, self._key, self._values)
            return self._key

        @classmethod
        def get_by_id(cls, id, **kw):
            v = db.get(cls._kind, id)
            return None if v is None else cls._make(Key(cls._kind, id), v)

        @classmethod
        def get_or_insert(cls, id, *a, **props):
            def run():
                got = cls.get_by_id(id)
                if got is not None:
                    return got
                e = cls(id=id, **props)
                e.put()
                return e
            # https://github.com/googleapis/python-ndb: inside a transaction, or in a
            # new one otherwise
            return db.transaction(run, join=True)

        @classmethod
        def query(cls, *filters, **kw):
            return Query(cls, filters)

        def __eq__(self, o):
            return type(o) is type(self) and o._key == self._key and o._values == self._values

        __hash__ = None

        def __repr__(self):
            return f'{self._kind}({self._key})'

        def __copy__(self):
            return type(self)._make(self._key, self._values)

    def get_multi(keys, **kw):
        out = []
        for k in keys:
            v = db.get(k.kind(), k.id())
            out.append(None if v is None else models[k.kind()]._make(k, v))
        return out

    def put_multi(es, **kw):
        return [e.put() for e in es]

    models = {}
    orig = MetaModel.__init__

    def minit(cls, name, bases, ns):
        type.__init__(cls, name, bases, ns)
        models[name] = cls
    MetaModel.__init__ = minit
    Key._db_model = lambda self: models[self._kind]

    def prop(**fixed):
        def mk(*a, **kw):
            return Property(*a, **{**kw, **fixed})
        return mk

    ndb = types.ModuleType('google.cloud.ndb')
    ndb.Model, ndb.Key = Model, Key
    for n in ('String', 'Text', 'Integer', 'Float', 'Boolean', 'Blob', 'Json', 'Computed',
              'DateTime', 'Key', 'Structured', 'Generic'):
        setattr(ndb, f'{n}Property', prop())
    ndb.STRONG, ndb.EVENTUAL = 'strong', 'eventual'
    ndb.get_multi, ndb.put_multi = get_multi, put_multi
    ndb.transaction = db.transaction

    def transactional(retries=3, join=True, propagation=None, **kw):
        # ndb.transactional()'s default is join=True
        if join is None:
            join = propagation != Options.INDEPENDENT

        def dec(fn):
            @functools.wraps(fn)
            def run(*a, **k):
                return db.transaction(lambda: fn(*a, **k), retries=retries, join=join,
                                      propagation=propagation)
            return run
        return dec

    def non_transactional(allow_existing=True):
        def dec(fn):
            @functools.wraps(fn)
            def run(*a, **k):
                c = db.ctx()
                if c.txn is None:
                    return fn(*a, **k)
                if not allow_existing:
                    raise BadValueError('called within a transaction')
                with Context(c.client).use():
                    return fn(*a, **k)
            return run
        return dec

    ndb.transactional, ndb.non_transactional = transactional, non_transactional
    ndb.in_transaction = lambda: db.ctx().txn is not None
    ndb.BadValueError = BadValueError

    context = types.ModuleType('google.cloud.ndb.context')
    context._state = db.state
    context.TransactionOptions = Options
    context.Context = Context

    def get_context(raise_context_error=True):
        c = db.state.context
        if c is None and raise_context_error:
            raise ContextError('No current context')
        return c
    context.get_context = get_context
    ndb.context, ndb.get_context = context, get_context

    exceptions = types.ModuleType('google.cloud.ndb.exceptions')
    exceptions.ContextError, exceptions.BadValueError = ContextError, BadValueError
    ndb.exceptions = exceptions
    keymod = types.ModuleType('google.cloud.ndb.key')
    keymod._MAX_KEYPART_BYTES = MAX_KEYPART_BYTES
    keymod.Key = Key

    class Future:
        def __init__(self, fn):
            self.fn = fn

        def result(self, *a):
            return self.fn()

    class Lookup:
        def future(self, req, timeout=None, metadata=None, **kw):
            keys = list(req.keys)

            def run():
                db.yp('lookup')
                if len(keys) > 1000:
                    raise ValueError('400 cannot get more than 1000 keys in a single call')
                if not keys:
                    return types.SimpleNamespace(found=[], missing=[], deferred=[])
                now, deferred = keys, []
                if db.lookup_hook:
                    now, deferred = db.lookup_hook(keys)
                found, missing = [], []
                for k in now:
                    row = db.tables.get(k.path[-1].kind, {}).get(k.path[-1].name)
                    if row is None:
                        missing.append(k)
                        continue
                    props = {n: types.SimpleNamespace(blob_value=v, integer_value=v,
                                                      string_value=v)
                             for n, v in row.values.items()}
                    found.append(types.SimpleNamespace(entity=types.SimpleNamespace(
                        key=k, properties=props)))
                return types.SimpleNamespace(found=found, missing=missing,
                                             deferred=deferred)
            return Future(run)

        def __call__(self, req, **kw):
            return self.future(req).result()

    class Client:
        def __init__(self, *a, **kw):
            self.project, self.database = 'p', None
            self.db = db
            self.stub = types.SimpleNamespace(lookup=Lookup())
            self.kwargs = []

        @contextlib.contextmanager
        def context(self, **kw):
            self.kwargs.append(kw)
            st = db.state
            if st.context is not None:
                raise ContextError('Context is already created for this thread.')
            c = Context(self)
            st.context = st.toplevel_context = c
            try:
                yield c
            finally:
                st.context = st.toplevel_context = None

    ndb.Client = Client

    NS = types.SimpleNamespace

    class PKey(NS):
        def __init__(self, **kw):
            super().__init__(**kw)

        class PathElement(NS):
            pass

    entity_pb2 = types.ModuleType('entity')
    entity_pb2.Key = PKey
    entity_pb2.PartitionId = NS
    ds_pb2 = types.ModuleType('datastore')
    ds_pb2.LookupRequest = NS

    wm = types.ModuleType('webutil.models')
    wm.EncryptedProperty = prop()
    wm.WriteOnceBlobProperty = prop(write_once=True)

    db.models = models
    db.ndb = ndb
    db.Client = Client
    db.context = context
    db.overrides = {
        'google.cloud.ndb': ndb,
        'google.cloud.ndb.context': context,
        'google.cloud.ndb.exceptions': exceptions,
        'google.cloud.ndb.key': keymod,
        'google.cloud.datastore_v1.types.datastore': ds_pb2,
        'google.cloud.datastore_v1.types.entity': entity_pb2,
        'webutil.models': wm,
    }
    return db


make = make_ndb
