"""C32: limits of what can be committed."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('In-memory and Datastore storage; repos with 0-2 (thorough 3) records; commits of 0-3 operations of any kind on any of these or new keys of hash layer 0, with records of any sizes from 60 bytes to 2 MB, '
          'each with a type that is valid or not; by Storage.commit, or createRecord and putRecord; and commits of 199, 200, 201 and 400 operations of any one kind.')
OUTSIDE = 'Limits on the size of commits and events (not implemented). What lexicons accept (lexrpc).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'signing is opaque']
MAX_RECORD, MAX_OPS = 1_000_000, 200


class Invalid(ValueError):
    pass


def make(ctx, w, items, recs, ds):
    """-> (storage, number of blocks)"""
    if ds:
        env = DSEnv(w, items)
        for r in recs:
            ds_block(w, r, 1)
        return env, lambda: len(ds_rows(w))
    env = Env(w, items)
    for r in recs:
        put_record(w, env.st, r)
    return env, lambda: len(env.st.blocks)


@H(quick=[dict(ds=False, n=n, ops=o) for n, o in ((0, 0), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2), (0, 3))] + [dict(ds=True, n=1, ops=1)],
   thorough=[dict(ds=False, n=3, ops=2), dict(ds=True, n=2, ops=2), dict(ds=False, n=1, ops=3), dict(ds=False, n=2, ops=3), dict(ds=True, n=0, ops=3)])
def records(ctx, ds, n, ops):
    ctx.memo['min_byte0'] = 64
    import flask, types
    from symx.loader import ModProxy
    req = types.SimpleNamespace(headers={'Authorization': 'Bearer towkin'})
    w = World(ctx, env={'REPO_TOKEN': 'towkin'}, overrides={'flask': ModProxy(flask, request=req)})
    ks = w.sorted_keys('k', n)
    recs = [w.record(i) for i in range(n)]
    items = [(k, w.cid_of(r)) for k, r in zip(ks, recs)]
    env, nblocks = make(ctx, w, items, recs, ds)
    if ds:
        with env.client.context():
            records_in(ctx, w, env, nblocks, items, ops)
    else:
        records_in(ctx, w, env, nblocks, items, ops)


def records_in(ctx, w, env, nblocks, items, ops):
    st = env.st
    seen = []

    def validate(type_, kind, obj, **kw):
        seen.append((type_, kind, obj))
        if kind == 'record' and type_.startswith('in.valid'):
            raise Invalid('invalid')
        return obj
    w.mods.server.server.validate = validate
    writes, ok, expect = [], True, []
    cur = items
    for s in range(ops):
        m = len(cur)
        op = OPS[ctx.choose(f'op{s}', 3)] if m else 'add'
        i = ctx.choose(f'at{s}', m + 1 if op == 'add' else m)
        key = w.key(f'new{s}') if op == 'add' else cur[i][0]
        if op == 'add':
            assume_at(ctx, cur, i, key)
        rec = None
        if op != 'delete':
            type_ = ('com.example.x', 'in.valid')[ctx.choose(f'type{s}', 2)]
            size = ctx.int(f'size{s}', 60, 2 * MAX_RECORD)
            rec = w.record(100 + s, type_=type_, size=size)
            expect.append(rec)
            ok = ok and type_ != 'in.valid' and not size > MAX_RECORD
        val = None if op == 'delete' else w.cid_of(rec)
        writes.append(write_of(w, {'add': 'create'}.get(op, op), key, rec))
        cur = model_op(ctx, cur, op, key, val, (i, op != 'add'))
    how = ctx.choose('how', 2) if ops == 1 and writes[0].record is not None else 0
    before, head, last = nblocks(), st.load_repo(DID).head.cid, st.sequences.last(NSID)
    calls = []
    repo = st.load_repo(DID)
    repo.callback = lambda data=None, lost_seq=None: calls.append((data, lost_seq))
    failed = None
    try:
        if how:
            x = writes[0]
            w.mods.server.storage = st
            fn = w.mods.xrpc_repo.put_record if len(cur) == len(items) else w.mods.xrpc_repo.create_record
            fn({'repo': DID, 'collection': x.collection, 'rkey': x.rkey, 'record': x.record})
        elif ops == 1 and ctx.choose('one', 2):
            st.commit(repo, writes[0])
        else:
            st.commit(repo, writes)
    except ValueError as e:
        failed = e
    ctx.check((failed is None) == ok, 'a commit works iff its records are valid and none is over 1 MB')
    now = st.load_repo(DID)
    if failed is None:
        ctx.check(items_eq(items_of(now.mst), cur), 'contents')
        got = [x for x in seen if x[1] == 'record']
        ctx.check(len(got) == len(expect), 'number of validated records')
        for a, b in zip(got, expect):
            ctx.check(a[0] == b['$type'] and a[2] == b, 'validated record')
        for k, v in cur:
            b = st.read(v)
            ctx.check(b is not None and b.cid == v, 'a record is not stored')
    else:
        ctx.check(now.head.cid == head and nblocks() == before, 'a refused commit left something')
        ctx.check(items_eq(items_of(now.mst), items), 'contents after a refused commit')
        if how == 0:
            ctx.check(calls == [(None, last + 1)], 'unused sequence number')
    ctx.reach('ok' if ok else 'refused')
    ctx.reach()


@H(quick=[dict(ds=False)], thorough=[dict(ds=False), dict(ds=True)])
def many(ctx, ds):
    """Concrete, since all that matters is the number of operations."""
    w = World(ctx)
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    op = OPS[ctx.choose('op', 3)]
    count = (199, 200, 201, 400)[ctx.choose('count', 4)]
    have = [f'a/k{i:03}' for i in range(count)] if op != 'add' else []
    items = [(k, w.cid_of(w.record(0))) for k in have]
    env, nblocks = make(ctx, w, items, [w.record(0)], ds)
    new = [write_of(w, {'add': 'create'}.get(op, op), f'a/k{i:03}', None if op == 'delete' else w.record(1)) for i in range(count)]

    def go():
        st = env.st
        head, before = st.load_repo(DID).head.cid, nblocks()
        try:
            st.commit(st.load_repo(DID), new)
        except ValueError:
            ctx.check(count > MAX_OPS, 'refused')
            ctx.check(st.load_repo(DID).head.cid == head and nblocks() == before, 'a refused commit left something')
            return ctx.reach('refused')
        ctx.check(count <= MAX_OPS, 'too many operations')
        ctx.check(len(items_of(st.load_repo(DID).mst)) == (0 if op == 'delete' else count), 'contents')
    if ds:
        with env.client.context():
            go()
    else:
        go()
    ctx.reach()
