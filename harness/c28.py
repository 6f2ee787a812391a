"""C28: com.atproto.sync.getRecord proves that the record is in the repo."""
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy

H = Registry()
BOUNDS = ('In-memory and Datastore storage; repos with 1-3 (thorough 4) records with any keys in two collections of all hash layers 0..3, any two records equal or not; '
          'each of them and any missing key; also after one arbitrary commit.')
OUTSIDE = 'Proofs that a record does not exist.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']
COLLS = ('a', 'ab')


@H(quick=[dict(n=n, ds=False) for n in (1, 2, 3)] + [dict(n=2, ds=True), dict(n=1, ds=False, commit=True)],
   thorough=[dict(n=4, ds=False), dict(n=3, ds=True), dict(n=2, ds=False, commit=True), dict(n=2, ds=True, commit=True)])
def proof(ctx, n, ds, commit=False):
    ctx.memo['min_byte0'] = 1       # layers 0 to 3
    w = World(ctx)
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    ks = w.sorted_keys('k', n, colls=COLLS)
    recs = [w.record(ctx.choose(f'same{i}', 2) and i) for i in range(n)]
    items = [(k, w.cid_of(r)) for k, r in zip(ks, recs)]
    if ds:
        env = DSEnv(w, items)
        for r in recs:
            ds_block(w, r, 1)
        with env.client.context():
            check(ctx, w, env, items, recs, commit)
    else:
        env = Env(w, items)
        for r in recs:
            put_record(w, env.st, r)
        check(ctx, w, env, items, recs, commit)


def check(ctx, w, env, items, recs, commit):
    values = [(k, v, r) for (k, v), r in zip(items, recs)]
    if commit:
        op = ('add', 'update', 'delete')[ctx.choose('op', 3)]
        i = ctx.choose('at', len(items) + 1 if op == 'add' else len(items))
        key = items[i][0]  if op != 'add' else w.key('new')
        if op == 'add':
            assume_at(ctx, items, i, key)
        rec = w.record(50)
        env.st.commit(env.st.load_repo(DID), write_of(w, {'add': 'create'}.get(op, op), key, None if op == 'delete' else rec))
        if op != 'add':
            del values[i]
        if op != 'delete':
            values.insert(i, (key, w.cid_of(rec), rec))
    which = ctx.choose('which', len(values) + 1)
    if which < len(values):
        key, val, rec = values[which]
    else:
        key = w.key('missing', colls=COLLS)
        for k, _, _ in values:
            ctx.assume(NOT(k == key))
    coll, rkey = key.split('/')
    try:
        car = w.mods.xrpc_sync.get_record({}, did=DID, collection=coll, rkey=rkey)
    except Exception as e:
        if type(e).__name__ != 'XrpcError':
            raise
        ctx.check(e.name == 'RecordNotFound', 'error')
        ctx.check(which == len(values), 'a record is not found')
        ctx.reach('missing')
        return
    ctx.check(which < len(values), 'a missing record is found')
    head = env.st.load_repo(DID).head
    roots, sections = w.read_car(car)
    ctx.check(len(roots) == 1 and roots[0] == head.cid, 'root')
    blocks = {}
    for cid, enc in sections:
        d = w.decode(enc)
        ctx.check(w.cid_of(d) == cid, 'a block that does not match its CID')
        blocks[cid] = d
    ctx.check(head.cid in blocks and blocks[head.cid] == head.decoded, 'head commit')
    ctx.check(val in blocks and blocks[val] == rec, 'record')
    try:
        got = Partial(w, head.decoded['data'], blocks).get(key)
    except Missing:
        ctx.fail('a node of the proof is missing')
    ctx.check(got == val, 'the proof is of another record')
    ctx.reach()
