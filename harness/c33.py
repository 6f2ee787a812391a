"""C33: account operations that are interrupted."""
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy

H = Registry()
BOUNDS = ('In-memory and Datastore storage with two repos, one with 0-1 (thorough 2) records with any keys of hash layers 0 and 1 and any status; creating a third repo, with or without a handle '
          'and rotation key, or deactivating, activating or tombstoning the first one or changing its handle, through a Repo object that was loaded before or after (Datastore) the status was last changed; an error at any one '
          'of the storage\'s operations (Datastore: at any lookup, query, write or transaction, or contention with another transaction), or in any call of the callback; then the operation again, and a commit. '
          'Importing a repo with 0-2 records, with an error at any one of the storage\'s operations, then again.')
OUTSIDE = 'Writes that happen although the Datastore reports an error. Two account operations at the same time.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'signing is opaque']
STATUSES = (None, 'deactivated', 'tombstoned')
KINDS = ('create', 'deactivate', 'activate', 'tombstone', 'handle')
BOB, EVE = 'did:web:bob.com', 'did:web:eve.com'


class Fault(Exception):
    """An error of the storage."""


class Boom(Exception):
    """An error of the callback."""


def faults(ctx, w, st, db, kind, at):
    """Makes the at'th operation of the storage fail. -> (hits, off)"""
    hits, n = [], [0]

    def op(what):
        if hits:
            return
        n[0] += 1
        if kind == 'fault' and n[0] == at + 1:
            hits.append(what)
            raise Fault(what)
        if kind == 'contention' and what == 'txn commit':
            hits.append(what)
            for k in ('AtpSequence', 'AtpRepo'):
                for i, row in list(db.tables[k].items()):
                    db.apply(k, i, dict(row.values))

    if db:
        w.yp = op

        def off():
            w.yp = None
        return hits, off
    saved = []

    def wrap(obj, name):
        real = getattr(obj, name)

        def call(*a, **kw):
            op(name)
            return real(*a, **kw)
        setattr(obj, name, call)
        saved.append((obj, name))
    wrap(st.sequences, 'allocate')
    for name in ('write', 'write_blocks', 'create_repo', 'store_repo', '_set_repo_status'):
        wrap(st, name)

    def off():
        for obj, name in saved:
            delattr(obj, name)
    return hits, off


def state_of(w, r):
    return None if r is None else (r.did, r.handle, r.status, r.head.cid)


def event_list(st, start):
    """[(type or 'commit', did, event)]"""
    out = []
    for e in st.read_events_by_seq(start=start):
        if type(e) is dict:
            out.append((e['$type'].removeprefix(NSID + '#'), e['did'], e))
        else:
            out.append(('commit', e.commit.decoded['did'], e))
    return out


def seq_of(e):
    return e['seq'] if type(e) is dict else e.commit.seq


def run(ctx, w, st, db, items, status):
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    R = w.mods.repo.Repo
    what = KINDS[ctx.choose('what', 5)]
    stale = db and what != 'create' and ctx.flag('object from before')
    did = EVE if what == 'create' else DID
    repo = None
    if what != 'create':
        repo = st.load_repo(DID)
        if stale:
            status = STATUSES[ctx.choose('status since', 3)]
            st._set_repo_status(st.load_repo(DID), status)
    handle = 'ha.ndle' if what == 'handle' or what == 'create' and not ctx.flag('no handle') else None
    rot = new_key(w, 4) if what == 'create' and ctx.flag('rotation key') else None
    key = new_key(w, 5)
    calls, boom = [], []

    def callback(data=None, lost_seq=None):
        calls.append((data, lost_seq))
        if boom and len(calls) == boom[0] + 1:
            raise Boom()

    def go():
        if what == 'create':
            return R.create(st, EVE, signing_key=key, rotation_key=rot, handle=handle, callback=callback)
        elif what == 'handle':
            repo.handle = handle
            st.store_repo(repo)
        else:
            {'deactivate': st.deactivate_repo, 'activate': st.activate_repo, 'tombstone': st.tombstone_repo}[what](repo)

    if repo:
        repo.callback = callback
    before = state_of(w, st.load_repo(did))
    bob = state_of(w, st.load_repo(BOB))
    old = event_list(st, 0)
    new_status = {'deactivate': 'deactivated', 'tombstone': 'tombstoned', 'activate': None, 'create': None,
                  'handle': repo.status if repo else None}[what]
    want = {'create': ['commit', 'identity', 'account', 'sync'], 'tombstone': ['tombstone'], 'handle': []}.get(what, ['account'])
    if what == 'activate' and status == 'tombstoned':
        new_status, want = 'tombstoned', []
    start = st.sequences.last(NSID) + 1
    obj_status = repo.status if repo else None
    obj_after = obj_status if what == 'activate' and status == 'tombstoned' else new_status

    kind = ('none', 'fault', 'callback', 'contention')[ctx.choose('kind', 4 if db else 3)]
    at = ctx.choose('at', (40 if what == 'create' else 16) if db else 12) if kind == 'fault' else 0
    if kind == 'callback':
        boom.append(ctx.choose('call', 5 if what == 'create' else 1))
    hits, off = faults(ctx, w, st, db, kind, at)
    failed = False
    try:
        go()
    except (Fault, Boom):
        failed = True
    off()
    if kind in ('fault', 'contention'):
        ctx.assume(hits)
        ctx.check(failed == (kind == 'fault'), 'an error is hidden' if kind == 'fault' else 'contention is an error')
    elif kind == 'callback':
        ctx.assume(failed)
        failed = True
    else:
        ctx.check(not failed, 'fails')
    del boom[:]

    # where it stopped
    events = event_list(st, 0)
    ctx.check([x[2] == y[2] if type(x[2]) is dict else x[2].commit.cid == y[2].commit.cid for x, y in zip(old, events)] == [True] * len(old), 'earlier events')
    events = events[len(old):]
    ctx.check(all(d == did for _, d, _ in events), 'an event of another repo')
    ctx.check([t for t, _, _ in events] == want[:len(events)], 'events')
    seqs = [seq_of(e) for _, _, e in events]
    ctx.check(seqs == list(range(start, start + len(seqs))), 'sequence numbers')
    last = st.sequences.last(NSID)
    lost = [l for _, l in calls if l is not None]
    if what != 'handle':
        ctx.check(sorted(seqs + lost) == list(range(start, last + 1)), 'a sequence number is neither used nor reported as lost, or both')
    told = [d['seq'] if type(d) is dict else d.commit.seq for d, _ in calls if d is not None]
    ctx.check(all(s in seqs for s in told), 'an event that is not there was reported')
    if kind != 'callback':
        ctx.check(set(told) == set(seqs), 'an event was not reported')
    now = st.load_repo(did)
    if what == 'create':
        ctx.check(now is None or len(events) == 4, 'a repo without its events')
        if now is None:
            ctx.check(failed, 'not created')
    else:
        ctx.check(now.status in (status, new_status) and now.head.cid == before[3], 'state after an error')
        ctx.check(now.status == new_status or not events, 'a status that was announced is not there')
        ctx.check(now.handle in (before[1], handle), 'handle')
        if not failed:
            ctx.check(now.status == new_status and len(events) == len(want), 'status')
        if not stale and what != 'handle':
            ctx.check(repo.status == now.status, 'the Repo object does not have its status')
        elif what != 'handle':
            ctx.check(repo.status in (obj_status, obj_after), 'status of the Repo object')
            ctx.check(now.status == new_status or repo.status == obj_status, 'the Repo object has a status that was not stored')
    ctx.check(state_of(w, st.load_repo(BOB)) == bob, 'another repo')

    # again
    if failed:
        start = last + 1
        del calls[:]
        made = go()
        if what == 'create':
            ctx.check(made is not None and made.did == EVE, 'created')
        events = event_list(st, start)
        ctx.check([t for t, d, _ in events if d == did] == want and len(events) == len(want), 'events, again')
        ctx.check([seq_of(e) for _, _, e in events] == list(range(start, start + len(want))), 'sequence numbers, again')
        ctx.check(not [l for _, l in calls if l is not None], 'lost, again')
    now = st.load_repo(did)
    ctx.check(now is not None and now.status == new_status, 'status, in the end')
    if events and events[-1][0] == 'account':
        e = events[-1][2]
        ctx.check(e['active'] == (new_status is None) and e.get('status') == new_status, 'account event')
    if what == 'create':
        byh = st.load_repo(handle) if handle else now
        ctx.check(byh is not None and byh.did == EVE and byh.handle == handle, 'handle of the new repo')
        ctx.check((now.rotation_key is None) == (rot is None), 'rotation key')
        items = []
        ctx.check(seq_of(events[0][2]) == events[0][2].commit.seq and now.head.cid == events[0][2].commit.cid, 'head of the new repo')
    elif what == 'handle':
        ctx.check(now.handle == handle and st.load_repo(handle).did == DID, 'new handle')
    ctx.check(items_eq(items_of(now.mst), items), 'contents')
    if new_status is None:
        rec = w.record(70)
        path = w.key('later', colls=('z',))
        i, there = place(ctx, items, path)
        ctx.assume(not there)
        data = st.commit(now, [write_of(w, 'create', path, rec)])
        ctx.check(data.commit.decoded['data'] == Ref(w, model_op(ctx, items, 'add', path, w.cid_of(rec), (i, False))).root, 'a later commit')
    ctx.check(state_of(w, st.load_repo(BOB)) == bob, 'another repo, in the end')
    ctx.reach(f'{what} {kind}')
    ctx.reach()


@H(quick=[dict(n=0), dict(n=1)], thorough=[dict(n=0), dict(n=1), dict(n=2)])
def memory(ctx, n):
    ctx.memo['min_byte0'] = 16
    w = World(ctx)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(w.sorted_keys('k', n))]
    env = Env(w, items)
    for i in range(n):
        put_record(w, env.st, w.record(i))
    Env(w, [], storage=env.st, did=BOB, key=new_key(w, 2))
    env.repo.status = status = STATUSES[ctx.choose('status', 3)]
    run(ctx, w, env.st, None, items, status)


@H(quick=[dict(n=0), dict(n=1)], thorough=[dict(n=0), dict(n=1), dict(n=2)])
def datastore(ctx, n):
    ctx.memo['min_byte0'] = 16
    w = World(ctx)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(w.sorted_keys('k', n))]
    status = STATUSES[ctx.choose('status', 3)]
    env = DSEnv(w, items, status=status)
    for i in range(n):
        ds_block(w, w.record(i), 1)
    DSEnv(w, [], storage=(env.st, env.client), did=BOB, key=new_key(w, 2))
    with env.client.context():
        run(ctx, w, env.st, w.ndb, items, status)


@H(quick=[dict(n=0, ds=False), dict(n=1, ds=False), dict(n=1, ds=True)], thorough=[dict(n=0, ds=True), dict(n=2, ds=False), dict(n=2, ds=True)])
def imports(ctx, n, ds):
    import flask, types
    ctx.memo['min_byte0'] = 16
    req = types.SimpleNamespace(headers={'Authorization': 'Bearer towkin'})
    w = World(ctx, env={'REPO_TOKEN': 'towkin'}, overrides={'flask': ModProxy(flask, request=req)})
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    recs = [w.record(i) for i in range(n)]
    items = [(k, w.cid_of(r)) for k, r in zip(w.sorted_keys('k', n), recs)]
    ref = Ref(w, items)
    key = new_key(w, 1)
    commit = w.mods.util.sign({'did': DID, 'version': 3, 'rev': tid_of(7), 'prev': None, 'data': ref.root}, key)
    head = w.cid_of(commit)
    blocks = [(head, w.encode(commit))] + [(c, w.encode(b)) for c, b in ref.order] + [(w.cid_of(r), w.encode(r)) for r in recs]
    car = w.write_car([head], blocks)
    w.mods.did.resolve = lambda did, get_fn=None: {'id': did, 'alsoKnownAs': ['at://han.dle']}
    w.mods.did.get_signing_key = lambda doc: key.public_key()
    w.mods.xrpc_repo.new_key = lambda: new_key(w, 3)
    if ds:
        env = DSEnv(w, [], did=BOB, seq=1)
        with env.client.context():
            import_in(ctx, w, env.st, w.ndb, car, head, items, recs)
    else:
        import_in(ctx, w, Env(w, [], did=BOB, seq=1).st, None, car, head, items, recs)


def import_in(ctx, w, st, db, car, head, items, recs):
    bob = state_of(w, st.load_repo(BOB))
    old, last = len(event_list(st, 0)), st.sequences.last(NSID)
    kind = ('fault', 'contention')[ctx.choose('kind', 2)] if db else 'fault'
    hits, off = faults(ctx, w, st, db, kind, ctx.choose('at', 20 if db else 3) if kind == 'fault' else 0)
    failed = False
    try:
        w.mods.xrpc_repo.import_repo(car)
    except Fault:
        failed = True
    off()
    ctx.assume(hits)
    ctx.check(failed == (kind == 'fault'), 'an error is hidden' if kind == 'fault' else 'contention is an error')
    if failed:
        ctx.check(st.load_repo(DID) is None, 'a repo that was not imported')
        ctx.check(len(st.load_repos()) == 1 and len(event_list(st, 0)) == old, 'after an interrupted import')
        w.mods.xrpc_repo.import_repo(car)
    r = st.load_repo(DID)
    ctx.check(r is not None and r.head.cid == head and r.status == 'deactivated' and r.handle == 'han.dle', 'imported')
    ctx.check(items_eq(items_of(r.mst), items), 'imported contents')
    for (k, v), rec in zip(items, recs):
        ctx.check(r.get_record(*k.split('/')) == rec, 'imported record')
    ctx.check(len(st.load_repos()) == 2 and len(event_list(st, 0)) == old and st.sequences.last(NSID) == last, 'nothing is emitted')
    ctx.check(state_of(w, st.load_repo(BOB)) == bob, 'another repo')
    ctx.reach(f'import {kind}')
    ctx.reach()
