"""C19: account status."""
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy

H = Registry()
BOUNDS = ('In-memory and Datastore storage; two repos, one with 0-1 records with any keys of hash layers 0 and 1, any initial status; histories of 1-2 (thorough 3-4) steps, each deactivating, '
          'activating, tombstoning or committing, with a Repo object loaded at the start, just now, or the stored one; then every XRPC method that takes a repo.')
OUTSIDE = 'What a deleted account\'s data look like to other servers.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']
STATUSES = (None, 'deactivated', 'tombstoned', 'deleted')
STEPS = ('deactivate', 'activate', 'tombstone', 'commit')
BOB = 'did:web:bob.com'


def setup(ctx):
    import flask, types
    req = types.SimpleNamespace(headers={'Authorization': 'Bearer towkin'})
    return World(ctx, env={'REPO_TOKEN': 'towkin'}, overrides={'flask': ModProxy(flask, request=req)})


def methods(w, did, key):
    R, Y = w.mods.xrpc_repo, w.mods.xrpc_sync
    coll, rkey = key.split('/')
    rec = w.record(77)
    w.session.get = no_network
    return {
        'getRepo': lambda: Y.get_repo({}, did=did),
        'getCheckout': lambda: Y.get_checkout({}, did=did),
        'getBlocks': lambda: Y.get_blocks({}, did=did, cids=[]),
        'getHead': lambda: Y.get_head({}, did=did),
        'getLatestCommit': lambda: Y.get_latest_commit({}, did=did),
        'sync.getRecord': lambda: Y.get_record({}, did=did, collection=coll, rkey=rkey),
        'listBlobs': lambda: Y.list_blobs({}, did=did),
        'getRecord': lambda: R.get_record({}, repo=did, collection=coll, rkey=rkey),
        'listRecords': lambda: R.list_records({}, repo=did, collection=coll),
        'describeRepo': lambda: R.describe_repo({}, repo=did),
        'createRecord': lambda: R.create_record({'repo': did, 'collection': coll, 'record': rec}),
        'putRecord': lambda: R.put_record({'repo': did, 'collection': coll, 'rkey': rkey, 'record': rec}),
        'deleteRecord': lambda: R.delete_record({'repo': did, 'collection': coll, 'rkey': rkey}),
    }


def no_network(*a, **kw):
    raise OSError('no network')


def outcome(fn):
    try:
        fn()
    except Exception as e:
        return getattr(e, 'name', None) or type(e).__name__
    return 'ok'


def statuses(ctx, w, did, model):
    """What getRepoStatus and listRepos say."""
    Y = w.mods.xrpc_sync
    got = Y.get_repo_status({}, did=did)
    ctx.check(got['did'] == did and got['active'] == (model is None), 'getRepoStatus')
    ctx.check(('status' in got) == (model is not None), 'getRepoStatus status')
    rows = {r['did']: r for r in Y.list_repos({})['repos']}
    ctx.check(rows[did]['active'] == (model is None), 'listRepos')
    ctx.check(rows[did].get('status') == {'tombstoned': 'deactivated'}.get(model, model), 'listRepos status')
    ctx.check(rows[BOB]['active'] and 'status' not in rows[BOB], 'the other repo is inactive')


def run(ctx, w, steps, st, load, nblocks, key):
    """load(): a new or the stored Repo"""
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    first = load()
    model = first.status
    for s in range(steps):
        what = STEPS[ctx.choose(f'step{s}', 4)]
        repo = first if ctx.choose(f'object{s}', 2) else load()
        calls = []
        repo.callback = lambda data=None, lost_seq=None: calls.append((data, lost_seq))
        seq = st.sequences.last(NSID) + 1
        head, before = load().head.cid, nblocks()
        if what == 'commit':
            rec = w.record(50 + s)
            path = w.key(f'new{s}', colls=('b',))
            ctx.assume(load().mst.get(path) is None)
            try:
                st.commit(repo, write_of(w, 'create', path, rec))
                ok = True
            except w.mods.util.InactiveRepo as e:
                ok = False
            # (an outdated object may be the stricter one)
            stale = repo.status if repo is first else None
            ctx.check(ok if model is None and stale is None else not ok, 'a commit works iff the repo is active')
            if not ok:
                ctx.check(calls == [(None, seq)], 'unused sequence number')
                ctx.check(load().head.cid == head and nblocks() == before, 'a refused commit left something')
                ctx.check(not list(st.read_events_by_seq(start=seq)), 'a refused commit is an event')
            else:
                ctx.check(load().get_record('b', path.split('/')[1]) == rec, 'commit')
        else:
            tomb = what == 'activate' and model == 'tombstoned'
            {'deactivate': st.deactivate_repo, 'activate': st.activate_repo, 'tombstone': st.tombstone_repo}[what](repo)
            events = list(st.read_events_by_seq(start=seq))
            if tomb:
                ctx.check(not events and not calls, 'an event for a tombstoned repo')
            else:
                model = {'deactivate': 'deactivated', 'activate': None, 'tombstone': 'tombstoned'}[what]
                ctx.check(repo.status == model, 'status of the object')
                ctx.check(len(events) == 1 and calls == [(events[0], None)], 'one event')
                want = {'$type': f'{NSID}#account', 'active': False, 'status': 'deactivated'}
                if what == 'activate':
                    want = {'$type': f'{NSID}#account', 'active': True}
                elif what == 'tombstone':
                    want = {'$type': f'{NSID}#tombstone'}
                ev = dict(events[0])
                ctx.check(ev.pop('seq') == seq and ev.pop('did') == DID and ev.pop('time'), 'event')
                ctx.check(ev == want, 'event content')
            ctx.check(load().head.cid == head, 'head')
        ctx.check(load().status == model, f'status after {what}')
        ctx.reach(f'{what} {model}')
    statuses(ctx, w, DID, model)
    for name, fn in methods(w, DID, key).items():
        head, before = load().head.cid, nblocks()
        got = outcome(fn)
        if model is not None:
            ctx.check(got == 'RepoDeactivated', f'{name} of an inactive repo: {got}')
            ctx.check(load().head.cid == head and nblocks() == before, f'{name} changed an inactive repo')
        else:
            ctx.check(got != 'RepoDeactivated', f'{name} of an active repo')
    for name, fn in methods(w, BOB, key).items():
        if name not in ('createRecord', 'putRecord', 'deleteRecord'):
            ctx.check(outcome(fn) != 'RepoDeactivated', f'{name} of another repo')
    ctx.reach()


@H(quick=[dict(steps=1, n=1), dict(steps=2, n=0)], thorough=[dict(steps=2, n=1), dict(steps=3, n=0)])
def memory(ctx, steps, n):
    ctx.memo['min_byte0'] = 16      # layers 0 and 1
    w = setup(ctx)
    key = w.key('k0')
    env = Env(w, [(key, w.cid_of(w.record(0)))] if n else [])
    put_record(w, env.st, w.record(0))
    Env(w, [], storage=env.st, did=BOB, key=new_key(w, 2))
    env.repo.status = STATUSES[ctx.choose('status', 4)]
    run(ctx, w, steps, env.st, lambda: env.st.load_repo(DID), lambda: len(env.st.blocks), key)


@H(quick=[dict(steps=1, n=1), dict(steps=2, n=0)], thorough=[dict(steps=2, n=1), dict(steps=3, n=0)])
def datastore(ctx, steps, n):
    ctx.memo['min_byte0'] = 16      # layers 0 and 1
    w = setup(ctx)
    key = w.key('k0')
    env = DSEnv(w, [(key, w.cid_of(w.record(0)))] if n else [], status=STATUSES[ctx.choose('status', 4)])
    ds_block(w, w.record(0), 1)
    DSEnv(w, [], storage=(env.st, env.client), did=BOB, key=new_key(w, 2))
    with env.client.context():
        run(ctx, w, steps, env.st, lambda: env.st.load_repo(DID), lambda: len(ds_rows(w)), key)
