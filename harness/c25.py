"""C25: following the cursors of listRepos and listBlobs gives everything exactly once."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('0-3 (thorough 4) repos with any DIDs (of 1-2 arbitrary characters after did:web:) and status, in-memory and Datastore storage; 0-3 (thorough 4) blobs with any URLs, in the repo, '
          'another one, both or none, fetched or not; any limit from 1 to one over their number.')
OUTSIDE = 'Repos or blobs that are added while listing.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'Datastore queries without an order are in key order']
STATUSES = (None, 'deactivated', 'tombstoned', 'deleted')


def names(ctx, prefix, n):
    """n different strings, not sorted"""
    out = []
    for i in range(n):
        s = prefix + ctx.str(f's{i}', 1 + ctx.choose(f'len{i}', 2), alphabet='abA:%')
        for t in out:
            ctx.assume(NOT(s == t))
        out.append(s)
    return out


def in_order(items, key):
    from symx.fakendb import _sort
    return _sort(items, key)


@H(quick=[dict(n=n, ds=ds) for n in (0, 1, 2, 3) for ds in (False, True)], thorough=[dict(n=4, ds=False), dict(n=4, ds=True)])
def repos(ctx, n, ds):
    w = World(ctx)
    w.ndb.tie = lambda rows: in_order(rows, lambda r: r.key.id())
    dids = names(ctx, 'did:web:', n)
    status = [STATUSES[ctx.choose(f'status{i}', 4 if n < 3 else 2)] for i in range(n)]
    heads = {}
    if ds:
        storage = ds_storage(w)
        with storage[1].context():
            for i, did in enumerate(dids):
                env = DSEnv(w, [], did=did, seq=i + 1, storage=storage, status=status[i])
                heads[i] = env.head
            w.mods.server.storage = storage[0]
            check(ctx, w, dids, status, heads)
    else:
        st = mem(w)
        for i, did in enumerate(dids):
            env = Env(w, [], storage=st, did=did, seq=i + 1)
            env.repo.status = status[i]
            heads[i] = env.head.cid
        w.mods.server.storage = st
        check(ctx, w, dids, status, heads)


def pages(ctx, limit, call, n):
    out, cursor = [], None
    for i in range(n + 2):
        page, next_ = call(limit, cursor)
        ctx.check(len(page) <= limit, 'a page is longer than the limit')
        out += page
        if next_ is None:
            return out
        ctx.reach('next page')
        cursor = next_
    ctx.fail('it never ends')


def check(ctx, w, dids, status, heads):
    def call(limit, cursor):
        ret = w.mods.xrpc_sync.list_repos({}, limit=limit, cursor=cursor) if cursor else w.mods.xrpc_sync.list_repos({}, limit=limit)
        return ret['repos'], ret.get('cursor')
    got = pages(ctx, ctx.choose('limit', len(dids) + 1) + 1, call, len(dids))
    ctx.check(len(got) == len(dids), 'a repo is missing or repeated')
    for a, b in zip(got, got[1:]):
        ctx.check(a['did'] < b['did'], 'order')
    for g in got:
        i = [i for i, d in enumerate(dids) if d == g['did']]
        ctx.check(len(i) == 1, 'a repo that does not exist')
        i = i[0]
        ctx.check(g['head'] == w.b32(heads[i]) and g['rev'] == tid_of(i + 1), 'head or rev')
        ctx.check(g['active'] == (status[i] is None), 'active')
        ctx.check(g.get('status') == {'tombstoned': 'deactivated'}.get(status[i], status[i]), 'status')
    ctx.reach()


@H(quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)])
def blobs(ctx, n):
    w = World(ctx)
    w.ndb.tie = lambda rows: in_order(rows, lambda r: r.key.id())
    storage = ds_storage(w)
    other = 'did:web:b'
    with storage[1].context():
        for i, did in enumerate((DID, other)):
            DSEnv(w, [], did=did, seq=i + 1, storage=storage)
        w.mods.server.storage = storage[0]
        urls = names(ctx, 'http://', n)
        want = []
        for i, url in enumerate(urls):
            r = [(), (DID,), (other,), (other, DID)][ctx.choose(f'repos{i}', 4 if n < 3 or i == 0 else 2)]
            cid = w.b32(w.cid_n(100 + i)) if (n > 2 and i) or not ctx.flag(f'unfetched{i}') else None
            w.ndb.apply('AtpRemoteBlob', url, {'url': url, 'cid': cid, 'repos': [w.ndb.ndb.Key('AtpRepo', d) for d in r], 'mime_type': 'image/png',
                                               'status': None, 'updated': None, 'created': None})
            if DID in r:
                want.append((url, cid))
        want = [c for _, c in in_order(want, lambda x: x[0]) if c is not None]

        def call(limit, cursor):
            ret = w.mods.xrpc_sync.list_blobs({}, did=DID, limit=limit, cursor=cursor) if cursor else w.mods.xrpc_sync.list_blobs({}, did=DID, limit=limit)
            return ret['cids'], ret.get('cursor')
        got = pages(ctx, ctx.choose('limit', n + 1) + 1, call, n)
        ctx.check(len(got) == len(want), 'a blob is missing, repeated or not in the repo')
        for a, b in zip(got, want):
            ctx.check(a == b, 'blobs')
    ctx.reach()
