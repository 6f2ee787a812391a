"""C18: the XRPC record methods behave like a map, and list it completely and in order."""
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy
from symx.values import AND, NOT, OR

H = Registry()
BOUNDS = ('Repos with 0-2 (thorough 3) records with any keys; sequences of 1-2 (thorough 3) methods with any of these or a new key, repo given by DID, handle, or at:// URI; '
          'listing 0-4 (thorough 6) records among those of other collections whose names are prefixes or extensions, two of them possibly with the same contents, with all limits from 2; '
          'any set of 0-2 supported collections; unsupported parameters.')
OUTSIDE = 'Lexicon validation by lexrpc. Cursors that the server did not return. Limit 1 (its pages never advance: documented known issue).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']
COLLS = ('com.example.x', 'com.example.xa', 'com.example.x.y', 'com.example')


def setup(ctx):
    import flask, types
    req = types.SimpleNamespace(headers={'Authorization': 'Bearer towkin'})
    return World(ctx, env={'REPO_TOKEN': 'towkin'}, overrides={'flask': ModProxy(flask, request=req)})


def load(w, items, recs):
    env = Env(w, items, handle='han.dle')
    for r in recs:
        put_record(w, env.st, r)
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    return env


def cid_str(w, rec):
    return w.cid_of(rec).encode('base32')


def json_of(w, ctx, got, did, coll, rkey, rec, what):
    ctx.check(got['uri'] == 'at://' + did + '/' + coll + '/' + rkey, f'{what}: uri')
    ctx.check(got['cid'] == cid_str(w, rec), f'{what}: cid')
    ctx.check(got['value'] == rec, f'{what}: value')


@H(quick=[dict(n=n, ops=o) for n in (0, 1, 2) for o in (1, 2) if n + o < 4],
   thorough=[dict(n=n, ops=o) for n in (0, 1, 2, 3) for o in (1, 2)] + [dict(n=0, ops=3), dict(n=1, ops=3)])
def crud(ctx, n, ops):
    w = setup(ctx)
    X = w.mods.xrpc_repo
    coll = 'a'
    ks = w.sorted_keys('k', n)
    recs = [w.record(i) for i in range(n)]
    model = [(k.split('/')[1], r) for k, r in zip(ks, recs)]
    env = load(w, [(k, w.cid_of(r)) for k, r in zip(ks, recs)], recs)
    repo = (DID, 'han.dle', f'at://{DID}', f'at://han.dle/', f'at://{DID}/a/x')[ctx.choose('repo', 5 if ops == 1 else 1)]
    known = [r for r, _ in model]

    def find(rk):
        for i, (r, _) in enumerate(model):
            if r == rk:
                return i

    for s in range(ops):
        op = ('create', 'put', 'delete', 'get', 'create auto')[ctx.choose(f'op{s}', 5)]
        rec = w.record(100 + s)
        if n and op in ('create', 'put') and ctx.flag(f'same{s}'):
            rec = recs[0]
        rk = None
        if op != 'create auto':
            j = ctx.choose(f'key{s}', len(known) + 1)
            if j == len(known):
                known.append(w.key(f'new{s}').split('/')[1])
            rk = known[j]
        i = find(rk) if rk is not None else None
        if op in ('create', 'put', 'create auto'):
            input = {'repo': repo, 'collection': coll, 'record': rec}
            if rk is not None:
                input['rkey'] = rk
            got = (X.put_record if op == 'put' else X.create_record)(input)
            if rk is None:
                # the new key isn't that of any other record
                rk = got['uri'].rsplit('/', 1)[1]
                ctx.check(len(rk) == 13, 'generated rkey')
                i = find(rk)
                ctx.assume(i is None)
                known.append(rk)
            ctx.check(got['uri'] == f'at://{DID}/a/' + rk, 'uri')
            ctx.check(got['cid'] == cid_str(w, rec), 'cid')
            if i is None:
                model.append((rk, rec))
            else:
                model[i] = (rk, rec)
        elif op == 'delete':
            X.delete_record({'repo': repo, 'collection': coll, 'rkey': rk})
            if i is not None:
                del model[i]
        else:
            get(ctx, w, X, repo, coll, rk, model, i)
    for rk in known:
        get(ctx, w, X, repo, coll, rk, model, find(rk))
    ctx.check(len(items_of(env.st.load_repo(DID).mst)) == len(model), 'number of records')
    ctx.reach()


def get(ctx, w, X, repo, coll, rk, model, i):
    try:
        got = X.get_record({}, repo=repo, collection=coll, rkey=rk)
    except Exception as e:
        if type(e).__name__ != 'XrpcError':
            raise
        ctx.check(e.name == 'RecordNotFound', 'error')
        ctx.check(i is None, 'a record is not found')
    else:
        ctx.check(i is not None, 'a deleted record is found')
        json_of(w, ctx, got, DID, coll, rk, model[i][1], 'getRecord')


def walk(ctx, X, coll, limit, n):
    """All pages' records."""
    got, cursor = [], None
    for page in range(n + 2):
        kw = {} if cursor is None else {'cursor': cursor}
        r = X.list_records({}, repo=DID, collection=coll, limit=limit, **kw)
        rs = r['records']
        ctx.check(len(rs) <= limit, 'page is too long')
        if cursor is not None:
            # cursors are inclusive
            ctx.check(rs and rs[0]['uri'] == got[-1]['uri'], 'page does not start at the cursor')
            rs = rs[1:]
        got += rs
        cursor = r.get('cursor')
        if cursor is None:
            break
    else:
        ctx.fail('the pages never end')
    return got


@H(quick=[dict(n=n) for n in range(5)], thorough=[dict(n=n) for n in range(7)])
def pages(ctx, n):
    """listRecords through all pages."""
    w = setup(ctx)
    X = w.mods.xrpc_repo
    ncolls = len(COLLS)
    # concrete keys in each collection; the limits and which of them exist are arbitrary
    names = [(c, rk) for c in COLLS for rk in ('a', 'b', 'b0', 'c')]
    mine = ctx.choose('collection', ncolls)
    want = []
    rest = []
    for c, rk in names:
        if c == COLLS[mine]:
            want.append(f'{c}/{rk}')
        else:
            rest.append(f'{c}/{rk}')
    want = (want + [f'{COLLS[mine]}/d', f'{COLLS[mine]}/e'])[:n]
    others = rest if ctx.flag('others') else rest[:1]
    keys = sorted(want + others)
    recs = {k: w.record(i) for i, k in enumerate(keys)}
    if n > 1 and ctx.flag('same'):
        recs[want[ctx.choose('same as first', n - 1) + 1]] = recs[want[0]]
    env = load(w, [(k, w.cid_of(recs[k])) for k in keys], list(recs.values()))
    limit = ctx.choose('limit', n + 1) + 2
    got = walk(ctx, X, COLLS[mine], limit, n)
    ctx.check(len(got) == n, 'number of records')
    for g, k in zip(got, want):
        c, rk = k.split('/')
        json_of(w, ctx, g, DID, c, rk, recs[k], 'listRecords')
    ctx.reach()


@H(quick=[dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=n) for n in range(5)])
def listing(ctx, n):
    """listRecords of any keys."""
    w = setup(ctx)
    X = w.mods.xrpc_repo
    ks = w.sorted_keys('k', n, colls=('a', 'a.', 'ab'))
    recs = [w.record(i) for i in range(n)]
    if n > 1 and ctx.flag('same'):
        recs[ctx.choose('same as first', n - 1) + 1] = recs[0]
    load(w, [(k, w.cid_of(r)) for k, r in zip(ks, recs)], recs)
    coll = ('a', 'a.', 'ab')[ctx.choose('collection', 3)]
    want = []
    for k, r in zip(ks, recs):
        if k.startswith(coll + '/'):
            want.append((k, r))
    limit = ctx.choose('limit', n + 1) + 2
    got = walk(ctx, X, coll, limit, n)
    ctx.check(len(got) == len(want), 'number of records')
    for g, (k, rec) in zip(got, want):
        json_of(w, ctx, g, DID, *k.split('/'), rec, 'listRecords')
    ctx.reach()


@H(quick=[dict()])
def unsupported(ctx):
    """Collections and parameters that aren't supported."""
    w = setup(ctx)
    X = w.mods.xrpc_repo
    key = 'com.example.x/r'
    rec = w.record(0)
    env = load(w, [(key, w.cid_of(rec))], [rec])
    supported = [c for i, c in enumerate(COLLS[:2]) if ctx.flag(f'support{i}')]
    X.SUPPORTED_COLLECTIONS = frozenset(supported)
    coll = COLLS[ctx.choose('collection', 3)]
    bad_coll = bool(supported) and coll not in supported
    method = ('createRecord', 'putRecord', 'deleteRecord', 'getRecord', 'listRecords')[ctx.choose('method', 5)]
    extra = (None, 'swapCommit', 'swapRecord', 'cid', 'reverse', 'rkeyStart', 'rkeyEnd', 'unknown repo', 'no repo')[ctx.choose('extra', 9)]
    repo = {'unknown repo': 'did:web:other.com', 'no repo': None}.get(extra, DID)
    at_record = ctx.flag('only $type') and method == 'createRecord' and coll != 'com.example.x'
    kw = {}
    if extra in ('swapCommit', 'swapRecord'):
        if method not in ('createRecord', 'putRecord', 'deleteRecord'):
            ctx.assume(False)
        kw[extra] = 'bafyx'
    elif extra == 'cid':
        ctx.assume(method == 'getRecord')
        kw[extra] = 'bafyx'
    elif extra in ('reverse', 'rkeyStart', 'rkeyEnd'):
        ctx.assume(method == 'listRecords')
        kw[extra] = True if extra == 'reverse' else 'r'
    new = dict(w.record(5), **{'$type': coll})
    calls = {
        'createRecord': lambda: X.create_record({'repo': repo, 'collection': coll, 'rkey': 'new', 'record': new, **kw}),
        'putRecord': lambda: X.put_record({'repo': repo, 'collection': coll, 'rkey': 'r', 'record': new, **kw}),
        'deleteRecord': lambda: X.delete_record({'repo': repo, 'collection': coll, 'rkey': 'r', **kw}),
        'getRecord': lambda: X.get_record({}, repo=repo, collection=coll, rkey='r', **kw),
        'listRecords': lambda: X.list_records({}, repo=repo, collection=coll, **kw),
    }
    exists = coll == 'com.example.x'
    try:
        got = calls[method]()
        err = None
    except Exception as e:
        if type(e).__name__ not in ('ValueError', 'XrpcError'):
            raise
        err, got = e, None
    if method == 'listRecords' and bad_coll:
        ctx.check(err is None and got == {'records': []}, 'unsupported collection')
    elif bad_coll or extra:
        ctx.check(err is not None, 'accepted')
    elif method == 'getRecord' and not exists:
        ctx.check(err is not None and err.name == 'RecordNotFound', 'not found')
    else:
        ctx.check(err is None, 'refused')
    changes = not bad_coll and not extra and (method in ('createRecord', 'putRecord') or method == 'deleteRecord' and exists)
    ctx.check((env.st.load_repo(DID).head.cid != env.head.cid) == changes, 'change')
    ctx.reach('changes' if changes else 'no change')
    ctx.reach()
