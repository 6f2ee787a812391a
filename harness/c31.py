"""C31: a repo's state is the same however it is read."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('In-memory and Datastore storage; two repos that are created with or without a handle and rotation key, then 0-2 (thorough 3) steps on one: a commit of 1 (or one of the steps: 2) creates, updates or deletes '
          'of records with any keys of hash layers 0..1 in two collections, with any two records equal or not, or a new handle; then all methods that read the repo, by DID, handle and at:// URI; getBlocks of any 0-2 of its blocks, missing ones and invalid CIDs.')
OUTSIDE = 'getRepo (C20), getRecord (C18, C28), listRecords (C18), listRepos (C25). Handles that two repos share. getBlocks of other repos\' blocks.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'signing is opaque']
BOB = 'did:web:bob.com'


class Resp:
    ok = True
    status_code = 200
    text = ''

    def __init__(self, doc):
        self.doc = doc

    def raise_for_status(self):
        pass

    def json(self):
        return self.doc


def step(ctx, w, st, load, n, items, recs, did, double):
    """-> items"""
    writes = []
    for j in range(2 if double else 1):
        m = len(items)
        op = OPS[ctx.choose(f'op{n}.{j}', 3)] if m else 'add'
        i = ctx.choose(f'at{n}.{j}', m + 1 if op == 'add' else m)
        key = w.key(f'k{n}.{j}', colls=('a', 'a.b')) if op == 'add' else items[i][0]
        if op == 'add':
            assume_at(ctx, items, i, key)
        rec = None
        if op != 'delete':
            rec = recs[0] if recs and ctx.flag(f'same{n}.{j}') else w.record(10 * n + j)
            recs.append(rec)
        val = None if op == 'delete' else w.cid_of(rec)
        writes.append(write_of(w, {'add': 'create'}.get(op, op), key, rec))
        items = model_op(ctx, items, op, key, val, (i, op != 'add'))
    st.commit(load(), writes)
    return items


@H(quick=[dict(ds=False, steps=s) for s in (0, 1, 2)] + [dict(ds=False, steps=1, double=True), dict(ds=True, steps=1), dict(ds=True, steps=2, plain=True)],
   thorough=[dict(ds=True, steps=2), dict(ds=False, steps=3, plain=True), dict(ds=True, steps=2, double=True), dict(ds=True, steps=3, plain=True), dict(ds=False, steps=3)])
def state(ctx, ds, steps, double=False, plain=False):
    ctx.memo['min_byte0'] = 16
    part = None if plain else ('meta', 'blocks')[ctx.choose('part', 2)]
    supported = (None, 'a', 'b,c')[ctx.choose('supported', 3)] if steps < 2 and part == 'meta' else None
    w = World(ctx, env={'SUPPORTED_COLLECTIONS': supported} if supported else {})
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    if ds:
        st, client = ds_storage(w)
        w.ndb.apply('AtpSequence', NSID, {'next': 5, 'created': None, 'updated': None})
    else:
        st = mem(w)
        st.sequences.sequences[NSID] = 5
    w.mods.server.storage = st
    if ds:
        with client.context():
            run(ctx, w, st, steps, double, part, supported, ds)
    else:
        run(ctx, w, st, steps, double, part, supported, ds)


def run(ctx, w, st, steps, double, part, supported, ds):
    R = w.mods.repo.Repo
    key, rot, bkey = new_key(w, 1), new_key(w, 3), new_key(w, 2)
    with_rot = part == 'meta' and ctx.flag('rotation key')
    handle = None if part == 'meta' and ctx.flag('no handle') else 'han.dle'
    old_handle = None
    alice = R.create(st, DID, signing_key=key, rotation_key=rot if with_rot else None, handle=handle)
    created = w.time_us()
    bob = R.create(st, BOB, signing_key=bkey, handle='bob.com')
    seq = 5
    items, recs = [], []
    last = 8
    prev = None
    for n in range(1, steps + 1):
        w.now_us += 3_000_000
        kind = ctx.choose(f'kind{n}', 2) if part == 'meta' else 0
        if kind:
            r = st.load_repo(DID)
            old_handle, handle = handle, (None, 'new.handle')[ctx.choose(f'handle{n}', 2)]
            r.handle = handle
            st.store_repo(r)
        else:
            prev = st.load_repo(DID).head.cid
            seq = st.sequences.last(NSID) + 1
            items = step(ctx, w, st, lambda: st.load_repo(DID) if ds or part == 'blocks' or ctx.choose(f'object{n}', 2) else alice, n, items, recs, DID, double and n == 1)
    ref = Ref(w, items)
    if part == 'blocks':
        blocks(ctx, w, w.mods.xrpc_sync, st.load_repo(DID).head, ref, items, recs)
        return ctx.reach()

    # loading it
    ids = [DID] + ([handle] if handle else [])
    if old_handle and old_handle != handle:
        ctx.check(st.load_repo(old_handle) is None, 'found by its old handle')
    for x in ('did:web:eve.com', 'eve.com', 'bob.co', 'did:web:bob.co'):
        ctx.check(st.load_repo(x) is None, 'an unknown repo is found')
    for x in ids:
        r = st.load_repo(x)
        ctx.check(r is not None, 'not found')
        ctx.check(r.did == DID and r.handle == handle and r.status is None and r.version == 3, 'attributes')
        ctx.check(same_key(w, r.signing_key, key) and (same_key(w, r.rotation_key, rot) if with_rot else r.rotation_key is None), 'keys')
        if ds:
            ctx.check(r.created is not None and w.us_of(r.created) == created, 'created')
        c = r.head.decoded
        ctx.check(c['did'] == DID and c['rev'] == tid_of(seq) and c['data'] == ref.root, 'head')
        ctx.check(c['prev'] == prev if prev is not None else c['prev'] is None, 'prev')
        ctx.check(sig_valid(w, key, c), 'signature')
        ctx.check(items_eq(items_of(r.mst), items), 'tree')
        contents(ctx, w, r.get_contents(), items)
        again = R.load(st, cid=r.head.cid, signing_key=key)
        ctx.check(again == r and again.head.cid == r.head.cid and items_eq(items_of(again.mst), items), 'Repo.load')
    head = st.load_repo(DID).head
    b = st.load_repo('bob.com')
    ctx.check(b.did == BOB and same_key(w, b.signing_key, bkey) and b.rotation_key is None and not items_of(b.mst), 'the other repo')
    rs = {r.did: r for r in st.load_repos()}
    ctx.check(sorted(rs) == [DID, BOB], 'load_repos')
    r = rs[DID]
    ctx.check(r.head == head and r.handle == handle and r.status is None and same_key(w, r.signing_key, key), 'load_repos attributes')
    ctx.check(same_key(w, r.rotation_key, rot) if with_rot else r.rotation_key is None, 'load_repos rotation key')
    ctx.check(items_eq(items_of(r.mst), items), 'load_repos tree')

    # over XRPC
    Y, X = w.mods.xrpc_sync, w.mods.xrpc_repo
    cid = head.cid.encode('base32')
    ctx.check(Y.get_head({}, did=DID) == {'root': cid}, 'getHead')
    ctx.check(Y.get_latest_commit({}, did=DID) == {'cid': cid, 'rev': tid_of(seq)}, 'getLatestCommit')
    ctx.check(Y.get_repo_status({}, did=DID) == {'did': DID, 'active': True}, 'getRepoStatus')
    doc = {'id': DID, 'alsoKnownAs': ['at://han.dle']}
    urls = []

    def get(url, **kw):
        urls.append(url)
        return Resp(doc)
    w.session.get = get
    for x in ids + ['at://' + i for i in ids]:
        got = X.describe_repo({}, repo=x)
        colls = got.pop('collections')
        ctx.check(got == {'did': DID, 'handle': handle, 'didDoc': doc, 'handleIsCorrect': True}, 'describeRepo')
        ctx.check(len(colls) == len(set(colls)), 'describeRepo: a collection is there twice')
        ctx.check(sorted(colls) == (supported.split(',') if supported else sorted(set(k.split('/')[0] for k, _ in items))), 'describeRepo collections')
    ctx.check(all(u == 'https://alice.com/.well-known/did.json' for u in urls), 'DID document')
    for fn in (Y.get_head, Y.get_latest_commit, Y.get_repo_status, Y.get_blocks):
        err(ctx, lambda: fn({}, did='did:web:eve.com'), 'RepoNotFound')
    ctx.reach()


def same_key(w, a, b):
    if a is None:
        return False
    return a is b if w.sym else a.private_numbers() == b.private_numbers()


def contents(ctx, w, got, items):
    ctx.check(sorted(got) == sorted(set(k.split('/')[0] for k, _ in items)), 'get_contents: collections')
    ctx.check(sum(len(v) for v in got.values()) == len(items), 'get_contents: number of records')
    for k, v in items:
        coll, rkey = k.split('/')
        ctx.check(rkey in got[coll] and w.cid_of(got[coll][rkey]) == v, 'get_contents: record')


def err(ctx, fn, name):
    try:
        fn()
    except Exception as e:
        ctx.check(getattr(e, 'name', None) == name, f'{name}: got {type(e).__name__} {getattr(e, "name", None)}')
    else:
        ctx.fail(f'{name}: no error')


def blocks(ctx, w, Y, head, ref, items, recs):
    pool = [head.cid, ref.root] + ([items[-1][1]] if items else []) + [w.cid_of({'missing': 1}), 'xyz']
    have = len(pool) - 2
    want, bad = [], False
    for j in range(ctx.choose('blocks', 3)):
        i = ctx.choose(f'block{j}', len(pool))
        bad = bad or i >= have
        want.append(pool[i])
    cids = [c if type(c) is str else c.encode('base32') for c in want]
    if bad:
        return err(ctx, lambda: Y.get_blocks({}, did=DID, cids=cids), 'BlockNotFound')
    roots, got = w.read_car(Y.get_blocks({}, did=DID, cids=cids))
    ctx.check(len(roots) == 1 and roots[0] == head.cid, 'getBlocks: root')
    for c, enc in got:
        ctx.check(w.cid_of(w.decode(enc)) == c, 'getBlocks: a block that does not match its CID')
        ctx.check(OR(*[c == x for x in want], False), 'getBlocks: a block that was not asked for')
    for x in want:
        ctx.check(OR(*[c == x for c, _ in got], False), 'getBlocks: a block is missing')
    ctx.check(len(got) <= len(want), 'getBlocks: number of blocks')
