"""C20: exporting a repo gives all of it, and importing that gives it back."""
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy

H = Registry()
BOUNDS = ('In-memory and Datastore storage. Export: repos with 0-2 (thorough 4) records of all hash layers 0..2 and keys, any two records equal or not, then 0-2 '
          '(thorough 3) commits of one arbitrary operation, complete or since any commit; the Datastore returning any part of the blocks of a lookup first. '
          'Import: the CARs of such repos with blocks in any of three orders and one root or two, with any one of nine things wrong.')
OUTSIDE = 'CARs that lack some of the tree. DIDs documents (C26).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'ideal signatures']
OPS = ('add', 'update', 'delete')


def setup(ctx, token='towkin'):
    import flask, types
    req = types.SimpleNamespace(headers={'Authorization': 'Bearer ' + token})
    w = World(ctx, env={'REPO_TOKEN': 'towkin'}, overrides={'flask': ModProxy(flask, request=req)})
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    return w


def tree_blocks(w, root, read):
    """All CIDs of a tree, each with the path of nodes to it. read: cid -> decoded"""
    out = []

    def visit(cid, path):
        path = path + [cid]
        out.append((cid, path))
        d = read(cid)
        for sub in [d['l']] + [e['t'] for e in d['e']]:
            if sub is not None:
                visit(sub, path)
        for e in d['e']:
            out.append((e['v'], path))
    visit(root, [])
    return out


def history(ctx, w, env, load, items, recs, commits):
    """-> [(seq, items)] states, the first is the given one"""
    states = [(1, items)]
    for c in range(commits):
        m = len(items)
        op = OPS[ctx.choose(f'op{c}', 3)] if m else 'add'
        i = ctx.choose(f'at{c}', m + 1 if op == 'add' else m)
        if op == 'add':
            key = w.key(f'new{c}')
            assume_at(ctx, items, i, key)
        else:
            key = items[i][0]
        rec = w.record(ctx.choose(f'rec{c}', 2) and 100 + c)
        recs.append(rec)
        env.st.commit(load(), write_of(w, {'add': 'create'}.get(op, op), key, None if op == 'delete' else rec))
        items = model_op(ctx, items, op, key, w.cid_of(rec), (i, op != 'add'))
        states.append((2 + c, items))
    return states


def member(cid, cids):
    for c in cids:
        if c == cid:
            return True
    return False


@H(quick=[dict(n=n, commits=c, ds=False) for n, c in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (0, 2))] + [dict(n=1, commits=2, ds=False, low=True)] +
         [dict(n=n, commits=c, ds=True) for n, c in ((2, 0), (1, 1))],
   thorough=[dict(n=1, commits=2, ds=False)] + [dict(n=n, commits=c, ds=d) for d in (False, True) for n, c in ((3, 0), (2, 1), (2, 2))] +
            [dict(n=4, commits=0, ds=False), dict(n=0, commits=3, ds=False)])
def export(ctx, n, commits, ds, low=False):
    if low:
        ctx.memo['min_byte0'] = 16      # layers 0 and 1
    w = setup(ctx)
    ks = w.sorted_keys('k', n)
    recs = [w.record(ctx.choose(f'same{i}', 2) and i) for i in range(n)]
    items = [(k, w.cid_of(r)) for k, r in zip(ks, recs)]
    if ds:
        env = DSEnv(w, items)
        for r in recs:
            ds_block(w, r, 1)
        with env.client.context():
            export_in(ctx, w, env, lambda: env.st.load_repo(DID), items, recs, commits, ds)
    else:
        env = Env(w, items)
        for r in recs:
            put_record(w, env.st, r)
        export_in(ctx, w, env, lambda: env.repo, items, recs, commits, ds)


def export_in(ctx, w, env, load, items, recs, commits, ds):
    states = history(ctx, w, env, load, items, recs, commits)
    st = env.st
    i = ctx.choose('since', len(states) + 1) if commits else 0
    since = tid_of(states[i - 1][0]) if i else None
    if ds:
        part = ctx.choose('part', 2)

        def lookup(keys):
            # only some at once, in another order
            if part and len(keys) > 1:
                return keys[1:][::-1], keys[:1]
            return keys, []
        w.ndb.lookup_hook = lookup
    method = w.mods.xrpc_sync.get_checkout if not since and ctx.choose('checkout', 2) else w.mods.xrpc_sync.get_repo
    car = method({}, did=DID, **({'since': since} if since else {}))
    head = st.load_repo(DID).head
    roots, blocks = w.read_car(car)
    ctx.check(len(roots) == 1 and roots[0] == head.cid, 'root')
    ctx.check(blocks[0][0] == head.cid and w.decode(blocks[0][1]) == head.decoded, 'first block is the head commit')
    for cid, enc in blocks:
        ctx.check(w.cid_of(w.decode(enc)) == cid, 'a block that does not match its CID')
    got = [c for c, _ in blocks]
    for j, c in enumerate(got):
        ctx.check(not member(c, got[:j]), 'a block is there twice')
    ref = Ref(w, states[-1][1])
    ctx.check(ref.root == head.decoded['data'], 'contents')
    want = tree_blocks(w, ref.root, lambda cid: ref.blocks[cid])
    for c in got[1:]:
        ctx.check(member(c, [x for x, _ in want]), 'a block that is not of this repo')
    if since is None:
        for c, path in want:
            ctx.check(member(c, got), 'a block is missing')
    else:
        old = Ref(w, states[i - 1][1])
        have = [c for c, _ in tree_blocks(w, old.root, lambda cid: old.blocks[cid])] + got
        for c, path in want:
            # nodes that recur keep their first sequence number
            recur = any(not member(p, [x for x in old.blocks]) and st.read(p).seq < states[i - 1][0] for p in path)
            ctx.check(member(c, have), 'a block that is new since then is missing', finding='since-recurring', when=recur)
    ctx.reach()


FAULTS = ('none', 'wrong key', 'changed commit', 'no commit block', 'no roots', 'repo exists', 'bad block', 'no token', 'no signing key', 'unresolvable')


@H(quick=[dict(n=n, ds=d) for n in (0, 1, 2) for d in (False, True)], thorough=[dict(n=3, ds=False), dict(n=3, ds=True)])
def imports(ctx, n, ds):
    fault = FAULTS[ctx.choose('fault', len(FAULTS) if n < 2 else 3)]
    w = setup(ctx, token='other' if fault == 'no token' else 'towkin')
    X = w.mods.xrpc_repo
    ks = w.sorted_keys('k', n)
    recs = [w.record(ctx.choose(f'same{i}', 2) and i) for i in range(n)]
    items = [(k, w.cid_of(r)) for k, r in zip(ks, recs)]
    ref = Ref(w, items)
    theirs, other = new_key(w, 1), new_key(w, 2)
    commit = {'did': DID, 'version': 3, 'rev': tid_of(7), 'prev': None, 'data': ref.root}
    commit = w.mods.util.sign(commit, other if fault == 'wrong key' else theirs)
    if fault == 'changed commit':
        commit['rev'] = tid_of(8)
    head = w.cid_of(commit)
    blocks = [(cid, w.encode(node)) for cid, node in ref.order]
    for r in recs:
        if not member(w.cid_of(r), [c for c, _ in blocks]):
            blocks.append((w.cid_of(r), w.encode(r)))
    if fault == 'bad block':
        blocks.append((w.cid_of(w.record(5)), w.encode(w.record(6))))
    order = ctx.choose('order', 3)
    mine = [(head, w.encode(commit))] if fault != 'no commit block' else []
    blocks = mine + blocks if order == 0 else blocks[::-1] + mine if order == 1 else blocks[:1] + mine + blocks[1:]
    more = [blocks[-1][0]] if fault == 'none' and blocks[-1][0] != head and ctx.choose('more roots', 2) else []
    car = w.write_car([] if fault == 'no roots' else [head] + more, blocks)
    # another server
    w.mods.did.resolve = resolver(fault)
    w.mods.did.get_signing_key = lambda doc: None if fault == 'no signing key' else theirs.public_key()
    X.new_key = lambda: new_key(w, 3)
    exists = fault == 'repo exists'
    bob = 'did:web:bob.com'
    if ds:
        env = DSEnv(w, [], did=DID if exists else bob, seq=1)
        with env.client.context():
            import_in(ctx, w, env, fault, car, head, items, recs, lambda: ds_rows(w), [c for c, _ in blocks])
    else:
        env = Env(w, [], did=DID if exists else bob, seq=1)
        import_in(ctx, w, env, fault, car, head, items, recs, lambda: dict(env.st.blocks), [c for c, _ in blocks])


def resolver(fault):
    def resolve(did, get_fn=None):
        if fault == 'unresolvable':
            raise ValueError('did')
        return {'id': did, 'alsoKnownAs': ['at://han.dle']}
    return resolve


def import_in(ctx, w, env, fault, car, head, items, recs, rows, cids):
    st = env.st
    before = rows()
    repos = len(st.load_repos())
    events = len(list(st.read_events_by_seq(start=0)))
    try:
        w.mods.xrpc_repo.import_repo(car)
        err = None
    except Exception as e:
        if type(e).__name__ not in ('ValueError', 'XrpcError'):
            raise
        err = e
    ctx.reach(fault)
    ctx.check((err is None) == (fault == 'none'), f'import fails iff it is invalid: {fault}')
    if err:
        ctx.check(len(rows()) == len(before), 'a refused import wrote blocks')
        ctx.check(len(st.load_repos()) == repos, 'a refused import made a repo')
    else:
        repo = st.load_repo(DID)
        ctx.check(repo is not None and repo.did == DID and repo.head.cid == head, 'imported head')
        ctx.check(repo.status == 'deactivated' and repo.handle == 'han.dle', 'imported status and handle')
        ctx.check(st.load_repo('han.dle').did == DID, 'by handle')
        ctx.check(items_eq(items_of(repo.mst), items), 'imported contents')
        for (k, v), r in zip(items, recs):
            ctx.check(repo.get_record(*k.split('/')) == r, 'imported record')
        ctx.check(len(st.load_repos()) == repos + 1, 'repos')
        row = [r for r in w.mods.xrpc_sync.list_repos({})['repos'] if r['did'] == DID][0]
        ctx.check(row['rev'] == tid_of(7) and row['head'] == w.b32(head), 'listRepos of an imported repo')
        # it can't be imported again
        try:
            w.mods.xrpc_repo.import_repo(car)
            again = True
        except ValueError:
            again = False
        ctx.check(not again, 'imported twice')
        # and it isn't emitted
        for start in (0, 1):
            ctx.check(len(list(st.read_events_by_seq(start=start))) == events, 'events of an imported repo')
        # it can be activated and used
        st.activate_repo(repo)
        k = w.key('k9', colls=('b',))
        rec = w.record(900)
        data = st.commit(st.load_repo(DID), write_of(w, 'create', k, rec))
        ctx.check(data.commit.decoded['prev'] == head, 'prev')
        now = items + [(k, w.cid_of(rec))]
        ctx.check(items_eq(items_of(st.load_repo(DID).mst), now), 'contents')
        roots, blocks = w.read_car(w.mods.xrpc_sync.get_repo({}, did=DID))
        ref = Ref(w, now)
        got = [c for c, _ in blocks]
        for c, _ in tree_blocks(w, ref.root, lambda cid: ref.blocks[cid]):
            ctx.check(member(c, got), 'a block of an imported repo is missing')
        ctx.check(len(list(st.read_events_by_seq(start=0))) == events + 2, 'events after activating and committing')
    ctx.reach()
