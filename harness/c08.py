"""C08: commits form a correct, signed chain, and limits are enforced."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Repos made by Repo.create() or with n<=2 (thorough 3) records of all layer combinations; 1-2 (thorough 3) '
          'commits of 0-2 operations; record contents may coincide with each other and earlier ones; sequence numbers '
          'from a list of magnitudes up to 2**50 with gaps; record sizes 900000..1100000 symbolic; 199-201 operations.')
OUTSIDE = 'ECDSA itself (an ideal signature in the symbolic run; the real one in replays).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']

SEQS = (1, 31, 32, 1023, 1024, 123456789, 2 ** 40 + 5, 2 ** 50)


def check_commit(ctx, w, env_key, st, data, seq, prev, items, ops, t0, did=DID, before=()):
    c = data.commit
    d = c.decoded
    ref = Ref(w, items)
    ctx.check(set(d.keys()) == {'version', 'did', 'rev', 'prev', 'data', 'sig'}, 'commit fields')
    ctx.check(d['version'] == 3, 'version')
    ctx.check(d['did'] == did, 'did')
    ctx.check(d['rev'] == tid_of(seq), 'rev is the TID of the sequence number')
    ctx.check(d['prev'] == prev if prev is not None else d['prev'] is None, 'prev is the previous head')
    ctx.check(data.prev == prev if prev is not None else data.prev is None, "commit data's prev")
    ctx.check(d['data'] == ref.root, 'data is the root of the new tree')
    ctx.check(sig_valid(w, env_key, d), 'signature')
    ctx.check(c.cid == w.cid_of(d), 'commit CID')
    ctx.check(c.seq == seq, 'commit seq')
    ctx.check(len(c.ops) == len(ops), 'number of operations')
    for a, b in zip(c.ops, ops):
        ctx.check(a.action.name.lower() == b[0], 'action')
        ctx.check(a.path == b[1], 'path')
        ctx.check(a.cid == b[2] if b[2] is not None else a.cid is None, 'cid of an operation')
        ctx.check(a.prev_cid == b[3] if b[3] is not None else a.prev_cid is None, 'previous cid of an operation')
    # storage has everything
    for cid, node in ref.blocks.items():
        b = st.read(cid)
        ctx.check(b is not None, "a node of the new tree isn't stored")
        ctx.check(b.encoded == w.encode(node), 'stored node')
    for op in ops:
        if op[2] is not None:
            ctx.check(st.read(op[2]) is not None, "a record isn't stored")
            ctx.check(op[2] in data.blocks, "a record isn't in the commit's blocks")
    b = st.read(c.cid)
    ctx.check(b is not None and b.decoded == d and b.seq == seq, 'stored commit')
    for cid, blk in data.blocks.items():
        ctx.check(cid == blk.cid, 'block under the wrong CID')
        stored = st.read(cid)
        ctx.check(stored is not None, "a block of the commit isn't stored")
        if cid in before:
            ctx.check(stored.seq == before[cid], 'sequence number of an existing block changed')
        else:
            ctx.check(stored.seq == seq, 'new block has the wrong sequence number')
            ctx.check(stored.repo == did, "new block's repo")
    for cid in st.blocks:
        ctx.check(OR(cid in before, cid in data.blocks), 'a stray block was stored')


@H(quick=[dict(n=0, ops=(1,)), dict(n=1, ops=(1,)), dict(n=2, ops=(1,)), dict(n=0, ops=(2,)), dict(n=1, ops=(0,)),
          dict(n=0, ops=(1, 1)), dict(n=1, ops=(1, 1))],
   thorough=[dict(n=n, ops=(1,)) for n in (0, 1, 2, 3)] + [dict(n=n, ops=(2,)) for n in (0, 1, 2)] +
            [dict(n=n, ops=(1, 1)) for n in (0, 1, 2)] + [dict(n=n, ops=(0,)) for n in (0, 1)] +
            [dict(n=0, ops=(1, 1, 1)), dict(n=0, ops=(2, 1)), dict(n=0, ops=(1, 2))])
def chain(ctx, n, ops):
    w = World(ctx)
    ks = w.sorted_keys('k', n)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(ks)]
    env = Env(w, items)
    st, repo = env.st, env.repo
    for i in range(n):
        put_record(w, st, w.record(i))
    prev = env.head.cid
    seq = 1
    for c, nops in enumerate(ops):
        seq = [s for s in SEQS if s > seq][ctx.choose(f'seq{c}', 2)] if c == 0 else seq + 1 + ctx.choose(f'gap{c}', 2)
        st.sequences.sequences[NSID] = seq
        writes, expect = [], []
        for s in range(nops):
            m = len(items)
            op = OPS[ctx.choose(f'op{c}.{s}', 3)] if m else 'add'
            i = ctx.choose(f'at{c}.{s}', m + 1 if op == 'add' else m)
            if op == 'add':
                key = w.key(f'new{c}.{s}')
                assume_at(ctx, items, i, key)
            else:
                key = items[i][0]
            rec = w.record(ctx.int(f'val{c}.{s}', 0, n + 1))
            val = None if op == 'delete' else w.cid_of(rec)
            old = None if op == 'add' else items[i][1]
            writes.append(write_of(w, {'add': 'create'}.get(op, op), key, None if op == 'delete' else rec))
            if op != 'update' or not (val == old):
                expect.append(({'add': 'create'}.get(op, op), key, val, old))
            items = model_op(ctx, items, op, key, val, (i, op != 'add'))
        before = {cid: b.seq for cid, b in st.blocks.items()}
        arg = writes[0] if nops == 1 and ctx.choose(f'single{c}', 2) else writes
        data = st.commit(repo, arg)
        check_commit(ctx, w, env.key, st, data, seq, prev, items, expect, None, before=before)
        ctx.check(repo.head.cid == data.commit.cid, 'head')
        ctx.check(st.load_repo(DID).head.cid == data.commit.cid, 'stored head')
        prev = data.commit.cid
    ctx.reach()


@H(quick=[dict()])
def create(ctx):
    """A new repo: empty first commit, then #identity, #account and #sync events."""
    w = World(ctx)
    st = mem(w)
    w.mods.server.storage = st
    key = new_key(w)
    got = []
    handle = (None, 'han.dle')[ctx.choose('handle', 2)]
    seq = SEQS[ctx.choose('seq', len(SEQS))]
    st.sequences.sequences[NSID] = seq
    cb = (lambda data=None, lost_seq=None: got.append((data, lost_seq))) if ctx.choose('cb', 2) else None
    repo = w.mods.repo.Repo.create(st, DID, signing_key=key, handle=handle, callback=cb)
    events = list(st.read_events_by_seq(start=0))
    ctx.check(len(events) == 4, 'four events')
    check_commit(ctx, w, key, st, events[0], seq, None, [], [], None,
                 before={c: b.seq for c, b in st.blocks.items() if b.seq != seq})
    for e, t, i in zip(events[1:], ('identity', 'account', 'sync'), (1, 2, 3)):
        ctx.check(e['$type'] == f'{NSID}#{t}', 'event type')
        ctx.check(e['seq'] == seq + i, 'event seq')
        ctx.check(e['did'] == DID, 'event did')
    ctx.check(events[1].get('handle') == handle, 'handle')
    ctx.check(events[2]['active'] is True, 'active')
    roots, blocks = w.read_car(events[3]['blocks'])
    ctx.check(len(roots) == 1 and roots[0] == repo.head.cid, '#sync root')
    ctx.check(len(blocks) == 1 and blocks[0][0] == repo.head.cid and
              w.decode(blocks[0][1]) == repo.head.decoded, '#sync has the commit')
    ctx.check(events[3]['rev'] == tid_of(seq), '#sync rev')
    loaded_ = st.load_repo(handle or DID)
    ctx.check(loaded_ is not None and loaded_.did == DID and loaded_.head.cid == events[0].commit.cid, 'stored repo')
    if cb:
        ctx.check(all(l is None for _, l in got), 'a used sequence number was reported as lost')
        seqs = {d['seq'] if isinstance(d, dict) else d.commit.seq for d, _ in got}
        ctx.check(seqs == {seq, seq + 1, seq + 2, seq + 3}, 'callback gets every event')
    ctx.reach()


@H(quick=[dict()])
def record_size(ctx):
    w = World(ctx)
    env = Env(w, [])
    size = ctx.int('size', 900_000, 1_100_000)
    rec = w.record(1, size=size)
    if not w.sym:
        import dag_cbor
        ctx.assume(len(dag_cbor.encode(rec)) == size)
    w.mods.server.server.validate = lambda t, k, obj, **kw: obj
    try:
        env.st.commit(env.repo, write_of(w, 'create', 'a/b', rec))
        ctx.check(size <= 1_000_000, 'a record over 1 MB was accepted')
        ctx.reach('ok')
    except ValueError:
        ctx.check(size > 1_000_000, 'a record within 1 MB was rejected')
        ctx.check(env.repo.head.cid == env.head.cid, 'head')
        ctx.reach('failed')
    ctx.reach()


@H(quick=[dict(n=n) for n in (199, 200, 201)], path_timeout=120)
def many_ops(ctx, n):
    w = World(ctx)
    env = Env(w, [])
    w.mods.server.server.validate = lambda t, k, obj, **kw: obj
    writes = [write_of(w, 'create', f'a/k{i:04d}', w.record(i)) for i in range(n)]
    try:
        env.st.commit(env.repo, writes)
        ctx.check(n <= 200, 'too many operations accepted')
        ctx.check(len(env.repo.head.ops) == n, 'ops')
    except ValueError:
        ctx.check(n > 200, '200 operations were rejected')
        ctx.check(env.repo.head.cid == env.head.cid, 'head')
    ctx.reach()
