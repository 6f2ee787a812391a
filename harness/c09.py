"""C09: reading events by sequence number gives every event once, in order, complete."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('In-memory storage: histories of 2-3 (thorough 4) steps over two repos, each an arbitrary commit (create, update, '
          'delete or empty, with record contents and tree nodes that may coincide with earlier ones of either repo), '
          'account, identity, sync or tombstone event, or a failed commit (lost sequence number); then reading from every '
          'sequence number, for all repos or one. Datastore storage is in C22.')
OUTSIDE = 'Longer histories. Records that look like commits or firehose events.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective']

DIDS = ('did:web:a', 'did:web:b')
KEYS = ('a/k1', 'a/k2')       # layers are those of the real hashes


def kinds(tier):
    return ('create', 'update', 'delete', 'empty', 'event', 'lost')


@H(quick=[dict(steps=2), dict(steps=3)], thorough=[dict(steps=2), dict(steps=3), dict(steps=4)])
def history(ctx, steps):
    w = World(ctx)
    st = mem(w)
    w.mods.server.storage = st
    w.mods.server.server.validate = lambda t, k, obj, **kw: obj
    repos, items, expect = [], [[], []], []
    for i, did in enumerate(DIDS):
        env = Env(w, [], storage=st, did=did, key=new_key(w, i), seq=i + 1)
        repos.append(env.repo)
        expect.append((i + 1, did, 'commit', env.head.decoded, [], None))
    seq = 2
    st.sequences.sequences[NSID] = 3
    ks = kinds(ctx.tier)
    for s in range(steps):
        r = ctx.choose(f'repo{s}', 2) if s else 0
        repo, its, did = repos[r], items[r], DIDS[r]
        kind = ks[ctx.choose(f'kind{s}', len(ks))]
        seq += 1
        if kind == 'event':
            t = ('account', 'identity', 'sync', 'tombstone')[ctx.choose(f'type{s}', 4)]
            st.write_event(repo, t, x=s)
            expect.append((seq, did, 'event', t, s, None))
            continue
        if kind == 'lost':
            try:
                st.commit(repo, write_of(w, 'delete', 'a/none', None))
                ctx.fail('deleting a missing record did not fail')
            except ValueError:
                pass
            continue
        have = [k for k, _ in its]
        writes, ops = [], []
        if kind != 'empty':
            avail = [k for k in KEYS if (k in have) == (kind != 'create')]
            if not avail:
                ctx.assume(False)
            key = avail[ctx.choose(f'key{s}', len(avail))]
            rec = w.record(ctx.int(f'rec{s}', 0, 1)) if kind != 'delete' else None
            val = w.cid_of(rec) if rec else None
            writes = [write_of(w, kind, key, rec)]
            old = dict(its).get(key)
            if kind != 'update' or not (val == old):
                ops = [(kind, key, val, old)]
            d = dict(its)
            d.pop(key, None)
            if val is not None:
                d[key] = val
            items[r] = sorted(d.items())
        st.commit(repo, writes)
        expect.append((seq, did, 'commit', {'data': Ref(w, items[r]).root, 'prev': None}, ops, repo.head.cid))
    start = ctx.int('start', 0, seq + 1)
    only = (None, DIDS[0], DIDS[1])[ctx.choose('only', 3)]
    got = list(st.read_events_by_seq(start=start, repo=only) if only else st.read_events_by_seq(start=start))
    want = [e for e in expect if e[0] >= start and only in (None, e[1])]
    ctx.check(len(got) == len(want), 'number of events')
    for g, e in zip(got, want):
        if e[2] == 'event':
            ctx.check(isinstance(g, dict) and g['seq'] == e[0] and g['did'] == e[1] and
                      g['$type'] == f'{NSID}#{e[3]}' and g['x'] == e[4], 'event')
            continue
        ctx.check(not isinstance(g, dict), 'a commit is missing')
        ctx.check(g.commit.seq == e[0], 'order or sequence number')
        d = g.commit.decoded
        ctx.check(d['did'] == e[1] and d['data'] == e[3]['data'], 'commit')
        if e[5] is not None:
            ctx.check(g.commit.cid == e[5], 'commit CID')
        ctx.check(g.prev == d['prev'] if d['prev'] is not None else g.prev is None, 'prev')
        ctx.check(g.commit.cid in g.blocks, "blocks lack the commit")
        ctx.check(d['data'] in g.blocks and g.blocks[d['data']] is not None, 'blocks lack the root node')
        ctx.check(len(g.commit.ops) == len(e[4]), 'operations')
        for a, b in zip(g.commit.ops, e[4]):
            ctx.check(a.action.name.lower() == b[0] and a.path == b[1], 'operation')
            ctx.check(a.prev_cid == b[3] if b[3] is not None else a.prev_cid is None, 'prev of operation')
            if b[2] is not None:
                ctx.check(a.cid == b[2], 'cid of operation')
                ctx.check(b[2] in g.blocks, "blocks lack a record")
                ctx.check(w.cid_of(g.blocks[b[2]].decoded) == b[2], "record block")
        for c, b in g.blocks.items():
            ctx.check(b.cid == c, 'block under the wrong CID')
            ctx.check(b.seq <= e[0], 'a block of a later event')
    ctx.reach()
