"""C22: the Datastore's block reads are exact and complete, and writes keep what is there."""
import datetime as _dt
import hashlib
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('By sequence number: 0-3 (thorough 4) blocks of two repos with any sequence numbers 1-6, any start and repo filter, with the ndb context lost at any up to 2 (thorough 3) '
          'points, in a thread with or without an ndb context. Lookups: 0-3 (thorough 4) CIDs, stored or not, repeated or not, and of those up to 2003, with each lookup returning any part of '
          'the keys, in any order, and deferring the rest. Writes: 0-2 (thorough 3) blocks, each new, there already or the same as another one, with any kinds of operations.')
OUTSIDE = 'Blocks that are written while reading by sequence number, other than by commits (C11, C12).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'ndb and Datastore are modelled: queries are strongly consistent, lookups may defer keys']
DIDS = ('did:web:a', 'did:web:b')


@H(quick=[dict(n=0, lost=1), dict(n=1, lost=2), dict(n=2, lost=2), dict(n=3, lost=1, filt=False), dict(n=3, lost=1, top=3)],
   thorough=[dict(n=2, lost=3), dict(n=3, lost=2), dict(n=4, lost=1), dict(n=3, lost=3, top=3)])
def by_seq(ctx, n, lost, filt=True, top=6):
    w = World(ctx)
    st, client = ds_storage(w)
    rows = []
    with client.context():
        for i in range(n):
            seq = ctx.int(f'seq{i}', 1, top)
            if i and not filt:
                ctx.assume(seq >= rows[-1][1])
            did = DIDS[ctx.choose(f'repo{i}', 2)] if filt else DIDS[0]
            rec = w.record(i)
            rows.append((ds_block(w, rec, seq, did), seq, did, rec))
    start = ctx.int('start', 0, top + 1)
    only = (None,) + DIDS
    only = only[ctx.choose('only', 3)] if filt else None
    left = [lost]
    cur = [None]

    def hook(kind, i, row):
        cur[0] = w.ndb.state.context
        if left[0] and ctx.flag(f'lost{lost - left[0]}@{w.ndb.ops}.{i}'):
            left[0] -= 1
            w.ndb.state.context.dead = True
            raise w.ndb.overrides['google.cloud.ndb.exceptions'].ContextError('lost')
    w.ndb.query_hook = hook

    def read():
        out = list(st.read_blocks_by_seq(start=start, repo=only) if only else st.read_blocks_by_seq(start=start))
        return out
    if ctx.flag('context'):
        with client.context():
            got = read()
    else:
        got = read()
        ctx.check(w.ndb.state.context is None, 'leaves a context behind')
    want = [r for r in rows if r[1] >= start and only in (None, r[2])]
    ctx.check(len(got) == len(want), 'a block is missing or repeated')
    last = 0
    seen = []
    for b in got:
        ctx.check(b.seq >= last, 'order')
        last = b.seq
        ctx.check(not any(b.cid == c for c in seen), 'a block is repeated')
        seen.append(b.cid)
        m = [r for r in want if r[0] == b.cid]
        ctx.check(len(m) == 1, "a block that shouldn't be there")
        ctx.check(b.seq == m[0][1], 'sequence number')
        ctx.check(b.decoded == m[0][3] and b.encoded == w.encode(m[0][3]), 'content')
    if left[0] < lost:
        ctx.reach('lost')
    ctx.reach()


def raw(w, cid):
    return libsym.SymCIDBytes(cid) if w.sym else bytes(cid)


def raw_other(w, n):
    # the CID of something that's not stored
    data = b'missing %d' % n
    if w.sym:
        return libsym.SymCIDBytes(libsym.SymCID.new('content', ('raw', data)))
    return b'\x01\x55\x12\x20' + hashlib.sha256(data).digest()


def lookup_hook(ctx, state, rounds):
    """Each lookup call returns some of its keys and defers the rest."""
    def hook(keys):
        state['calls'] += 1
        keys = list(keys)
        if state['rounds'] >= rounds:
            return keys, []
        state['rounds'] += 1
        now, deferred = [], []
        for i, k in enumerate(keys):
            (deferred if ctx.flag(f'defer{state["rounds"]}.{i}') else now).append(k)
        if ctx.flag(f'rev{state["rounds"]}'):
            now.reverse()
        return now, deferred
    return hook


@H(quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=3, rounds=1)], thorough=[dict(n=3, rounds=2), dict(n=4, rounds=1)])
def lookups(ctx, n, rounds=2):
    w = World(ctx)
    st, client = ds_storage(w)
    state = dict(calls=0, rounds=0)
    with client.context():
        recs = [w.record(ctx.int(f'r{i}', 0, n - 1)) for i in range(n)]
        cids = [w.cid_of(r) for r in recs]
        stored = []
        for i in range(n):
            if ctx.flag(f'stored{i}'):
                seq = 10 + i
                dup = [s for c, s, r in stored if c == cids[i]]
                if dup:
                    ctx.assume(False)
                ds_block(w, recs[i], seq)
                stored.append((cids[i], seq, recs[i]))
        ds_block(w, w.record(99), 5)        # another one

        def find(cid):
            for c, s, r in stored:
                if c == cid:
                    return s, r

        if ctx.flag('raw'):
            w.ndb.lookup_hook = lookup_hook(ctx, state, rounds)
            got = st.read_many_raw([raw(w, c) for c in cids])
            for c in cids:
                f = find(c)
                g = got.get(raw(w, c))
                if f is None:
                    ctx.check(g is None, 'a missing block is found')
                else:
                    ctx.check(g is not None, 'a block is not found')
                    ctx.check(g[0] == w.encode(f[1]) and g[1] == f[0], 'raw block')
            ctx.check(all(any(k == raw(w, c) for c in cids) for k in got), 'a block that was not asked for')
        else:
            got = st.read_many(iter(cids) if ctx.flag('iter') else cids)
            for c in cids:
                f = find(c)
                for b in (got[c], st.read(c)):
                    ctx.check((b is None) == (f is None), 'found')
                    if f:
                        ctx.check(b.cid == c and b.seq == f[0] and b.encoded == w.encode(f[1]) and b.decoded == f[1], 'block')
                ctx.check(st.has(c) == (f is not None), 'has')
            ctx.check(all(any(k == c for c in cids) for k in got), 'a block that was not asked for')
    ctx.reach()


@H(quick=[{}], thorough=[dict(more=True)])
def many(ctx, more=False):
    """More keys than a lookup call may have. Keys are concrete, what is stored and deferred isn't."""
    w = World(ctx)
    st, client = ds_storage(w)
    N = ((999, 1000, 1001, 2003) + ((3001,) if more else ()))[ctx.choose('n', 5 if more else 4)]
    at = (0, 998, 999, 1000, 1999, 2000, N - 1)
    with client.context():
        i = at[ctx.choose('at', len(at))]
        if i >= N:
            ctx.assume(False)
        rec = {'$type': REC, 'n': 1}
        cid = ds_block(w, rec, 7)
        key = raw(w, cid)
        cids = [raw_other(w, j) for j in range(N)]
        cids[i] = key
        d = ctx.choose('defer', 3)
        state = dict(first=True)

        def hook(keys):
            # defers none, the last ones or all but the first of the first call
            if not state['first'] or d == 0:
                return list(keys), []
            state['first'] = False
            return (list(keys[:-2]), list(keys[-2:])) if d == 1 else (list(keys[:1]), list(keys[1:]))
        w.ndb.lookup_hook = hook
        got = st.read_many_raw(cids)
        ctx.check(got.get(key) is not None, 'a block is not found')
        ctx.check(got[key][0] == w.encode(rec) and got[key][1] == 7, 'raw block')
        ctx.check(all(v is None or k == key for k, v in got.items()), 'a missing block is found')
    ctx.reach()


TIMES = (_dt.datetime(2024, 5, 6, 7, 8, 9, 123456, _dt.timezone.utc), _dt.datetime(2024, 5, 6, 7, 8, 9, 0, _dt.timezone(_dt.timedelta(hours=-7))))


@H(quick=[dict(n=0), dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def writes(ctx, n):
    w = World(ctx)
    st, client = ds_storage(w)
    S = w.mods.storage
    A = S.Action
    with client.context():
        recs = [w.record(ctx.int(f'r{i}', 0, n - 1)) for i in range(n)]
        old = {}
        if n and ctx.flag('there'):
            ds_block(w, recs[0], 3, DIDS[1], ops=[])
        rec_other = w.record(77)
        ds_block(w, rec_other, 2, DIDS[1])
        before = ds_rows(w)
        a, b = w.cid_of(w.record(50)), w.cid_of(w.record(51))
        blocks = []
        for i, r in enumerate(recs):
            kinds = ctx.choose(f'ops{i}', 4) if i == 0 else 0
            ops = [None, [], [S.CommitOp(A.CREATE, 'a/b', a), S.CommitOp(A.DELETE, 'a/c', None, b)], [S.CommitOp(A.UPDATE, 'a/b', a, b)]][kinds]
            blocks.append(S.Block(decoded=r, seq=8, repo=DIDS[0], ops=ops, time=TIMES[ctx.choose(f'time{i}', 2)]))
        how = ctx.choose('how', 2)
        if how == 0:
            st.write_blocks(blocks)
        else:
            for bl in blocks:
                ret = st.write(DIDS[0], bl.decoded, seq=8)
                ctx.check(ret.cid == bl.cid and ret.decoded == bl.decoded, 'block returned by write')
        after = ds_rows(w)
        for k, v in before.items():
            ctx.check(k in after, 'a block is gone')
            for f in ('encoded', 'seq', 'repo', 'created'):
                ctx.check(after[k][f] == v[f], 'a block that was there has changed')
        names = []
        for i, bl in enumerate(blocks):
            name = bl.cid.encode('base32')
            if any(k == name for k in before) or any(k == name for k in names):
                names.append(name)
                continue
            names.append(name)
            ctx.check(any(k == name for k in after), 'a block is missing')
            got = st.read(bl.cid)
            ctx.check(got.cid == bl.cid and got.encoded == w.encode(recs[i]) and got.decoded == recs[i] and got.seq == 8, 'stored block')
            row = [v for k, v in after.items() if k == name][0]
            ctx.check(row['repo'].id() == DIDS[0] and row['repo'].kind() == 'AtpRepo', 'repo')
            if how == 0:
                same = [o for o in blocks if o.cid == bl.cid]
                if len(same) == 1:
                    ctx.check(got.time == bl.time.astimezone(_dt.timezone.utc).replace(tzinfo=None), 'time')
                    ctx.check(len(got.ops) == len(bl.ops or []), 'operations')
                    for x, y in zip(got.ops, bl.ops or []):
                        ctx.check(x.action == y.action and x.path == y.path, 'operation')
                        for f in ('cid', 'prev_cid'):
                            u, v = getattr(x, f), getattr(y, f)
                            ctx.check((u is None) == (v is None), 'operation CID')
                            if u is not None:
                                ctx.check(u == v, 'operation CID')
        ctx.check(all(any(k == o for o in list(before) + names) for k in after), 'an additional block')
    ctx.reach()
