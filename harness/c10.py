"""C10: the firehose message for an event says exactly what happened."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Repos with n<=2 (thorough 3) records of all layer combinations; first, second and third commits with 0-2 operations '
          'of any kind (including updates that change nothing); #account, #identity, #sync and #tombstone events '
          'with arbitrary fields; with and without the previous commit given; each message made twice; sequence '
          'numbers of several magnitudes.')
OUTSIDE = 'Wire encoding of messages (lexrpc).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'signing is opaque']

SEQS = (2, 33, 1025, 2 ** 41)
PAYLOAD = {'repo', 'ops', 'commit', 'blocks', 'time', 'seq', 'rev', 'since', 'rebase', 'blobs', 'tooBig'}


def check_message(ctx, w, header, payload, did, seq, commit, ops, prev_data, when):
    ctx.check(header == {'op': 1, 't': '#commit'}, 'header')
    ctx.check(set(payload) == PAYLOAD | ({'prevData'} if prev_data is not None else set()), 'fields')
    ctx.check(payload['repo'] == did, 'repo')
    ctx.check(payload['seq'] == seq, 'seq')
    ctx.check(payload['rev'] == tid_of(seq), 'rev')
    ctx.check(payload['commit'] == commit, 'commit')
    ctx.check(payload['time'] == when, 'time')
    ctx.check(payload['rebase'] is False and payload['tooBig'] is False and payload['blobs'] == [], 'constant fields')
    if prev_data is not None:
        ctx.check(payload['prevData'] == prev_data, 'prevData')
    ctx.check(len(payload['ops']) == len(ops), 'number of operations')
    for a, b in zip(payload['ops'], ops):
        ctx.check(a['action'] == b[0], 'action')
        ctx.check(a['path'] == b[1], 'path')
        ctx.check('cid' in a and (a['cid'] == b[2] if b[2] is not None else a['cid'] is None), 'cid')
        if b[3] is not None:
            ctx.check('prev' in a and a['prev'] == b[3], 'prev')
        else:
            ctx.check(a.get('prev') is None, 'prev of a create')
    c, blocks = event_commit(ctx, w, payload)
    return c, blocks


@H(quick=[dict(n=0, ops=(1,)), dict(n=1, ops=(1,)), dict(n=2, ops=(1,)), dict(n=0, ops=(2,)), dict(n=1, ops=(2,)), dict(n=1, ops=(0,)),
          dict(n=0, ops=(1, 1))],
   thorough=[dict(n=n, ops=o) for n in (0, 1, 2) for o in ((1,), (2,), (0,), (1, 1))] + [dict(n=3, ops=(1,))])
def commits(ctx, n, ops):
    w = World(ctx)
    ks = w.sorted_keys('k', n)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(ks)]
    env = Env(w, items)
    st, repo = env.st, env.repo
    for i in range(n):
        put_record(w, st, w.record(i))
    F = w.mods.firehose
    data, prev_block = env.ref.root, env.head
    seq = SEQS[ctx.choose('seq', len(SEQS))]
    st.sequences.sequences[NSID] = seq
    for c, nops in enumerate(ops):
        w.now_us += 1_234_567
        writes, expect = [], []
        for s in range(nops):
            m = len(items)
            op = OPS[ctx.choose(f'op{c}.{s}', 3)] if m else 'add'
            i = ctx.choose(f'at{c}.{s}', m + 1 if op == 'add' else m)
            if op == 'add':
                key = w.key(f'new{c}.{s}')
                assume_at(ctx, items, i, key)
            else:
                key = items[i][0]
            rec = w.record(ctx.int(f'val{c}.{s}', 0, n + 1))
            val = None if op == 'delete' else w.cid_of(rec)
            old = None if op == 'add' else items[i][1]
            writes.append(write_of(w, {'add': 'create'}.get(op, op), key, None if op == 'delete' else rec))
            if op != 'update' or not (val == old):
                expect.append(({'add': 'create'}.get(op, op), key, val, old))
            items = model_op(ctx, items, op, key, val, (i, op != 'add'))
        cd = st.commit(repo, writes)
        event = list(st.read_events_by_seq(start=seq))[0]
        when = '2023-11-14T22:13:' + ('21.234567', '22.469134', '23.703701')[c] + '+00:00'
        twice = ctx.choose(f'how{c}', 2)
        for _ in range(1 + twice):
            header, payload = F.process_event(event, **({'prev_commit': prev_block} if twice else {}))
            com, blocks = check_message(ctx, w, header, payload, DID, seq, cd.commit.cid, expect, data, when)
            ctx.check(com == cd.commit.decoded, 'commit block')
            ctx.check(com['data'] in blocks, 'root node is missing')
            for e in expect:
                if e[2] is not None:
                    ctx.check(e[2] in blocks, 'a record is missing')
        data, prev_block = cd.commit.decoded['data'], cd.commit
        seq += 1
    ctx.reach()


@H(quick=[dict()])
def first_commit(ctx):
    """A new repo's first commit has no previous data."""
    w = World(ctx)
    st = mem(w)
    w.mods.server.storage = st
    seq = SEQS[ctx.choose('seq', len(SEQS))]
    st.sequences.sequences[NSID] = seq
    repo = w.mods.repo.Repo.create(st, DID, signing_key=new_key(w))
    events = list(st.read_events_by_seq())
    for _ in range(2):
        header, payload = w.mods.firehose.process_event(events[0])
        com, blocks = check_message(ctx, w, header, payload, DID, seq, repo.head.cid, [], None,
                                    '2023-11-14T22:13:20+00:00')
        ctx.check(com['data'] == Ref(w, []).root and com['data'] in blocks, 'empty root')
    ctx.reach()


@H(quick=[dict()])
def events(ctx):
    w = World(ctx)
    env = Env(w, [])
    F = w.mods.firehose
    t = ('account', 'identity', 'sync', 'tombstone')[ctx.choose('type', 4)]
    seq = SEQS[ctx.choose('seq', len(SEQS))]
    env.st.sequences.sequences[NSID] = seq
    kw = {}
    if ctx.choose('active', 2):
        kw['active'] = ctx.bool('isactive')
    if ctx.choose('status', 2):
        kw['status'] = ctx.str('st', 3)
    env.st.write_event(env.repo, t, **kw)
    for _ in range(2):
        evs = list(env.st.read_events_by_seq(start=seq))
        ctx.check(len(evs) == 1, 'event is stored')
        header, payload = F.process_event(evs[0])
        ctx.check(header == {'op': 1, 't': f'#{t}'}, 'header')
        ctx.check(set(payload) == {'seq', 'did', 'time'} | set(kw), 'fields')
        ctx.check(payload['seq'] == seq and payload['did'] == DID, 'seq and did')
        ctx.check(payload['time'] == '2023-11-14T22:13:20+00:00', 'time')
        for k, v in kw.items():
            ctx.check(payload[k] == v, 'field')
    ctx.reach()
