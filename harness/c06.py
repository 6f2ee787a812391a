"""C06: a #commit event's blocks suffice to verify and invert it."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Repos with n<=4 records, all hash layer combinations 0..3 and key orders; one commit '
          'with one arbitrary operation (two operations for n<=1, thorough n<=2), then for n<=1 a second commit '
          'after it; the events are built by read_events_by_seq() and process_event().')
OUTSIDE = 'Larger trees and commits.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary',
               'signing is opaque']


@H(quick=[dict(n=0, ops=(1,)), dict(n=1, ops=(1,)), dict(n=2, ops=(1,)), dict(n=3, ops=(1,)),
          dict(n=0, ops=(2,)), dict(n=1, ops=(2,)), dict(n=0, ops=(1, 1)), dict(n=1, ops=(1, 1)), dict(n=4, ops=(1,))],
   thorough=[dict(n=n, ops=(1,)) for n in range(6)] +
            [dict(n=n, ops=(2,)) for n in (0, 1, 2)] + [dict(n=n, ops=(1, 1)) for n in (0, 1, 2)] +
            [dict(n=0, ops=(3,)), dict(n=0, ops=(2, 1)), dict(n=0, ops=(1, 1, 1))])
def invertible(ctx, n, ops):
    ctx.memo['min_byte0'] = 1       # layers 0 to 3
    w = World(ctx)
    items = []
    env = None
    ks = w.sorted_keys('k', n)
    recs = {}
    for i, k in enumerate(ks):
        rec = w.record(i)
        items.append((k, w.cid_of(rec)))
    env = Env(w, items)
    for i in range(n):
        put_record(w, env.st, w.record(i))
    root = env.ref.root
    cnt = 100
    for c, nops in enumerate(ops):
        writes, expect = [], []
        for s in range(nops):
            m = len(items)
            op = OPS[ctx.choose(f'op{c}.{s}', 3)] if m else 'add'
            i = ctx.choose(f'at{c}.{s}', m + 1 if op == 'add' else m)
            if op == 'add':
                key = w.key(f'new{c}.{s}')
                assume_at(ctx, items, i, key)
            else:
                key = items[i][0]
            cnt += 1
            rec = w.record(cnt)
            val = w.cid_of(rec)
            writes.append(write_of(w, {'add': 'create'}.get(op, op), key,
                                   None if op == 'delete' else rec))
            items = model_op(ctx, items, op, key, val, (i, op != 'add'))
        seq = 2 + c
        env.st.commit(env.repo, writes)
        new = Ref(w, items).root
        events = list(env.st.read_events_by_seq(start=seq))
        ctx.check(len(events) == 1, 'one event per commit')
        header, payload = w.mods.firehose.process_event(events[0])
        commit, blocks = event_commit(ctx, w, payload)
        ctx.check(commit['data'] == new, "commit's data is not the new tree's root")
        ctx.check(payload['prevData'] == root, "prevData is not the previous tree's root")
        ctx.check(len(payload['ops']) == len(writes), 'number of operations')
        for op in payload['ops']:
            if op['action'] != 'delete':
                ctx.check(op['cid'] in blocks, "a written record's block is missing")
        try:
            got = invert(ctx, w, payload, commit, blocks)
        except Missing:
            ctx.fail('a block needed to check the commit is missing')
        ctx.check(got == root, 'inverting the operations does not give prevData')
        root = new
    ctx.reach()
