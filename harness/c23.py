"""C23: concurrent commits to the Datastore are serializable."""
from repolib import *
from symx.harness import Registry
from symx.sched import Sched

H = Registry()
BOUNDS = ('A repo with 0-1 records with any keys of hash layers 0..2 (with a record: quick only layer 0); 2 threads (thorough: also 3), each with its own Repo object, loaded before or in between, '
          'that commit one create, update or delete (thorough: also 2 operations) of the existing, the same new or another new key, or deactivate or reactivate the repo; '
          'in all interleavings at Datastore operations with at most 1 preemption (thorough: 2).')
OUTSIDE = 'More contention than the transaction\'s 10 retries.'
ASSUMPTIONS = ['Datastore transactions are serializable, with optimistic concurrency', 'SHA-256 and DAG-CBOR are injective',
               'hash of an MST key is arbitrary']
OPS = ('create', 'update', 'delete')


def gen(ctx, w, i, k0, new, nops):
    """One thread's writes. -> [(op, key, record)]"""
    out = []
    for j in range(nops):
        op = OPS[ctx.choose(f't{i} op{j}', 3)]
        keys = [k0, new] if k0 is not None else [new]
        key = keys[ctx.choose(f't{i} key{j}', len(keys))]
        out.append((op, key, None if op == 'delete' else w.record(10 * (i + 1) + j)))
    return out


def apply(ctx, w, items, writes):
    """-> new items, or None if it's invalid"""
    for op, key, rec in writes:
        r = model_op(ctx, items, {'create': 'add'}.get(op, op), key, w.cid_of(rec) if rec else None)
        if isinstance(r, type):
            return None
        items = r
    return items


@H(quick=[dict(n=0, threads=2, nops=1, preemptions=1), dict(n=1, threads=2, nops=1, preemptions=1, layers=1)],
   thorough=[dict(n=0, threads=2, nops=1, preemptions=2), dict(n=1, threads=2, nops=1, preemptions=1), dict(n=1, threads=2, nops=1, preemptions=2, layers=1),
             dict(n=0, threads=2, nops=2, preemptions=1, layers=1), dict(n=0, threads=3, nops=1, preemptions=1, layers=1)])
def commits(ctx, n, threads, nops, preemptions, layers=3):
    ctx.memo['min_byte0'] = (256, 64, 16, 4)[layers]
    S = Sched(ctx, preemptions=preemptions)
    w = World(ctx, sched=S)
    k0 = w.key('k0') if n else None
    new = w.key('new')
    if n:
        ctx.assume(NOT(k0 == new))
    items = [(k0, w.cid_of(w.record(0)))] if n else []
    env = DSEnv(w, items)
    st = env.st
    if n:
        ds_block(w, w.record(0), 1)
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    kinds = [('commit', 'deactivate')[ctx.choose(f't{i} kind', 2)] if i == threads - 1 else 'commit' for i in range(threads)]
    jobs = [gen(ctx, w, i, k0, new, nops) if k == 'commit' else None for i, k in enumerate(kinds)]
    reports = [[] for _ in jobs]
    spans, clock, off = {}, [0], []

    def tick():
        clock[0] += 1
        return clock[0]

    def body(i):
        with env.client.context():
            repo = st.load_repo(DID)
            if kinds[i] == 'deactivate':
                st.deactivate_repo(repo)
                off.append(tick())
                return

            def callback(data=None, lost_seq=None):
                reports[i].append((data, lost_seq))
            repo.callback = callback
            begin = tick()
            try:
                st.commit(repo, [write_of(w, *x) for x in jobs[i]])
            finally:
                spans[i] = (begin, tick())

    tasks = [S.spawn(f't{i}', lambda i=i: body(i)) for i in range(threads)]
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    done = {}
    for i, t in enumerate(tasks):
        if kinds[i] != 'commit':
            ctx.check(t.exc is None, 'deactivate failed')
            continue
        ctx.check(len(reports[i]) == 1, 'one report')
        data, lost = reports[i][0]
        if t.exc is None:
            ctx.check(data is not None, 'reported')
            done[i] = data
        else:
            if type(t.exc).__name__ not in ('ValueError', 'KeyError', 'InactiveRepo'):
                raise t.exc
            ctx.check(lost is not None and data is None, 'lost number is reported')
    with env.client.context():
        final = st.load_repo(DID)
        # the chain of commits from the head
        chain = []
        c = final.head
        while c is not None and not (c.cid == env.head):
            chain.insert(0, c)
            ctx.check(len(chain) <= len(done), 'commits nobody made')
            p = c.decoded['prev']
            c = st.read(p)
        ctx.check(c is not None, 'chain is broken')
        ctx.check(len(chain) == len(done), 'a commit is not in the repo\'s history')
        cur, last = items, None
        failed = [i for i in range(threads) if kinds[i] == 'commit' and i not in done]
        states = [items]
        for c in chain:
            who = [i for i, d in done.items() if d.commit.cid == c.cid]
            ctx.check(len(who) == 1, 'commit of one thread')
            cur = apply(ctx, w, cur, jobs[who[0]])
            ctx.check(cur is not None, 'an invalid commit succeeded')
            ctx.check(c.decoded['data'] == Ref(w, cur).root, 'contents after a commit')
            if last is not None:
                # (a commit that began later than another one ended)
                ctx.check(not spans[who[0]][1] < spans[last][0], 'order of commits')
                ctx.check(c.seq > done[last].commit.seq, 'revs go down', finding='concurrent-revs',
                          when=spans[who[0]][0] < spans[last][1])
            last = who[0]
            if off:
                ctx.check(not off[0] < spans[last][0], 'commit to a repo that was deactivated before')
            states.append(cur)
        for i in failed:
            inactive = type(tasks[i].exc).__name__ == 'InactiveRepo'
            ctx.check(inactive and 'deactivate' in kinds or any(apply(ctx, w, s, jobs[i]) is None for s in states), 'a valid commit failed')
        ctx.check(items_eq(items_of(final.mst), cur), 'contents')
        ctx.check(final.status == ('deactivated' if 'deactivate' in kinds else None), 'status')
        # every commit, and nothing else, is in the stream
        events = [e for e in st.read_events_by_seq(start=2) if type(e) is not dict]
        ctx.check(len(events) == len(chain), 'number of events')
        for e in events:
            ctx.check(any(e.commit.cid == c.cid for c in chain), 'an event of no commit')
    ctx.reach('both' if len(done) == threads else 'some')
    ctx.reach()
