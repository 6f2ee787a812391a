"""C07: commits are atomic, and a sequence number that a failed commit leaves unused is reported."""
from repolib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('In-memory storage: repos with n<=2 records (thorough 3), all layer combinations; commits of 1-2 (thorough '
          '1-3) operations of any kind on any existing, missing, new or invalid key; failures: invalid operation, '
          'invalid key, record validation failing at any write, oversized record, signing failing, inactive repo, '
          'callback raising; by the stored Repo object or another one; then another commit. '
          'Datastore storage: repos with up to 1 (thorough 3) records, and also one failing or contended Datastore operation anywhere in the commit.')
OUTSIDE = 'More operations per commit; process death inside the database itself.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'signing is opaque']

OPS5 = ('create', 'update', 'delete')


class Boom(Exception):
    pass


def gen_writes(ctx, w, items, nops, tag, cnt, badkey=True):
    """Arbitrary writes. -> (writes, model items or exception)"""
    writes, cur, err = [], list(items), None
    known = [k for k, _ in items]
    for s in range(nops):
        op = OPS5[ctx.choose(f'{tag}op{s}', 3)]
        # which key: one that was there at first, one this commit made, a new one or a bad one
        j = ctx.choose(f'{tag}key{s}', len(known) + (2 if badkey else 1))
        if j < len(known):
            key = known[j]
        elif j == len(known):
            key = w.key(f'{tag}new{s}')
            known.append(key)
        else:
            key = 'a/b d'
        rec = w.record(cnt + s)
        writes.append(write_of(w, op, key, None if op == 'delete' else rec))
        if err is None:
            if type(key) is str and key == 'a/b d' and op == 'create':
                err = s
            else:
                r = model_op(ctx, cur, {'create': 'add'}.get(op, op), key, w.cid_of(rec))
                if isinstance(r, type):
                    err = s
                else:
                    cur = r
    return writes, (cur if err is None else None), err


def snapshot(w, st):
    return set(st.blocks)


def check_state(ctx, w, env, repo, items, head, what):
    ctx.check(repo.head.cid == head, f'{what}: head')
    ctx.check(items_eq(items_of(repo.mst), items), f'{what}: contents')
    ctx.check(repo.mst.get_pointer() == repo.head.decoded['data'], f'{what}: tree is not the head commit\'s')


@H(quick=[dict(n=0, nops=1), dict(n=1, nops=1), dict(n=2, nops=1), dict(n=0, nops=2), dict(n=1, nops=2)],
   thorough=[dict(n=n, nops=1) for n in (0, 1, 2, 3)] + [dict(n=n, nops=2) for n in (0, 1, 2)] +
            [dict(n=0, nops=3), dict(n=1, nops=3)])
def memory(ctx, n, nops):
    w = World(ctx)
    ks = w.sorted_keys('k', n)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(ks)]
    calls = []
    boom_cb = []

    def callback(data=None, lost_seq=None):
        calls.append((data, lost_seq))
        if boom_cb and data is not None:
            raise Boom()

    env = Env(w, items, callback=callback)
    st = env.st
    for i in range(n):
        put_record(w, st, w.record(i))
    mine = env.repo
    if ctx.choose('other object', 2):
        mine = w.mods.repo.Repo.load(st, cid=env.head.cid, signing_key=env.key, callback=callback)
        env.repo.callback = None
    writes, after, err = gen_writes(ctx, w, items, nops, 'a', 100)
    server = w.mods.server.server
    faults = ['none']
    if err is None:
        nrec = sum(x.record is not None for x in writes)
        faults += [f'validate{i}' for i in range(nrec)] + [f'big{i}' for i in range(nrec)] + [
            'sign', 'inactive', 'callback']
    fault = faults[ctx.choose('fault', len(faults))]
    n_validated = [0]

    def validate(type_, kind, obj, **kw):
        i = n_validated[0]
        n_validated[0] += 1
        if fault == f'validate{i}':
            raise Boom()
        return obj

    server.validate = validate
    if fault.startswith('big'):
        i = [j for j, x in enumerate(writes) if x.record is not None][int(fault[3:])]
        writes[i].record.update(w.record(100 + i, size=1_000_001))
    if fault == 'inactive':
        mine.status = ('deactivated', 'tombstoned')[ctx.choose('status', 2)]
    key = mine.signing_key
    if fault == 'sign':
        class Bad:
            curve = None
            def sign(self, *a):
                raise Boom()
        mine.signing_key = env.repo.signing_key = Bad()
    if fault == 'callback':
        boom_cb.append(1)
    before = snapshot(w, st)
    failed = False
    try:
        st.commit(mine, writes)
    except (ValueError, KeyError, Boom, AssertionError):
        failed = True
    should_fail = err is not None or fault not in ('none',)
    ctx.check(failed == should_fail, f'commit fails iff invalid: {err} {fault}')
    lost = [s for _, s in calls if s is not None]
    sent = [d for d, _ in calls if d is not None]
    if should_fail and fault != 'callback':
        ctx.check(lost == [2] and not sent, 'the unused sequence number is reported once, and no event')
        stored = st.load_repo(DID)
        check_state(ctx, w, env, stored, items, env.head.cid, 'stored repo after a failed commit')
        check_state(ctx, w, env, mine, items, env.head.cid, 'repo after a failed commit')
        ctx.check(len(st.blocks) == len(before), 'blocks were written')
        for c in st.blocks:
            ctx.check(c in before, 'a block was written')
        ctx.check(not list(st.read_events_by_seq(start=2)), 'an event was made')
        now = items
    else:
        ctx.check(len(sent) == 1, 'one event')
        ctx.check(lost == [], 'a used sequence number was reported as lost')
        now = after
        for r, what in ((st.load_repo(DID), 'stored repo'), (mine, 'repo')):
            check_state(ctx, w, env, r, now, sent[0].commit.cid, what + ' after a commit')
        ctx.check(len(list(st.read_events_by_seq(start=2))) == 1, 'number of events')
    # and a later commit works, on top of that
    del boom_cb[:], calls[:]
    fault = 'none'
    mine.status = None
    mine.signing_key = env.repo.signing_key = key
    head = st.load_repo(DID).head.cid
    k2 = w.key('later', colls=('z',))
    i2, there = place(ctx, now, k2)
    rec = w.record(900)
    data = st.commit(mine, write_of(w, 'update' if there else 'create', k2, rec))
    now = model_op(ctx, now, 'update' if there else 'add', k2, w.cid_of(rec), (i2, there))
    ctx.check(data.prev == head and data.commit.decoded['prev'] == head, 'prev of the next commit')
    ctx.check(data.commit.decoded['data'] == Ref(w, now).root, 'data of the next commit')
    check_state(ctx, w, env, st.load_repo(DID), now, data.commit.cid, 'stored repo after a later commit')
    ctx.reach('failed' if failed else 'ok')
    ctx.reach()


class Fault(Exception):
    """An error of the Datastore."""


@H(quick=[dict(n=0, nops=1), dict(n=1, nops=1), dict(n=0, nops=2)],
   thorough=[dict(n=n, nops=1) for n in (0, 1, 2, 3)] + [dict(n=n, nops=2) for n in (0, 1, 2)])
def datastore(ctx, n, nops):
    """A commit to the Datastore that fails or is retried at any point."""
    w = World(ctx)
    ks = w.sorted_keys('k', n)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(ks)]
    env = DSEnv(w, items)
    st, db = env.st, w.ndb
    for i in range(n):
        ds_block(w, w.record(i), 1)
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    calls = []

    def callback(data=None, lost_seq=None):
        calls.append((data, lost_seq))
        if data is not None:
            ctx.check(db.state.context is None or db.state.context.txn is None, 'callback before the commit is durable')

    with env.client.context():
        mine = st.load_repo(DID)
    mine.callback = callback
    writes, after, err = gen_writes(ctx, w, items, nops, 'a', 100)
    before = ds_rows(w)
    # nothing, an error at an operation of the Datastore, or another transaction in the way of the commit
    kind = ('none', 'fault', 'contention')[ctx.choose('fault', 3)] if err is None else 'none'
    at = ctx.choose('fault at', 12) if kind == 'fault' else None
    allocated = []
    real = st.sequences.allocate

    def allocate(nsid):
        s = real(nsid)
        allocated.append(s)
        db.ops = 0
        return s

    st.sequences.allocate = allocate
    hit = []

    def op(what):
        if not allocated:
            return
        if kind == 'fault' and db.ops == at + 1:
            hit.append(what)
            raise Fault(what)
        if kind == 'contention' and what == 'txn commit' and not hit:
            # only the outermost transaction of the commit has anything to lose here
            row = db.tables['AtpRepo'][DID]
            hit.append(what)
            db.apply('AtpRepo', DID, dict(row.values))

    w.yp = op
    failed = False
    try:
        with env.client.context():
            st.commit(mine, writes)
    except (ValueError, KeyError, Fault):
        failed = True
    w.yp = None
    if kind == 'fault':
        ctx.assume(hit)
    elif kind == 'contention':
        ctx.check(hit, 'no transaction')
    st.sequences.allocate = real
    ctx.check(failed == (err is not None or kind == 'fault'), f'commit fails iff invalid: {err} {kind}')
    lost = [s for _, s in calls if s is not None]
    sent = [d for d, _ in calls if d is not None]
    ctx.check(len(calls) == 1, 'one report')
    with env.client.context():
        stored = st.load_repo(DID)
        events = list(st.read_events_by_seq(start=2))
        if failed:
            ctx.check(lost == [2] and not sent, 'the unused sequence number is reported once, and no event')
            check_state(ctx, w, env, stored, items, env.head, 'stored repo after a failed commit')
            check_state(ctx, w, env, mine, items, env.head, 'repo after a failed commit')
            now = ds_rows(w)
            ctx.check(len(now) == len(before), 'blocks were written')
            for k in now:
                ctx.check(k in before, 'a block was written')
            ctx.check(not events, 'an event was made')
            head, now = env.head, items
        else:
            ctx.check(len(sent) == 1 and not lost, 'one event')
            for r, what in ((stored, 'stored repo'), (mine, 'repo')):
                check_state(ctx, w, env, r, after, sent[0].commit.cid, what + ' after a commit')
            ctx.check(len(events) == 1 and events[0].commit.cid == sent[0].commit.cid, 'event in the stream')
            ctx.check(events[0].commit.decoded['prev'] == env.head, 'prev')
            head, now = sent[0].commit.cid, after
        # a later commit works, on top of that
        mine.callback = None
        k2 = w.key('later', colls=('z',))
        i2, there = place(ctx, now, k2)
        rec = w.record(900)
        data = st.commit(mine, write_of(w, 'update' if there else 'create', k2, rec))
        now = model_op(ctx, now, 'update' if there else 'add', k2, w.cid_of(rec), (i2, there))
        ctx.check(data.commit.decoded['prev'] == head, 'prev of the next commit')
        check_state(ctx, w, env, st.load_repo(DID), now, data.commit.cid, 'stored repo after a later commit')
        ctx.check(len(list(st.read_events_by_seq(start=data.commit.seq))) == 1, 'number of events')
    ctx.reach('failed' if failed else 'ok')
    ctx.reach(kind)
    ctx.reach()
