"""C30: a subscriber can follow all repos from any cursor, over a restart."""
from repolib import *
from symx.harness import Registry
from symx.sched import Sched
from c10 import check_message

H = Registry()
BOUNDS = ('In-memory and Datastore storage. A repo is created, 0-2 (thorough 3) steps follow, then the firehose starts, a subscriber connects with any cursor (or none), '
          'and 0-1 (thorough 2) further steps follow; each step is a commit of one arbitrary operation on keys of hash layer 0 (thorough, and two steps before: 0..1), '
          'a change of status, or the creation of a second repo; preload and rollback windows of 1, 3 or 12; all orders of the subscriber, the collector and the writer when one of them blocks.')
OUTSIDE = 'Preemption at other points (C11). Sequence numbers that are lost (C12). Wire encoding.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary', 'signing is opaque']
BOB = 'did:web:bob.com'


class Log:
    """Does things, and notes what each sequence number stands for."""
    def __init__(self, ctx, w, st, seq, run):
        self.ctx, self.w, self.st, self.seq, self.run = ctx, w, st, seq, run
        self.log = []       # [(kind, did, fields)]
        self.items = {}     # did -> items
        self.data = {}      # did -> data CID of the last commit
        self.repos = {}
        self.off = False
        self.n = 0

    def create(self, did, n):
        w = self.w
        key = new_key(w, n)
        repo = self.run(lambda: w.mods.repo.Repo.create(self.st, did, signing_key=key, handle=f'h{n}.com', callback=self.callback))
        self.repos[did], self.items[did] = repo, []
        root = Ref(w, []).root
        self.log.append(('commit', did, dict(commit=repo.head.cid, ops=[], prev=None, data=root, items=[])))
        self.log.append(('identity', did, dict(handle=f'h{n}.com')))
        self.log.append(('account', did, dict(active=True)))
        self.log.append(('sync', did, dict(commit=repo.head.cid, rev=tid_of(self.seq + len(self.log) - 3))))
        self.data[did] = root

    def callback(self, **kw):
        self.w.mods.firehose.send_events()

    def step(self):
        ctx, w = self.ctx, self.w
        self.n += 1
        kinds = ['commit', 'status']
        if BOB not in self.repos:
            kinds.append('create')
        kind = kinds[ctx.choose(f'step{self.n}', len(kinds))]
        if kind == 'create':
            return self.create(BOB, 2)
        did = DID
        repo = self.repos[did]
        if kind == 'status' or self.off:
            self.off = not self.off
            if self.off:
                self.run(lambda: self.st.deactivate_repo(repo))
                self.log.append(('account', did, dict(active=False, status='deactivated')))
            else:
                self.run(lambda: self.st.activate_repo(repo))
                self.log.append(('account', did, dict(active=True)))
            w.mods.firehose.send_events()
            return
        items = self.items[did]
        m = len(items)
        op = OPS[ctx.choose(f'op{self.n}', 3)] if m else 'add'
        i = ctx.choose(f'at{self.n}', m + 1 if op == 'add' else m)
        key = w.key(f'k{self.n}') if op == 'add' else items[i][0]
        if op == 'add':
            assume_at(ctx, items, i, key)
        rec = None if op == 'delete' else w.record(self.n)
        val = None if op == 'delete' else w.cid_of(rec)
        old = None if op == 'add' else items[i][1]
        A = {'add': 'create'}.get(op, op)
        cd = self.run(lambda: self.st.commit(repo, [write_of(w, A, key, rec)]))
        items = self.items[did] = model_op(ctx, items, op, key, val, (i, op != 'add'))
        data = Ref(w, items).root
        self.log.append(('commit', did, dict(commit=cd.commit.cid, ops=[(A, key, val, old)], prev=self.data[did], data=data, items=items)))
        self.data[did] = data

    def check(self, header, payload, i):
        """The message is that of the i-th event."""
        ctx, w = self.ctx, self.w
        kind, did, f = self.log[i]
        seq = self.seq + i
        when = '2023-11-14T22:13:20+00:00'
        ctx.check(header['op'] == 1 and header['t'] == f'#{kind}', f'expected #{kind}')
        ctx.check(payload['seq'] == seq, 'seq')
        if kind == 'commit':
            com, blocks = check_message(ctx, w, header, payload, did, seq, f['commit'], f['ops'], f['prev'], when)
            ctx.check(com['data'] == f['data'], 'the records do not add up to data')
            for op in f['ops']:
                ctx.check(op[2] is None or op[2] in blocks, 'a record is missing')
            if f['prev'] is not None:
                try:
                    ctx.check(invert(ctx, w, payload, com, blocks) == f['prev'], "cannot be verified from the previous commit's data")
                except Missing:
                    ctx.fail('blocks to verify it are missing')
            return
        want = {k: v for k, v in f.items() if k != 'commit'}
        ctx.check(payload['did'] == did and payload['time'] == when, 'did and time')
        ctx.check(set(payload) == {'seq', 'did', 'time'} | set(want) | ({'blocks'} if kind == 'sync' else set()), 'fields')
        for k, v in want.items():
            ctx.check(payload[k] == v, k)
        if kind == 'sync':
            roots, blocks = w.read_car(payload['blocks'])
            ctx.check(len(roots) == 1 and roots[0] == f['commit'], 'root')
            ctx.check(len(blocks) == 1 and blocks[0][0] == f['commit'] and w.cid_of(w.decode(blocks[0][1])) == f['commit'], 'blocks')


@H(quick=[dict(ds=False, before=0, after=1), dict(ds=False, before=1, after=1), dict(ds=True, before=0, after=1), dict(ds=False, before=2, after=0, layers=2), dict(ds=True, before=1, after=0),
          dict(ds=True, before=0, after=1, first=1025)],
   thorough=[dict(ds=ds, before=b, after=a, first=f, windows=5, layers=2) for ds, b, a, f in
             ((False, 2, 1, 1), (True, 1, 1, 1), (True, 2, 0, 1025), (False, 1, 2, 1), (False, 3, 0, 33))])
def follow(ctx, ds, before, after, first=1, windows=3, layers=1):
    ctx.memo['min_byte0'] = (256, 64, 16)[layers]
    S = Sched(ctx, preemptions=0, idle_timeouts=2)
    w = World(ctx, sched=S)
    if ds:
        st, client = ds_storage(w)
        w.ndb.apply('AtpSequence', NSID, {'next': first, 'created': None, 'updated': None})
        w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj

        def run(fn):
            with client.context():
                return fn()
    else:
        st = mem(w)
        st.sequences.sequences[NSID] = first

        def run(fn):
            return fn()
    w.mods.server.storage = st
    F = w.mods.firehose
    window, F.PRELOAD_WINDOW = ((3, 12), (1, 1), (12, 1), (12, 12), (3, 1))[ctx.choose('window', windows)]
    F.ROLLBACK_WINDOW = window
    log = Log(ctx, w, st, first, run)
    log.create(DID, 1)
    for _ in range(before):
        log.step()
    total0 = len(log.log)
    last = first + total0 - 1

    cursor = None
    if ctx.flag('cursor?'):
        cursor = ctx.int('cursor', -2, last + 3)
    out = []

    def subscriber():
        for m in w.mods.xrpc_sync.subscribe_repos(cursor=cursor):
            out.append(m)
    # subscribe_repos reads the last sequence number: before or after the steps
    F.collector = col = F.Collector()
    col.start()
    done = [False]

    def writer():
        S.block(F.started.is_set)
        for _ in range(after):
            log.step()
            w.yp('step')
        done[0] = True

    def sub():
        run(subscriber) if ds else subscriber()
    t = S.spawn('sub', sub, daemon=True)
    if after:
        S.spawn('writer', writer)
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    ctx.check(col.task.exc is None and not col.task.done, 'collector died')
    if t.exc is not None:
        raise t.exc
    total = len(log.log)
    end = first + total - 1
    if cursor is not None and cursor > last:
        if cursor > end or t.done:
            # later than what had been emitted then
            ctx.check(t.done, 'cursor is in the future')
            ctx.check(len(out) == 1, 'cursor is in the future')
            ctx.check(out[0][0] == {'op': -1} and out[0][1]['error'] == 'FutureCursor' and set(out[0][1]) <= {'error', 'message'}, 'FutureCursor')
            ctx.reach('future')
            return
    ctx.check(not t.done, 'the subscription ended')
    start = None
    if cursor is not None:
        outdated = len(out) and out[0][0].get('t') == '#info'
        if outdated:
            ctx.check(out[0][0] == {'op': 1, 't': '#info'} and out[0][1].get('name') == 'OutdatedCursor' and set(out[0][1]) <= {'name', 'message'}, 'OutdatedCursor')
            del out[0]
            ctx.check(OR(cursor <= end - window, cursor < 0), 'the cursor was not outdated')
            got_first = out[0][1]['seq'] if out else end + 1
            ctx.check(got_first <= max(first, end - window + 1), 'starts after the rollback window')
            ctx.check(got_first > cursor, 'starts before the cursor')
            start = got_first - first
            ctx.check(len(out) == total - start, 'number of events')
        else:
            ctx.check(cursor >= last - window, 'the cursor was outdated')
            start = 0
            while start < total and first + start < cursor:
                start += 1
            ctx.check(len(out) == total - start, 'number of events')
    else:
        start = total - len(out)
        ctx.check(start >= total0, 'events from before')
    for i, (header, payload) in enumerate(out):
        log.check(header, payload, start + i)
    ctx.reach('outdated' if cursor is not None and outdated else 'cursor' if cursor is not None else 'live')
    ctx.reach()
