"""C13: sequence numbers are unique and increase."""
from repolib import *
from symx.harness import Registry
from symx.sched import Sched
from symx.values import ITE

H = Registry()
BOUNDS = ('In-memory, Datastore and memcache sequences: 2 threads (for memcache: in one process or two) allocating 1-2 numbers each, '
          '(or, with memcache in batches of 3-4 in two processes, one 1 and the other 3, thorough 4), in all interleavings with at most 2 preemptions (thorough: 3) at statements and at Datastore and memcache operations; '
          'any stored state, batch size and buffer, also behind that of memcache; memcache empty at first or with any value, and losing its data at any one point.')
OUTSIDE = 'Crashes of memcache more than once while an allocation is in progress. Process death inside the database.'
ASSUMPTIONS = ['Datastore transactions are serializable; memcache operations are atomic']
NS = 'com.atproto.sync.subscribeRepos'
YIELDS = {'storage': ('allocate',), 'datastore_storage': ('allocate', 'alloc_batch')}


class Memcache:
    def __init__(self, w):
        self.w, self.data = w, {}
        self.lost = 0

    def incr(self, key, n, noreply=False):
        self.w.yp('incr')
        if key not in self.data:
            return None
        self.data[key] = self.data[key] + n
        return self.data[key]

    def add(self, key, val, expire=0, noreply=None):
        self.w.yp('add')
        if key in self.data:
            return False
        self.data[key] = val
        return True

    def set(self, key, val, expire=0, noreply=None):
        self.w.yp('set')
        self.data[key] = val
        return True

    def get(self, key, default=None):
        self.w.yp('get')
        if key not in self.data:
            return default
        return self.data[key]       # int() of it works like that of the real bytes

    def lose(self):
        self.data.clear()
        self.lost += 1


def run_threads(ctx, S, w, allocs, counts, evict=None):
    """-> [(seq, start step, end step)] per thread"""
    clock = [0]
    out = []

    def body(alloc, n, res):
        for _ in range(n):
            clock[0] += 1
            t0 = clock[0]
            seq = alloc()
            clock[0] += 1
            res.append((seq, t0, clock[0]))

    tasks = []
    for i, (a, n) in enumerate(zip(allocs, counts)):
        res = []
        out.append(res)
        tasks.append(S.spawn(f't{i}', lambda a=a, n=n, r=res: body(a, n, r)))
    if evict:
        S.spawn('evict', evict)
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    return out, tasks


def check_allocs(ctx, out, tasks, floor, finding=None, when=True):
    for t in tasks:
        ctx.check(t.exc is None, f'allocate raised {type(t.exc).__name__ if t.exc else ""}', finding=finding, when=when)
    every = [x for res in out for x in res]
    for s, _, _ in every:
        ctx.check(s > floor, 'a number that was already allocated, or zero')
    for i, (s, a, b) in enumerate(every):
        for s2, a2, b2 in every[i + 1:]:
            ctx.check(s != s2, 'the same number twice', finding=finding, when=when)
            if b < a2:
                ctx.check(s < s2, 'numbers go down', finding=finding, when=when)
            if b2 < a:
                ctx.check(s2 < s, 'numbers go down', finding=finding, when=when)
    return every


@H(quick=[dict(preemptions=2, counts=(1, 1)), dict(preemptions=2, counts=(2, 1))],
   thorough=[dict(preemptions=4, counts=(2, 2))])
def memory(ctx, preemptions, counts):
    S = Sched(ctx, preemptions=preemptions)
    w = World(ctx, sched=S, yields=YIELDS)
    seqs = w.mods.storage.MemorySequences()
    floor = 0
    ctx.check(seqs.last(NS) is None, 'last before any')
    if ctx.flag('some'):
        n = ctx.int('next', 1)
        seqs.sequences[NS] = n
        floor = n - 1
    other = seqs.allocate('other.nsid')
    ctx.check(other == 1, 'first number')
    out, tasks = run_threads(ctx, S, w, [lambda: seqs.allocate(NS)] * len(counts), counts)
    every = check_allocs(ctx, out, tasks, floor)
    for s, _, _ in every:
        ctx.check(s <= floor + len(every), 'gap')
    ctx.check(seqs.last(NS) == floor + len(every), 'last')
    ctx.check(seqs.last('other.nsid') == 1 and seqs.allocate('other.nsid') == 2, 'other stream')
    ctx.reach()


def store_next(w, n):
    D = w.mods.datastore_storage
    w.ndb.apply('AtpSequence', NS, {'next': n, 'created': None, 'updated': None})


@H(quick=[dict(preemptions=2, counts=(1, 1)), dict(preemptions=1, counts=(2, 1))],
   thorough=[dict(preemptions=3, counts=(2, 2)), dict(preemptions=2, counts=(1, 1, 1))])
def datastore(ctx, preemptions, counts):
    S = Sched(ctx, preemptions=preemptions)
    w = World(ctx, sched=S, yields=YIELDS)
    D = w.mods.datastore_storage
    client = w.ndb.Client()
    seqs = D.DatastoreSequences(ndb_client=client)
    floor = 0
    if ctx.flag('some'):
        n = ctx.int('next', 1)
        store_next(w, n)
        floor = n - 1
        ctx.check(seqs.last(NS) == floor, 'last')
    else:
        ctx.check(seqs.last(NS) is None, 'last before any')
    intx = ctx.flag('in a transaction')

    def alloc():
        if not intx:
            return seqs.allocate(NS)
        # the surrounding transaction doesn't matter, even if it fails
        with client.context():
            got = []

            def tx():
                got.append(seqs.allocate(NS))
                raise KeyError()
            try:
                w.ndb.ndb.transaction(tx)
            except KeyError:
                pass
            return got[0]

    out, tasks = run_threads(ctx, S, w, [alloc] * len(counts), counts)
    every = check_allocs(ctx, out, tasks, floor)
    for s, _, _ in every:
        ctx.check(s <= floor + len(every), 'gap')
    ctx.check(seqs.last(NS) == floor + len(every), 'last')
    ctx.reach()


@H(quick=[dict(preemptions=1, counts=(1, 1), warm=False), dict(preemptions=1, counts=(1, 1), warm=True),
          dict(preemptions=0, counts=(2, 2), warm=True), dict(preemptions=0, counts=(2, 1), warm=True, ahead=True), dict(preemptions=1, counts=(1, 3), warm=True, batches=True)],
   thorough=[dict(preemptions=2, counts=(1, 1), warm=False), dict(preemptions=2, counts=(1, 1), warm=True),
             dict(preemptions=1, counts=(2, 1), warm=False), dict(preemptions=1, counts=(2, 1), warm=True),
             dict(preemptions=1, counts=(2, 1), warm=True, ahead=True), dict(preemptions=1, counts=(1, 4), warm=True, batches=True),
             dict(preemptions=2, counts=(1, 3), warm=True, batches=True)])
def memcached(ctx, preemptions, counts, warm, ahead=False, batches=False):
    """Two threads of one process or of two. batches: two, and small batches."""
    S = Sched(ctx, preemptions=preemptions)
    w = World(ctx, sched=S, yields=YIELDS)
    D = w.mods.datastore_storage
    mc = Memcache(w)
    client = w.ndb.Client()
    one = not batches and ctx.flag('one process')
    insts = []
    for i in range(1 if one else 2):
        s = D.MemcacheSequences(memcache=mc, ndb_client=client)
        s.max_seqs = {}
        s.max_seqs_lock = w.mods.datastore_storage.threading.Lock()
        insts.append(s)
    buffer = ctx.int('buffer', max(2, len(counts)), 1000)    # at least as many as allocate at once
    batch = ctx.int('batch', 1, 10000)
    ctx.assume(buffer < batch)
    if batches:
        ctx.assume(batch <= 4)
    D.MEMCACHE_SEQUENCE_BATCH, D.MEMCACHE_SEQUENCE_BUFFER = batch, buffer
    key = insts[0]._memcache_key(NS)
    floor = 0
    if warm:
        # last allocated number, a bound that was stored before it was used
        last = ctx.int('last', 0)
        nxt = ctx.int('next', 1)
        # (with ahead, eg the Datastore was restored from a backup)
        ctx.assume(nxt <= last if ahead else nxt - last >= buffer)
        store_next(w, nxt)
        floor = last
        mc.data[key] = last
        for i, s in enumerate(insts):
            if not batches and ctx.flag(f'known{i}'):
                m = ctx.int(f'max{i}', 0)
                ctx.assume(m <= nxt)
                s.max_seqs[NS] = m
        ctx.check(insts[0].last(NS) == last if last > 0 else True, 'last')
    else:
        # nothing in memcache
        if ctx.flag('some'):
            nxt = ctx.int('next', 1)
            store_next(w, nxt)
            floor = nxt - 1
        ctx.check(insts[0].last(NS) is None, 'last when unknown')
        mc.lost = 1
    evict = mc.lose if not ahead and not batches and ctx.flag('evict') else None
    allocs = [lambda s=insts[i % len(insts)]: s.allocate(NS) for i in range(len(counts))]
    out, tasks = run_threads(ctx, S, w, allocs, counts, evict)
    ctx.note_evict = evict
    every = check_allocs(ctx, out, tasks, floor, finding='memcache-lost-twice', when=mc.lost > 1)
    if every and not (evict and key not in mc.data):
        top = every[0][0]
        for s, _, _ in every:
            top = ITE(s > top, s, top)
        if not evict:
            ctx.check(insts[0].last(NS) == top, 'last')
    stored = w.ndb.tables['AtpSequence'][NS].values['next']
    for s, _, _ in every:
        ctx.check(s < stored, 'a number that the Datastore has not reserved', finding='memcache-lost-twice', when=mc.lost > 1)
    ctx.reach()
