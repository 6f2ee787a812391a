"""C11: firehose subscribers get every event once, in order, whatever the interleaving."""
from repolib import *
from symx.harness import Registry
from symx.sched import Sched

H = Registry()
BOUNDS = ('1-5 earlier events of which the collector preloads 1-3, 1-2 new events from a writer thread, 1-2 subscriber threads with '
          'any cursor up to the last event before they connect (in some, up to the last one of all) or none; a rollback window with or without room for older events; all schedules of collector, writer '
          'and subscribers with at most 1 preemption (thorough: 2) at statement granularity plus all choices when a '
          'thread blocks.')
OUTSIDE = ('More preemptions. Subscribers that fall behind by more than the whole rollback window. Storage is a stub '
           'with the behavior that C09 and C22 establish.')
ASSUMPTIONS = ['threads are preempted at statements and before storing the result of a call']
YIELDS = {'firehose': ('subscribe', '_collect', 'run', 'send_events', 'start')}


class Events:
    """Storage with events 1..n; reads see what is visible when they start or (lazy) as they go."""
    def __init__(self, w, base=0, lazy=False):
        self.w, self.base, self.lazy = w, base, lazy
        self.events = []     # in order
        self.last_ = base
        self.sequences = self

    def last(self, nsid):
        self.w.yp('last')
        return self.last_

    def add(self, i):
        """Adds event base + i."""
        self.events.append({'$type': f'{NSID}#identity', 'seq': self.base + i, 'did': f'{DID}{i}',
                            'time': '2023-11-14T22:13:20+00:00'})
        self.last_ = self.base + i

    def read_events_by_seq(self, start=0, repo=None):
        assert start >= 0
        self.w.yp('query')
        visible = self.events if self.lazy else list(self.events)
        for e in visible:    # iterates over later ones too if lazy
            if e['seq'] >= start:
                yield e
                self.w.yp('next')

    def read_many(self, cids):
        return {c: None for c in cids}

    def read(self, cid):
        return None


def check_msgs(ctx, got, base, want, what):
    """got are the messages of exactly the events base + i for i in want."""
    ctx.check(len(got) == len(want), f'{what}: got {len(got)} events, expected {len(want)}')
    for (header, payload), i in zip(got, want):
        ctx.check(header == {'op': 1, 't': '#identity'}, f'{what}: header')
        ctx.check(sorted(payload) == ['did', 'seq', 'time'] and payload['did'] == f'{DID}{i}',
                  f'{what}: out of order, repeated or missing')
        ctx.check(payload['seq'] == base + i, f'{what}: seq')


def tail(n, total):
    return list(range(total - n + 1, total + 1))


def setup(ctx, pre, preload, window, preemptions, lazy=False, timeouts=0, idle=2, limit=None, base=0,
          yields=YIELDS):
    S = Sched(ctx, preemptions=preemptions, timeouts=timeouts, idle_timeouts=idle)
    w = World(ctx, sched=S, yields=yields)
    st = Events(w, base, lazy)
    F = w.mods.firehose
    w.mods.server.storage = st
    F.PRELOAD_WINDOW, F.ROLLBACK_WINDOW = preload, window
    for i in range(1, pre + 1):
        st.add(i)
    col = F.Collector(limit=limit)
    F.collector = col
    return S, w, st, F, col


WINDOWS = ((3, 2, 10), (3, 1, 2), (4, 2, 4), (1, 1, 10))    # earlier events, preloaded, rollback window


def scenarios(tier):
    out = []
    for i, (pre, preload, window) in enumerate(WINDOWS):
        d = dict(pre=pre, preload=preload, window=window)
        if tier == 'quick':
            out.append(d | dict(new=1, subs=1, preemptions=1, late=i == 3))
            if i in (1, 2):
                out.append(d | dict(new=2, subs=1, preemptions=1))
        else:
            out.append(d | dict(new=1, subs=1, preemptions=2))
            out.append(d | dict(new=1, subs=1, preemptions=1, late=True))
            out.append(d | dict(new=2, subs=1, preemptions=1))
    out.append(dict(pre=2, preload=1, window=2, new=0, subs=2, preemptions=1))
    if tier != 'quick':
        out.append(dict(pre=3, preload=1, window=3, new=0, subs=2, preemptions=1))
        out.append(dict(pre=4, preload=1, window=10, new=0, subs=2, preemptions=1))
        out.append(dict(pre=3, preload=1, window=3, new=1, subs=2, preemptions=1))
        out.append(dict(pre=5, preload=2, window=4, new=3, subs=1, preemptions=1))
    return out


@H(quick=scenarios('quick'), thorough=scenarios('thorough'))
def deliver(ctx, pre, preload, window, new, subs, preemptions, late=False):
    """Sequence numbers are base+1.. for any base; each subscriber's cursor is any number or none."""
    lazy = subs == 1 and ctx.flag('lazy')
    base = ctx.int('base', 0)
    S, w, st, F, col = setup(ctx, pre, preload, window, preemptions, lazy, base=base,
                           yields=YIELDS if subs == 1 else {'firehose': ('subscribe',)})
    got, tasks, cursors = [], [], []
    total = pre + new

    def subscriber(cursor, out):
        for m in F.subscribe(cursor):
            out.append(m)

    col.start()
    for i in range(subs):
        c = None
        if subs > 1 or not ctx.flag(f'live{i}'):
            c = ctx.int(f'cursor{i}', 0)
            # with two, both start before what the collector preloads
            ctx.assume(c <= base + (total if late else pre if subs == 1 else pre - preload))
            if cursors:    # subscribers are interchangeable
                ctx.assume(cursors[-1] <= c)
        cursors.append(c)
        got.append([])
        tasks.append(S.spawn(f'sub{i}', lambda c=c, o=got[i]: subscriber(c, o), daemon=True))

    def writer():
        for i in range(pre + 1, total + 1):
            w.yp('write')
            st.add(i)
            F.send_events()

    if new:
        S.spawn('writer', writer)
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    ctx.check(col.task.exc is None and not col.task.done, 'collector died')
    rb = list(F.rollback)
    ctx.check(len(rb) <= window, 'rollback window')
    check_msgs(ctx, rb, base, tail(len(rb), total), 'rollback window')
    for c, out, t in zip(cursors, got, tasks):
        n = len(out)
        if c is None:
            check_msgs(ctx, out, base, tail(n, total), 'no cursor')
            continue
        if t.exc is not None and window <= new + 1:
            # fell out of the rollback window: the connection is dropped, nothing wrong is sent
            total_ = None
        else:
            ctx.check(t.exc is None, f'subscriber raised {type(t.exc).__name__ if t.exc else ""}')
            total_ = total
        first = 1
        while first <= total and base + first < c:
            first += 1
        want = list(range(first, total + 1))
        check_msgs(ctx, out, base, want if total_ else want[:n], 'cursor')
    ctx.reach()


@H(quick=[dict(preemptions=1)], thorough=[dict(preemptions=2)])
def empty(ctx, preemptions):
    """No events yet."""
    S, w, st, F, col = setup(ctx, 0, 2, 10, preemptions)
    out = []
    cursor = (None, 0)[ctx.choose('cursor', 2)]
    col.start()

    def sub():
        for m in F.subscribe(cursor):
            out.append(m)
    t = S.spawn('sub', sub, daemon=True)

    def writer():
        for i in (1, 2):
            w.yp('write')
            st.add(i)
            F.send_events()
    S.spawn('writer', writer)
    S.run()
    ctx.check(col.task.exc is None and not col.task.done, 'collector died')
    ctx.check(t.exc is None, 'subscriber raised')
    n = len(out)
    ctx.check(cursor is None or n == 2, 'missed an event')
    check_msgs(ctx, out, 0, tail(n, 2), 'empty')
    ctx.reach()


@H(quick=[dict(preemptions=1)], thorough=[dict(preemptions=2)])
def starts(ctx, preemptions):
    """start() is called by two threads, eg of a web server, one of which then serves a subscriber."""
    S, w, st, F, _ = setup(ctx, 1, 1, 10, preemptions, yields={'firehose': ('start',)})
    F.collector = None
    outs, tasks = [], []

    def sub(out):
        F.start()
        for m in F.subscribe(1):
            out.append(m)

    outs.append([])
    tasks.append(S.spawn('sub', lambda: sub(outs[0]), daemon=True))
    other = S.spawn('start', F.start)

    def writer():
        w.yp('write')
        st.add(2)
        F.send_events()
    S.spawn('writer', writer)
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    ctx.check(other.exc is None, 'start raised')
    for t, out in zip(tasks, outs):
        ctx.check(t.exc is None, 'subscriber raised')
        check_msgs(ctx, out, 0, [1, 2], 'started twice')
    check_msgs(ctx, list(F.rollback), 0, [1, 2], 'rollback window')
    ctx.check(F.collector.is_alive(), 'collector died')
    ctx.reach()
