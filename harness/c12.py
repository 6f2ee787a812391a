"""C12: how the collector handles missing sequence numbers."""
from datetime import timedelta

from repolib import *
from symx.harness import Registry
from symx.sched import Sched
from c11 import Events

H = Registry()
BOUNDS = ('Up to 2 (3 of them with at most one lost, thorough: any 3 and 4 of them with at most one lost, these without the window) consecutive sequence numbers after the last emitted one, each used by an event, lost, or '
          'neither; all orders in which they appear, any time (whole microseconds, 0-10 min) between them and before the '
          'first, all allocated after the collector starts (or up to 2 before), any distance to the last allocated sequence number, any window, sequences.last() failing once; a storage '
          'read failing once at any point.')
OUTSIDE = 'Longer gaps, preemption inside the collector loop (C11 covers that).'
ASSUMPTIONS = ['the delay is the default 120 s']
DELAY = 120 * 1_000_000


class Gappy(Events):
    def __init__(self, w, base):
        super().__init__(w, base, True)
        self.fail_last = self.fail_at = None
        self.reads = 0

    def last(self, nsid):
        if self.fail_last is not None and self.started:
            self.fail_last -= 1
            if self.fail_last < 0:
                self.fail_last = None
                return None
        return self.last_
    started = False

    def show(self, i):
        self.events.append({'$type': f'{NSID}#identity', 'seq': self.base + i, 'did': f'{DID}{i}', 'i': i,
                            'time': '2023-11-14T22:13:20+00:00'})

    def read_events_by_seq(self, start=0, repo=None):
        for e in sorted(self.events, key=lambda e: e['i']):
            if e['seq'] >= start:
                self.reads += 1
                if self.reads == self.fail_at:
                    raise RuntimeError('read failed')
                yield {k: v for k, v in e.items() if k != 'i'}


class Log:
    """A subscriber's queue that notes when it got what."""
    def __init__(self, w):
        self.w, self.got = w, []

    def put_nowait(self, m):
        self.got.append((m, self.w.now_us))
    put = put_nowait


def make(ctx, n, pre=1, idle=None):
    S = Sched(ctx, preemptions=0, idle_timeouts=2 * n + 3 if idle is None else idle)
    w = World(ctx, sched=S)
    base = ctx.int('base', 0)
    st = Gappy(w, base)
    F = w.mods.firehose
    w.mods.server.storage = st
    for i in range(1, pre + 1):
        st.show(i)
    st.last_ = base + pre
    col = F.Collector()
    F.collector = col
    log = Log(w)
    F.subscribers.append(log)
    return S, w, st, F, col, log, base


PERMS = {}


@H(quick=[dict(n=1), dict(n=2), dict(n=3, far=False, kinds='eee'),
          dict(n=3, far=False, longest=20_000_000), dict(n=1, flight=True), dict(n=2, far=False, flight=True)],
   thorough=[dict(n=1), dict(n=2), dict(n=1, flight=True), dict(n=2, flight=True), dict(n=4, far=False, longest=20_000_000), dict(n=3, far=False)])
def gaps(ctx, n, far=True, kinds=None, longest=600_000_000, flight=False):
    kinds = [('event', 'lost', 'unused')['elu'.index(kinds[i]) if kinds else ctx.choose(f'kind{i}', 3)] for i in range(n)]
    acts = [i for i in range(n) if kinds[i] != 'unused']
    order = []
    while acts:
        order.append(acts.pop(ctx.choose('order', len(acts))))
    S, w, st, F, col, log, base = make(ctx, n)
    window = ctx.int('window', 0, 1000) if far else 1000
    F.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW = window
    ahead = ctx.int('ahead', 0, 2000) if far else 0     # other allocated sequence numbers after these
    last = base + 1 + n + ahead
    if far and ctx.flag('nolast'):
        st.fail_last = ctx.choose('nolast_at', 2)
    if flight:
        st.last_ = base + 1 + n     # allocated before the collector starts
    shown, lost = {}, {}       # index -> time
    times = [ctx.int(f'sleep{k}', 0, longest) for k in range(len(order))]
    col.start()

    def writer():
        S.block(F.started.is_set)
        st.started = True
        st.last_ = last
        for k, i in enumerate(order):
            if times[k] > 0:
                S.sleep_us(times[k])
            if kinds[i] == 'lost':
                F.mark_seq_lost(base + 2 + i)
                lost[i] = w.now_us
            else:
                st.show(2 + i)
                shown[i] = w.now_us
                F.send_events()

    S.spawn('writer', writer)
    S.run()
    ctx.check(not S.deadlock and col.task.exc is None and not col.task.done, 'collector died')
    got = []
    for (header, payload), t in log.got:
        i = int(payload['did'][len(DID):]) - 2
        ctx.check(payload['seq'] == base + 2 + i, 'seq')
        ctx.check(i in shown and (not got or i > got[-1][0]), 'order')
        ctx.check(t >= shown[i], 'time')
        got.append((i, t))
    # an event can only be missing if a later one was emitted
    emitted = dict(got)
    top = got[-1][0] if got else -1
    for i in shown:
        ctx.check(i in emitted or i < top, 'event never emitted')
    prev = -1
    for i, t in got:
        behind = last - (base + 2 + i) > window
        gap = [m for m in range(prev + 1, i)]
        if all(m in lost for m in gap) and all(lost[m] <= shown[i] for m in gap):
            # nothing to wait for once the events before this are out
            ready = [shown[i]] + [emitted[m] for m in emitted if m < i]
            ctx.check(OR(*[t == r for r in ready]), 'waited without a reason')
        elif not behind:
            for m in gap:
                if m in lost and lost[m] <= t:
                    continue
                # some later event was there for the whole delay
                ctx.check(OR(*[t - shown[j] >= DELAY for j in shown if j > m]), 'gave up too early')
        prev = i
    ctx.reach()


@H(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)])
def errors(ctx, n):
    """A failing read doesn't lose, repeat or reorder anything."""
    S, w, st, F, col, log, base = make(ctx, n, idle=3 * n + 6)
    col.start()
    delay = ctx.choose('batch_delay', 2)
    F.SUBSCRIBE_REPOS_BATCH_DELAY = timedelta(seconds=delay)

    def writer():
        S.block(F.started.is_set)
        st.reads = 0
        st.fail_at = 1 + ctx.choose('fail', n + 1)
        for i in range(n):
            if ctx.flag('later'):
                S.sleep_us(1_000_000)
            st.last_ = base + 2 + i
            st.show(2 + i)
            if ctx.flag('notify'):
                F.send_events()

    S.spawn('writer', writer)
    S.run()
    ctx.check(not S.deadlock and col.task.exc is None and not col.task.done, 'collector died')
    ctx.check([p['did'] for (_, p), _ in log.got] == [f'{DID}{2 + i}' for i in range(n)], 'events')
    ctx.reach()
