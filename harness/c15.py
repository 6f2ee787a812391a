"""C15: next_tid is strictly increasing whatever the clock does."""
from repolib import *
from symx.harness import Registry
from symx.sched import Sched
from symx.values import AND, ITE, OR

H = Registry()
BOUNDS = ('1-4 (thorough: 6) calls in a row, and 2 threads (thorough: also 3) with 1-2 calls each in all interleavings with at most 2 preemptions '
          '(thorough: 3) at statements and at reading the clock; any clock readings from 2005-09 to 2255 in nanoseconds, in any order, and any earlier TID in that time.')
OUTSIDE = 'Several processes. Process restarts while the clock is set back.'
ASSUMPTIONS = []
BOTTOM, TOP = 2 ** 50, 2 ** 53 - 64     # in microseconds: 11 digits


def setup(ctx, sched=None):
    w = World(ctx, sched=sched, yields={'util': ('next_tid',)} if sched else None)
    U = w.mods.util
    last = ctx.int('last', BOTTOM, TOP)
    U._tid_ts_last = last
    U._clockid = ctx.int('clock id', 0, 31)
    reads = []

    def clock():
        n = ctx.int('clock', BOTTOM, TOP) * 1000 + ctx.int('ns', 0, 999)
        reads.append(n)
        if sched:
            w.yp('clock')
        return n
    U.time_ns = clock
    return w, U, last, reads


def us(n):
    return n // 1000


@H(quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in range(1, 7)])
def calls(ctx, n):
    w, U, last, reads = setup(ctx)
    prev, prev_tid = last, U.int_to_tid(last)
    for i in range(n):
        tid = U.next_tid()
        ctx.check(len(reads) == i + 1, 'clock readings')
        ctx.check(len(tid) == 13, 'length')
        v = U.tid_to_int(tid)
        ctx.check(v > prev, 'not after the last TID')
        ctx.check(tid > prev_tid, 'sorts before the last TID')
        t = us(reads[i])
        ctx.check(v == ITE(t > prev, t, prev + 1), "not the current time, nor right after the last TID")
        prev, prev_tid = v, tid
    ctx.reach()


@H(quick=[dict(counts=(1, 1), preemptions=2), dict(counts=(2, 1), preemptions=2), dict(counts=(2, 2), preemptions=1)],
   thorough=[dict(counts=(2, 2), preemptions=3), dict(counts=(1, 1, 1), preemptions=3)])
def threads(ctx, counts, preemptions):
    S = Sched(ctx, preemptions=preemptions)
    w, U, last, reads = setup(ctx, S)
    clock = [0]
    every = []

    def body(n):
        for _ in range(n):
            clock[0] += 1
            t0 = clock[0]
            tid = U.next_tid()
            clock[0] += 1
            every.append((tid, U.tid_to_int(tid), t0, clock[0]))
    tasks = [S.spawn(f't{i}', lambda n=n: body(n)) for i, n in enumerate(counts)]
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    for t in tasks:
        ctx.check(t.exc is None, f'raised {t.exc!r}' if t.exc else '')
    ctx.check(len(every) == sum(counts), 'calls')
    for i, (tid, v, a, b) in enumerate(every):
        ctx.check(v > last, 'not after the earlier TID')
        for tid2, v2, a2, b2 in every[i + 1:]:
            ctx.check(v != v2, 'the same TID twice')
            if b < a2:
                ctx.check(v < v2, 'TIDs go back')
            if b2 < a:
                ctx.check(v2 < v, 'TIDs go back')
    ctx.reach()
