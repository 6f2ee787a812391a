"""C21: memcache leases exclude each other, expire, and are released."""
import datetime as _dt
import itertools
from symx.values import SymTimedelta, is_sym
from symx.world import NOW_US
from repolib import *
from symx.harness import Registry

H = Registry()
SEC = 1_000_000
BOUNDS = ('2 and 3 leases with the same or different keys, any expirations of 1 microsecond to 1 hour and 0-1 (thorough 2) retries with delays of up to 100 seconds, acquired and released by '
          'different processes, the second one in full between any two operations of the first (on the clock and memcache), and with any delays before and after each memcache operation and while the lease is held.')
OUTSIDE = 'Clocks that run at different speeds, expirations over 30 days, memcache losing a key, and its expiring keys up to a second early.'
ASSUMPTIONS = ['memcache operations are atomic, and keys expire after exactly their expiration']


class Memcache:
    """A memcached that expires its keys, and clients that can be slow."""
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.entries = {}       # key: (owner, expires)
        self.owner = None
        self.n = 0
        self.slow = False
        self.yp = lambda: None
        self.order = itertools.count()

    def delay(self, what):
        if self.slow:
            self.n += 1
            self.w.now = self.w.now + self.ctx.int(f'{what}{self.n}', 0, 7200 * SEC)
        self.yp()

    def live(self, key):
        e = self.entries.get(key)
        if e is None or (e[1] is not None and self.w.now > e[1]):
            return None
        return e

    def add(self, key, value, expire=0, noreply=None, flags=None):
        owner = self.owner
        self.ctx.check(not noreply and noreply is not None, 'without a reply')
        self.ctx.check(isinstance(expire, int), 'expire must be an int')
        owner.began = self.w.now
        self.delay('before')
        got = self.live(key) is None
        if got:
            self.ctx.check(expire > 0, 'a lease that never expires')
            owner.added = self.w.now
            owner.until = self.w.now + expire * SEC
            self.ctx.check(owner.until >= owner.added + owner.exp, 'expires too early')
            self.ctx.check(owner.until < owner.added + owner.exp + SEC, 'expires too late')
            self.entries[key] = (owner, owner.until)
            owner.got.append((next(self.order), self.w.now))
        owner.tries.append((self.w.now, got))
        self.delay('after')
        return got

    def delete(self, key, noreply=None):
        owner = self.owner
        began = self.w.now
        self.delay('before')
        e = self.live(key)
        if e is not None:
            # finding: a delete that's slow
            self.ctx.check(e[0] is owner, "deletes someone else's lease", finding='lease-slow-delete',
                           when=AND(began <= owner.lease_until, self.w.now > owner.lease_until) if owner.lease_until is not None else False)
            del self.entries[key]
        owner.deleted = next(self.order)
        self.delay('after')
        return e is not None

    def get(self, key, default=None):
        self.delay('before')
        e = self.live(key)
        self.delay('after')
        return b'locked' if e else default


class Process:
    def __init__(self, ctx, w, mc, i, key, retries, use):
        self.ctx, self.w, self.mc, self.i = ctx, w, mc, i
        self.exp = ctx.int(f'exp{i}', 1, 3600 * SEC)
        self.retries, self.use = retries, use
        self.delay_us = ctx.int(f'retry{i}', 0, 100 * SEC) if retries else 5 * SEC
        self.added = self.until = self.deleted = self.lease_until = None
        self.got, self.tries, self.sleeps = [], [], []
        self.held = None        # acquire() has returned
        self.released = None    # release() was called
        self.key = key
        td = lambda us: SymTimedelta.make(us) if is_sym(us) else _dt.timedelta(microseconds=us)
        self.lease = w.mods.memcache.Lease(mc, key, expiration=td(self.exp), retries=retries, initial_retry_delay=td(self.delay_us))

    def run(self):
        ctx, w, mc = self.ctx, self.w, self.mc
        before, mc.owner = mc.owner, self
        body = None
        try:
            if self.use == 'with':
                try:
                    with self.lease:
                        self.hold()
                        raise Body()
                except Body as e:
                    body = e
                ctx.check(body is not None, 'the exception is lost')
            else:
                self.lease.acquire()
                self.hold()
                self.released_at()
                self.lease.release()
            ctx.reach('released')
        except RuntimeError:
            ctx.check(self.held is None, 'fails although it is acquired')
            ctx.check(len(self.tries) == self.retries + 1, 'number of tries')
            ctx.check(not any(t[1] for t in self.tries), 'fails although it is acquired')
            ctx.check(self.lease.expires_at is None, 'expires_at')
            ctx.reach('failed')
        else:
            ctx.check(self.held is not None, 'not acquired')
            ctx.check(len(self.got) == 1 and self.tries[-1][1], 'acquired')
            if not (self.released > self.lease_until):
                # still held, so it must be free now
                ctx.check(self.deleted is not None, 'not released')
        finally:
            mc.owner = before
        ctx.check(len(self.sleeps) == len(self.tries) - 1, 'sleeps')
        for s in self.sleeps:
            ctx.check(s >= self.delay_us, 'delay')

    def hold(self):
        us = self.lease.expires_at
        self.ctx.check(us is not None, 'expires_at')
        self.held = self.w.now
        self.lease_until = self.w.us_of(us)
        self.ctx.check(self.lease_until <= self.until, 'holds the lease for longer than memcache does')
        self.ctx.check(self.lease_until >= self.began + self.exp, 'holds the lease for too short')
        if self.ctx.flag(f'hold{self.i}'):
            self.w.now = self.w.now + self.ctx.int(f'held{self.i}', 0, 7200 * SEC)
        self.mc.yp()
        self.released = self.w.now

    def released_at(self):
        self.released = self.w.now


class Body(Exception):
    pass


@H(quick=[dict(slow=True), dict(slow=True, retries=1), dict(slow=False, keys=2), dict(slow=False, n=3, use=1)],
   thorough=[dict(slow=True, retries=2), dict(slow=False, keys=2, retries=1), dict(slow=False, n=3), dict(slow=True, use=1, n=3), dict(slow=False, n=3, retries=1)])
def leases(ctx, slow, n=2, keys=1, retries=0, use=2):
    w = World(ctx)
    w.now = NOW_US
    w.clock_hook = lambda: w.now
    mc = Memcache(ctx, w)
    mc.slow = slow
    uses = ('with', 'methods')
    procs = [Process(ctx, w, mc, i, f'k{i % keys}', retries, uses[ctx.choose(f'use{i}', use)]) for i in range(n)]
    started = [False] * n

    def yp():
        # another process runs here, in full
        for i, p in enumerate(procs):
            if not started[i]:
                if ctx.flag(f'start{i}@{mc.n}.{len(procs[0].tries)}.{w.ticks}'):
                    started[i] = True
                    p.run()
                return
    w.ticks = 0

    def tick():
        w.ticks += 1
        yp()
    mc.yp = tick

    def on_sleep(s):
        mc.owner.sleeps.append(us(s))
        w.now = w.now + us(s)
        tick()

    def us(s):
        r = s * 1_000_000
        if is_sym(r):
            return mk(r)
        return round(r)

    def mk(r):
        return r.floor() if hasattr(r, 'floor') else r
    w.on_sleep = on_sleep
    started[0] = True
    procs[0].run()
    for i, p in enumerate(procs):
        if not started[i]:
            started[i] = True
            p.run()
    # nobody gets a lease that someone else holds
    for a in procs:
        if a.held is None:
            continue
        for b in procs:
            if b is a or a.key != b.key:
                continue
            for o, t in b.got:
                # while a thinks it has it
                if a.got[0][0] < o and (a.deleted is None or o < a.deleted):
                    inside = t <= a.lease_until if a.deleted is not None else AND(t <= a.lease_until, t < a.released)
                    ctx.check(NOT(inside), 'two have the lease at the same time')
    ctx.reach()
