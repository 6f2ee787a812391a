"""Cooperative threads whose every scheduling decision is a symbolic choice.

Threads are real OS threads, but exactly one runs at a time. A thread may be preempted at
yield points: statements of the code under test (inserted into its AST), library stubs, and
synchronization operations. Which thread runs next is ctx.choose(), so all schedules with at most
`preemptions` preemptions are explored; switches when a thread blocks or ends are free. A timed wait
can time out when nothing else can run, or (timeouts=n) n times at any point while other threads are slow.
"""
import os
import threading as _t
import traceback
import types

from .engine import Abort
from .loader import ModProxy


class Kill(BaseException):
    pass


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, name, fn, daemon):
        self.name, self.fn, self.daemon = name, fn, daemon
        self.sem = _t.Semaphore(0)
        self.done = False
        self.waiting = None     # predicate
        self.deadline = None    # microseconds
        self.timed_out = False
        self.exc = None
        self.os = None


class Sched:
    def __init__(self, ctx, preemptions=1, timeouts=0, idle_timeouts=0, max_steps=20000):
        self.ctx = ctx
        self.world = None
        self.left = preemptions
        self.timeouts = timeouts
        self.idle_timeouts = idle_timeouts
        self.tasks = []
        self.cur = None
        self.main = _t.Semaphore(0)
        self.killed = False
        self.steps = 0
        self.max_steps = max_steps
        self.fatal = None
        self.deadlock = False
        self.trace = []

    # ---- for the harness
    def bind(self, world):
        self.world = world
        world.yp = self.yp
        world.on_sleep = self.sleep
        world.mods.builtins['__yp__'] = self.yp

    def spawn(self, name, fn, daemon=False):
        t = Task(name, fn, daemon)
        self.tasks.append(t)
        t.os = _t.Thread(target=self._body, args=(t,), daemon=True)
        t.os.start()
        return t

    def run(self):
        """Runs until every non-daemon task is done and every daemon is idle forever."""
        try:
            nxt = self._pick(None)
            if nxt is not None:
                self.cur = nxt
                nxt.sem.release()
                self.main.acquire()
        finally:
            self.killed = True
            self.cur = None
            for t in self.tasks:
                if not t.done:
                    t.sem.release()
            for t in self.tasks:
                t.os.join(5)
        if self.ctx is not None and getattr(self.ctx, 'dead', None) is not None:
            raise self.ctx.dead
        if self.fatal is not None:
            raise self.fatal

    # ---- tasks
    def _body(self, t):
        t.sem.acquire()
        try:
            if not self.killed:
                t.fn()
        except Kill:
            pass
        except Abort as e:
            self.fatal = self.fatal or e
        except BaseException as e:
            if not self.killed:
                t.exc = e
                if os.environ.get('SYMX_DEBUG') and os.environ.get('SYMX_TB'):
                    traceback.print_exc()
        if self.killed:
            return
        t.done = True
        if self.fatal is not None or getattr(self.ctx, 'dead', None) is not None:
            self.main.release()
            return
        try:
            nxt = self._pick(t)
        except BaseException as e:
            self.fatal = e
            nxt = None
        if nxt is None:
            self.main.release()
        else:
            self.cur = nxt
            nxt.sem.release()

    def _ready(self, t):
        if t.done:
            return False
        if t.waiting is None:
            return True
        return bool(t.waiting())

    def _pick(self, me):
        """Next task when the current one can't go on."""
        ready = [t for t in self.tasks if t is not me and self._ready(t)]
        if me is not None and not me.done and self._ready(me):
            ready.insert(0, me)
        timed = [t for t in self.tasks if not t.done and t.deadline is not None and t not in ready]
        timed.sort(key=lambda t: t.deadline)
        cands = list(ready)
        if timed and self.timeouts > 0 and ready:
            cands.append(timed[0])
        if not cands:
            cands = timed[:1]
        if not cands:
            if any(not t.done and not t.daemon for t in self.tasks):
                self.deadlock = True
            return None
        if all(t.daemon for t in self.tasks if not t.done) and not ready:
            if self.idle_timeouts <= 0:
                return None     # only idle daemons are left
            self.idle_timeouts -= 1
        t = cands[self.ctx.choose('next', len(cands))] if len(cands) > 1 else cands[0]
        if t not in ready:
            if ready:
                self.timeouts -= 1
            self._timeout(t)
        return t

    def _timeout(self, t):
        if t.deadline > self.world.now_us:
            self.world.now_us = t.deadline
        t.timed_out = True
        t.waiting = None
        t.deadline = None

    def me(self):
        t = self.cur
        if t is not None and _t.current_thread() is t.os:
            return t

    def _switch(self, me, to):
        if to is me:
            return
        self.cur = to
        to.sem.release()
        me.sem.acquire()
        if self.killed:
            raise Kill()

    def outside(self):
        """Called on an OS thread that isn't the running task."""
        cur = _t.current_thread()
        if any(t.os is cur for t in self.tasks):
            raise Kill()

    def check(self):
        if self.killed:
            raise Kill()
        if getattr(self.ctx, 'dead', None) is not None:
            raise self.ctx.dead

    def yp(self, what=None):
        me = self.me()
        if me is None:
            self.outside()
            return
        self.check()
        self.steps += 1
        if self.steps > self.max_steps:
            self.fatal = self.fatal or Deadlock('too many steps')
            self.main.release()
            me.sem.acquire()
            raise Kill()
        if self.left <= 0:
            return
        others = [t for t in self.tasks if t is not me and self._ready(t)]
        timed = []
        if self.timeouts > 0:
            timed = [t for t in self.tasks if t is not me and not t.done and t.deadline is not None
                     and t not in others]
        cands = others + timed
        if not cands:
            return
        i = self.ctx.choose('sched', 1 + len(cands))
        if i:
            self.left -= 1
            t = cands[i - 1]
            if t in timed:
                self.timeouts -= 1
                self._timeout(t)
            self._switch(me, t)

    def block(self, cond, timeout=None, us=None):
        """Waits for cond(). -> False if it timed out"""
        me = self.me()
        if me is None:
            self.outside()
            if not cond():
                raise Deadlock('the main thread would block')
            return True
        self.check()
        if cond():
            return True
        me.waiting = cond
        me.timed_out = False
        if us is not None:
            me.deadline = self.world.now_us + us
        else:
            me.deadline = None if timeout is None else self.world.now_us + int(timeout * 1_000_000)
        try:
            nxt = self._pick(me)
        except BaseException as e:
            self.fatal = self.fatal or e
            nxt = None
        if nxt is None:
            self.main.release()
            me.sem.acquire()
            raise Kill()
        self._switch(me, nxt)
        me.waiting = None
        me.deadline = None
        return not me.timed_out

    def sleep_us(self, us):
        self.block(lambda: False, us=us)

    def sleep(self, s):
        me = self.me()
        if me is None:
            self.outside()
            if getattr(self.ctx, 'dead', None) is not None:
                raise self.ctx.dead
            return
        self.check()
        if s > 0:
            self.block(lambda: False, s)
        else:
            self.yp('sleep')

    # ---- threading, queue
    def overrides(self):
        S = self

        class Lock:
            reentrant = False

            def __init__(self):
                self.owner, self.n = None, 0

            def acquire(self, blocking=True, timeout=-1):
                me = S.me() or 'main'
                S.yp('acquire')
                if self.reentrant and self.owner is me:
                    self.n += 1
                    return True
                while self.owner is not None:
                    if not blocking:
                        return False
                    S.block(lambda: self.owner is None)
                self.owner, self.n = me, 1
                return True

            def release(self):
                if S.killed:
                    return
                if self.owner is None:
                    raise RuntimeError('release unlocked lock')
                self.n -= 1
                if self.n == 0:
                    self.owner = None
                    S.yp('release')

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        class RLock(Lock):
            reentrant = True

        class Event:
            def __init__(self):
                self.flag = False

            def set(self):
                S.yp('set')
                self.flag = True

            def clear(self):
                self.flag = False

            def is_set(self):
                return self.flag

            def wait(self, timeout=None):
                S.yp('wait')
                return S.block(lambda: self.flag, timeout)

        class Condition:
            def __init__(self, lock=None):
                self.lock = lock or RLock()
                self.waiters = []

            def __enter__(self):
                return self.lock.acquire()

            def __exit__(self, *a):
                self.lock.release()

            def acquire(self): return self.lock.acquire()
            def release(self): self.lock.release()

            def wait(self, timeout=None):
                if self.lock.owner is None:
                    raise RuntimeError('cannot wait on un-acquired lock')
                w = [False]
                self.waiters.append(w)
                n, owner = self.lock.n, self.lock.owner
                self.lock.n, self.lock.owner = 0, None
                try:
                    ok = S.block(lambda: w[0], timeout)
                finally:
                    if w in self.waiters:
                        self.waiters.remove(w)
                    if not S.killed:
                        while self.lock.owner is not None:
                            S.block(lambda: self.lock.owner is None)
                        self.lock.n, self.lock.owner = n, owner
                return ok

            def notify(self, n=1):
                if self.lock.owner is None:
                    raise RuntimeError('cannot notify on un-acquired lock')
                for w in self.waiters[:n]:
                    w[0] = True
                del self.waiters[:n]

            def notify_all(self):
                self.notify(len(self.waiters))

        class SimpleQueue:
            def __init__(self, *a):
                self.q = []

            def put(self, x, *a, **kw):
                S.yp('put')
                self.q.append(x)
            put_nowait = put

            def get(self, block=True, timeout=None):
                S.yp('get')
                if not self.q:
                    if not block or not S.block(lambda: bool(self.q), timeout):
                        import queue
                        raise queue.Empty()
                return self.q.pop(0)

            def get_nowait(self):
                return self.get(block=False)

            def qsize(self): return len(self.q)
            def empty(self): return not self.q

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self._target, self._args, self._kw = target, args, kwargs or {}
                self.name, self.daemon = name or 'thread', bool(daemon)
                self.task = None

            def run(self):
                if self._target:
                    self._target(*self._args, **self._kw)

            def start(self):
                self.task = S.spawn(self.name, self.run, self.daemon)
                S.yp('start')

            def is_alive(self):
                return self.task is not None and not self.task.done

            def join(self, timeout=None):
                S.block(lambda: self.task.done, timeout)

        def current_thread():
            t = S.me()
            return types.SimpleNamespace(name=t.name if t else 'main', ident=id(t))

        import queue as q
        th = ModProxy(_t, Lock=Lock, RLock=RLock, Event=Event, Condition=Condition, Thread=Thread,
                      current_thread=current_thread)
        return {'threading': th, 'queue': ModProxy(q, SimpleQueue=SimpleQueue, Queue=SimpleQueue)}
