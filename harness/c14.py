"""C14: TIDs are a faithful, sortable encoding."""
from datetime import datetime, timedelta, timezone

from repolib import *
from symx.harness import Registry
from symx.values import NOT, OR

H = Registry()
BOUNDS = ('All integers 0..2**53-1 (what 13 characters and the TID syntax can hold), all clock ids 0-31; all pairs of them with up to 4 '
          '(thorough: 11) digits for the order; all datetimes 1970-2255 by microsecond; all 13-character strings over the alphabet '
          '(order: symbolic digits), other lengths 0-20, a foreign character at any place.')
OUTSIDE = 'Clock ids over 31, which the code never uses.'
ASSUMPTIONS = []
ALPH = '234567abcdefghijklmnopqrstuvwxyz'


def within(c):
    return OR(*[c == x for x in ALPH])


@H(quick=[dict(n=n) for n in range(12)], thorough=[dict(n=n) for n in range(12)])
def roundtrip(ctx, n):
    """Integers of n digits."""
    w = World(ctx)
    U = w.mods.util
    num = ctx.int('num', 32 ** (n - 1) if n else 0, min(32 ** n, 2 ** 53) - 1)
    clock = ctx.int('clock', 0, 31)
    enc = U.s32encode(num)
    ctx.check(len(enc) == n, 'number of digits')
    for c in enc:
        ctx.check(within(c), 'alphabet')
    ctx.check(U.s32decode(enc) == num, 's32 round trip')
    tid = U.int_to_tid(num, clock_id=clock)
    ctx.check(len(tid) == 13, 'TID length')
    for c in tid:
        ctx.check(within(c), 'TID alphabet')
    ctx.check(OR(*[tid[0] == x for x in ALPH[:16]]), "TID's first character")
    ctx.check(U.tid_to_int(tid) == num, 'TID round trip')
    # the clock id is the same whatever the number
    ctx.check(tid[11:] == U.int_to_tid(0, clock_id=clock)[11:], 'clock id')
    ctx.reach()


@H(quick=[dict(n=n, m=m) for n in range(12) for m in range(n + 1)],
   thorough=[dict(n=n, m=m) for n in range(12) for m in range(n + 1)])
def order(ctx, n, m):
    """TIDs sort like the integers, and different clocks never collide."""
    w = World(ctx)
    U = w.mods.util
    a = ctx.int('a', 32 ** (n - 1) if n else 0, min(32 ** n, 2 ** 53) - 1)
    b = ctx.int('b', 32 ** (m - 1) if m else 0, min(32 ** m, 2 ** 53) - 1)
    ca, cb = ctx.int('clock a', 0, 31), ctx.int('clock b', 0, 31)
    ta, tb = U.int_to_tid(a, clock_id=ca), U.int_to_tid(b, clock_id=cb)
    if a > b:
        ctx.check(ta > tb, 'order')
    elif a < b:
        ctx.check(ta < tb, 'order')
    else:
        ctx.check((ta == tb) == (ca == cb), 'clock ids collide')
    ctx.reach()


@H(quick=[dict()])
def dates(ctx):
    w = World(ctx)
    U = w.mods.util
    us = ctx.int('us', 0, 2 ** 53 - 1)
    dt = w.datetime_of(us)
    tid = U.datetime_to_tid(dt)
    ctx.check(U.tid_to_int(tid) == us, 'datetime in the TID')
    ctx.check(U.tid_to_datetime(tid) == dt, 'datetime round trip')
    ctx.check(U.datetime_to_tid(dt, clock_id=0)[11:] == '22', 'clock id')
    ctx.reach()


@H(quick=[dict()])
def invalid(ctx):
    """Other lengths and characters are errors."""
    w = World(ctx)
    U = w.mods.util
    n = ctx.choose('len', 21)
    s = ctx.str('s', n, alphabet=ALPH)
    kind = ctx.choose('kind', 3)
    if kind == 1 and n:
        i = ctx.choose('at', min(n, 11))
        c = ctx.str('c', 1, lo=0x21, hi=0x7e)
        ctx.assume(NOT(within(c)))
        ctx.assume(NOT(c == '-'))      # legacy separators are ignored
        s = s[:i] + c + s[i + 1:]
    if kind == 2:
        s = (None, 13, [])[ctx.choose('type', 3)]
    try:
        v = U.tid_to_int(s)
    except ValueError:
        ctx.check(kind != 0 or n != 13, 'a valid TID was rejected')
        ctx.reach('rejected')
    else:
        ctx.check(n == 13 and kind != 2 and (kind == 0 or not n), 'an invalid TID was accepted')
        back = U.int_to_tid(v, clock_id=0)
        ctx.check(back[:11] == s[:11], 'number in the TID')
    ctx.reach()
