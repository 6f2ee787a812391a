"""C02: an MST behaves as an immutable sorted map."""
from mstlib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Trees of n<=3 (thorough n<=4) entries over every combination of hash layers 0..2 and '
          'key orders, including collections that are prefixes of each other (a, a-, aa); '
          'arbitrary lookup/bound keys; one arbitrary operation, or two independent '
          'operations on the same tree.')
OUTSIDE = 'Larger trees, layers above 2.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']

MIXED = ('a', 'a-', 'aa')


def colls_of(mixed):
    return MIXED if mixed else ('a',)


def base(ctx, w, n, mode, mixed=False):
    items = pre(ctx, w, n, colls_of(mixed))
    tree = loaded(w, items)[0] if mode == 'load' else built(w, items)
    return items, tree


MODES = [dict(n=n, mode=m) for n in (1, 2, 3) for m in ('load', 'mem')]
DEEP = [dict(n=n, mode=m) for n in (1, 2, 3, 4) for m in ('load', 'mem')]


@H(quick=MODES + [dict(n=2, mode='load', mixed=True)],
   thorough=DEEP + [dict(n=3, mode='load', mixed=True)])
def reads(ctx, n, mode, mixed=False):
    w = World(ctx)
    items, tree = base(ctx, w, n, mode, mixed)
    key = w.key('q', colls_of(mixed))
    i, present = place(ctx, items, key)
    what = ctx.choose('what', 3)
    if what == 0:
        got = tree.get(key)
        if present:
            ctx.check(got is not None and got == items[i][1], 'get of a present key')
        else:
            ctx.check(got is None, 'get of a missing key')
    elif what == 1:
        got = [(l.key, l.value) for l in tree.walk_leaves_from(key)]
        ctx.check(items_eq(got, items[i:]), 'walk_leaves_from is not every entry >= key in order')
    else:
        ctx.check(items_eq(items_of(tree), items), 'leaves differ from contents')
        ctx.check(tree.leaf_count() == len(items), 'leaf_count')
    ctx.reach()


@H(quick=MODES[:5] + [dict(n=2, mode='load', mixed=True)],
   thorough=DEEP + [dict(n=3, mode='load', mixed=True)])
def bounded_list(ctx, n, mode, mixed=False):
    w = World(ctx)
    items, tree = base(ctx, w, n, mode, mixed)
    kw = {}
    lo, hi = 0, n
    a = ctx.choose('after', 3)
    if a:
        key = w.key('after', colls_of(mixed)) if a == 1 else items[ctx.choose('ai', n)][0]
        kw['after'] = key
        i, present = place(ctx, items, key)
        lo = i + 1 if present else i
    b = ctx.choose('before', 2)
    if b:
        key = w.key('before', colls_of(mixed))
        kw['before'] = key
        hi, _ = place(ctx, items, key)
    got = [(l.key, l.value) for l in tree.list(**kw)]
    ctx.check(items_eq(got, items[lo:hi] if lo < hi else []),
              'list(after, before) is not the entries strictly between')
    ctx.reach()


@H(quick=[dict(n=2, mode='load'), dict(n=3, mode='load')],
   thorough=[dict(n=n, mode=m) for n in (2, 3, 4) for m in ('load', 'mem')])
def prefixes(ctx, n, mode):
    w = World(ctx)
    items, tree = base(ctx, w, n, mode, True)
    prefix = ('a/', 'a', 'aa', 'a-/', 'aa/', 'b', '')[ctx.choose('prefix', 7)]
    got = [(l.key, l.value) for l in tree.list_with_prefix(prefix)]
    want = [it for it in items if it[0].startswith(prefix)]
    ctx.check(items_eq(got, want), 'list_with_prefix is not the entries with the prefix')
    ctx.reach()


@H(quick=MODES[:5], thorough=DEEP)
def writes(ctx, n, mode):
    """Right results, right errors, and the original tree is unchanged."""
    w = World(ctx)
    items, tree = base(ctx, w, n, mode)
    before = tree.get_pointer()
    op = OPS[ctx.choose('op', 3)]
    key = w.key('new')
    val = w.cid('val', 0, n + 1)
    at = place(ctx, items, key)
    want = model_op(ctx, items, op, key, val, at)
    new = None
    try:
        new = apply_op(tree, op, key, val)
        got = None
    except (KeyError, ValueError) as e:
        got = KeyError if isinstance(e, KeyError) else ValueError
    if isinstance(want, type):
        ctx.check(got is want, f'{op} should raise {want.__name__}')
    else:
        ctx.check(got is None, f'{op} failed')
        ctx.check(items_eq(items_of(new), want), f'contents after {op}')
        ctx.check(items_eq([(l.key, l.value) for l in new.list()], want), 'list() after op')
        ctx.check(new.leaf_count() == len(want), 'leaf_count')
        if op == 'delete':
            ctx.check(new.get(key) is None, 'deleted key is still there')
        else:
            g = new.get(key)
            ctx.check(g is not None and g == val, 'get after write')
    ctx.check(items_eq(items_of(tree), items), 'operation changed the original tree')
    ctx.check(tree.get_pointer() == before, 'operation changed the original tree\'s CID')
    ctx.reach()


@H(quick=[dict(n=1, mode='load'), dict(n=2, mode='load'), dict(n=2, mode='mem')],
   thorough=[dict(n=n, mode=m) for n in (1, 2, 3) for m in ('load', 'mem')])
def branches(ctx, n, mode):
    """Two trees derived from the same one don't affect each other."""
    w = World(ctx)
    items, tree = base(ctx, w, n, mode)
    outs = []
    for t in (1, 2):
        op = OPS[ctx.choose(f'op{t}', 3)]
        if op == 'add':
            i = ctx.choose(f'at{t}', n + 1)
            key = w.key(f'new{t}')
            assume_at(ctx, items, i, key)
        else:
            i = ctx.choose(f'at{t}', n)
            key = items[i][0]
        val = w.cid(f'val{t}', 0, n + 1)
        want = model_op(ctx, items, op, key, val, (i, op != 'add'))
        new = apply_op(tree, op, key, val)
        outs.append((new, want))
        if ctx.choose(f'ptr{t}', 2):
            new.get_pointer()
    for new, want in reversed(outs):
        ctx.check(items_eq(items_of(new), want), 'sibling operation changed a derived tree')
    ctx.check(items_eq(items_of(tree), items), 'operations changed the original tree')
    for new, want in outs:
        ctx.check(new.get_pointer() == Ref(w, want).root, 'CID of a derived tree')
    ctx.check(tree.get_pointer() == Ref(w, items).root, 'CID of the original tree')
    ctx.reach()
