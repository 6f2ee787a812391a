"""C01: the root CID of an MST is a function of its contents only."""
from mstlib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Trees of n entries (quick n<=4, thorough n<=5), every hash layer 0..2 (0..3 in the '
          'deep harness) for every key independently, every relative key order, then 1 (or 2, 3 on smaller '
          'trees) arbitrary add/update/delete with an arbitrary key and value; trees both '
          'loaded lazily from storage and built in memory. One step from an arbitrary '
          'canonical tree, so the claim extends by induction to longer histories whose '
          'intermediate trees stay in the bounds.')
OUTSIDE = 'Trees with more entries or layers; keys with other lengths (see C03).'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']


def colls_of(n):
    return ('a', 'a-', 'aa') if n == 'mixed' else ('a',)


@H(quick=[dict(n=0, mode='load'), dict(n=1, mode='load'), dict(n=2, mode='load'),
          dict(n=3, mode='load'), dict(n=4, mode='load'), dict(n=2, mode='mem'),
          dict(n=3, mode='mem'), dict(n=2, mode='load', deep=True),
          dict(n=3, mode='load', colls='mixed')],
   thorough=[dict(n=n, mode=m) for n in range(0, 6) for m in ('load', 'mem')] +
            [dict(n=3, mode='load', deep=True), dict(n=4, mode='load', colls='mixed')])
def one_op(ctx, n, mode, colls='a', deep=False):
    if deep:
        ctx.memo['min_byte0'] = 1
    w = World(ctx)
    items = pre(ctx, w, n, colls_of(colls))
    if mode == 'load':
        tree, ref = loaded(w, items)
    else:
        tree = built(w, items)
    if n == 0 or mode == 'mem':
        ctx.check(tree.get_pointer() == Ref(w, items).root, 'root of initial tree')
    op = OPS[ctx.choose('op', 3)]
    i = ctx.choose('at', n + 1 if op == 'add' else n)
    if op == 'add':
        key = w.key('new', colls_of(colls))
        assume_at(ctx, items, i, key)
    else:
        if n == 0:
            return
        key = items[i][0]
    val = w.cid('val', 0, n + 1)
    want = model_op(ctx, items, op, key, val, (i, op != 'add'))
    new = apply_op(tree, op, key, val)
    ref2 = Ref(w, want)
    ctx.check(new.get_pointer() == ref2.root,
              f'root CID after {op} differs from the canonical tree')
    ctx.reach()


def any_op(ctx, w, items, tag, colls=('a',)):
    n = len(items)
    op = OPS[ctx.choose(f'op{tag}', 3)] if n else 'add'
    i = ctx.choose(f'at{tag}', n + 1 if op == 'add' else n)
    if op == 'add':
        key = w.key(f'new{tag}', colls)
        assume_at(ctx, items, i, key)
    else:
        key = items[i][0]
    val = w.cid(f'val{tag}', 0, 9)
    return op, key, val


@H(quick=[dict(n=0, ops=3, mode='mem'), dict(n=1, ops=2, mode='load'),
          dict(n=2, ops=2, mode='load')],
   thorough=[dict(n=0, ops=3, mode='mem'), dict(n=0, ops=4, mode='mem'), dict(n=2, ops=2, mode='load'),
             dict(n=3, ops=2, mode='load'), dict(n=1, ops=3, mode='load')])
def sequence(ctx, n, ops, mode):
    """Several operations without computing CIDs in between."""
    w = World(ctx)
    items = pre(ctx, w, n)
    tree = loaded(w, items)[0] if mode == 'load' else built(w, items)
    for s in range(ops):
        op, key, val = any_op(ctx, w, items, s)
        items = model_op(ctx, items, op, key, val)
        tree = apply_op(tree, op, key, val)
    ctx.check(tree.get_pointer() == Ref(w, items).root,
              'root CID after a sequence of operations differs from the canonical tree')
    ctx.reach()


@H(quick=[dict(nbytes=3)], thorough=[dict(nbytes=8)])
def layers(ctx, nbytes):
    """leading_zeros_on_hash is the number of leading zero bit pairs of the digest."""
    digest = ctx.bytes('digest', nbytes)
    tail = ctx.choose('tail', 2) * 255
    w = World(ctx)
    import symx.values as V
    full = digest + bytes([tail] * (32 - nbytes))
    if ctx.symbolic:
        ctx.memo['sha_hook'] = lambda data: full
    else:
        import hashlib, types
        from symx.loader import ModProxy
        w2 = World(ctx, overrides={'hashlib': ModProxy(hashlib, sha256=lambda d: types.SimpleNamespace(
            digest=lambda: full))})
        w = w2
    got = w.mods.mst.leading_zeros_on_hash('com.example/abc')
    num = 0
    for i in range(32):
        num = num * 256 + full[i]
    want = 0
    while want < 128 and num < (1 << (256 - 2 * (want + 1))):
        want += 1
    ctx.check(got == want, 'layer is not the number of leading zero bit pairs')
    ctx.reach()
