"""C04: persisting a changed MST stores exactly what a later load needs."""
from mstlib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Trees of n<=4 (thorough n<=5) entries, all hash layer combinations 0..2 and key orders; one '
          'arbitrary operation (two for n<=1, thorough n<=2) on a tree loaded from storage or built in memory; '
          'then the unstored blocks are written and the tree is loaded again.')
OUTSIDE = 'Larger trees.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']


@H(quick=[dict(n=0, ops=1, mode='load'), dict(n=1, ops=1, mode='load'), dict(n=2, ops=1, mode='load'),
          dict(n=3, ops=1, mode='load'), dict(n=4, ops=1, mode='load'), dict(n=3, ops=1, mode='mem'),
          dict(n=0, ops=2, mode='mem'), dict(n=1, ops=2, mode='load')],
   thorough=[dict(n=n, ops=1, mode=m) for n in range(6) for m in ('load', 'mem')] +
            [dict(n=n, ops=2, mode='load') for n in (1, 2)])
def persist(ctx, n, ops, mode):
    w = World(ctx)
    items = pre(ctx, w, n)
    st = mem(w)
    if mode == 'load':
        tree, ref0 = loaded(w, items, st)
        stored = set(ref0.blocks)
    else:
        tree = built(w, items, st)
        stored = set()
    ptr = ctx.choose('ptr', 2) if ops > 1 else 0
    for s in range(ops):
        m = len(items)
        op = OPS[ctx.choose(f'op{s}', 3)] if m else 'add'
        i = ctx.choose(f'at{s}', m + 1 if op == 'add' else m)
        if op == 'add':
            key = w.key(f'new{s}')
            assume_at(ctx, items, i, key)
        else:
            key = items[i][0]
        val = w.cid(f'val{s}', 0, n + 1)
        items = model_op(ctx, items, op, key, val, (i, op != 'add'))
        tree = apply_op(tree, op, key, val)
        if ptr and s == 0:
            tree.get_pointer()
    ref = Ref(w, items)
    root, blocks = tree.get_unstored_blocks()
    ctx.check(root == ref.root, 'returned root CID')
    for cid, b in blocks.items():
        ctx.check(cid == b.cid, 'block under the wrong CID')
        node = ref.blocks.get(cid)
        ctx.check(node is not None, 'returned a block that is not in the tree')
        ctx.check(b.encoded == w.encode(node), 'block bytes')
        ctx.check(cid not in stored, 'returned a block that was already stored')
    for cid in ref.blocks:
        ctx.check(cid in blocks or cid in stored, 'a node of the new tree is not persisted')
    st.write_blocks(list(blocks.values()))
    again = w.mods.mst.MST.load(storage=st, cid=root)
    ctx.check(items_eq(items_of(again), items), 'reloaded tree has different contents')
    ctx.check(items_eq(items_of(tree), items), 'original tree')
    r2, b2 = again.get_unstored_blocks()
    ctx.check(r2 == root and len(b2) == 0, 'reloaded tree has unstored blocks')
    ctx.reach()
