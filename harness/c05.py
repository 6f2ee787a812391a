"""C05: diffing two MSTs reports exactly what changed."""
from mstlib import *
from symx.harness import Registry

H = Registry()
BOUNDS = ('Two trees over n<=3 (thorough n<=4) keys, each key independently absent, present '
          'with equal or different value in each tree; all hash layer combinations 0..2; '
          'each tree built in memory, loaded from storage, or derived from the other.')
OUTSIDE = 'Larger trees. Diff.add_diff().'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']


def check_diff(ctx, w, D, a, b):
    """a: old items, b: new items"""
    da, db = dict_of(a), dict_of(b)
    ra, rb = Ref(w, a), Ref(w, b)
    adds = [(k, v) for k, v in b if k not in da]
    dels = [(k, v) for k, v in a if k not in db]
    ups = []
    for k, v in b:
        if k in da and not (da[k] == v):
            ups.append((k, da[k], v))
    ctx.check(len(D.adds) == len(adds), 'number of adds')
    for k, v in adds:
        c = D.adds.get(k)
        ctx.check(c is not None and AND(c.key == k, c.cid == v), 'an added key is missing')
    ctx.check(len(D.deletes) == len(dels), 'number of deletes')
    for k, v in dels:
        c = D.deletes.get(k)
        ctx.check(c is not None and AND(c.key == k, c.cid == v), 'a deleted key is missing')
    ctx.check(len(D.updates) == len(ups), 'number of updates')
    for k, p, v in ups:
        c = D.updates.get(k)
        ctx.check(c is not None and AND(c.key == k, c.cid == v, c.prev == p),
                  'an updated key is missing')
    new_nodes = [c for c in rb.blocks if c not in ra.blocks]
    gone = [c for c in ra.blocks if c not in rb.blocks]
    vals = [v for _, v in adds] + [v for _, _, v in ups]
    for c in new_nodes + vals:
        ctx.check(c in D.new_cids, 'a new block is missing from new_cids')
    for c in D.new_cids:
        ctx.check(OR(*[c == x for x in new_nodes + vals], False), 'new_cids has an unchanged block')
    for c in gone:
        ctx.check(c in D.removed_cids, 'a removed node is missing from removed_cids')
    for c in D.removed_cids:
        ctx.check(OR(*[c == x for x in gone], False), 'removed_cids has a block that still exists')




def dict_of(items):
    return {k: v for k, v in items}




@H(quick=[dict(n=n, how=h) for n in (1, 2) for h in ('mem', 'load', 'derive')] +
         [dict(n=3, how='load'), dict(n=3, how='derive')],
   thorough=[dict(n=n, how=h) for n in (1, 2, 3, 4) for h in ('mem', 'load', 'derive', 'mixed')])
def pair(ctx, n, how):
    w = World(ctx)
    ks = w.sorted_keys('k', n)
    a, b = [], []
    for i, k in enumerate(ks):
        st = ctx.choose(f'in{i}', 4)    # both same, both different, only old, only new
        v = w.cid_n(i)
        if st != 3:
            a.append((k, v))
        if st != 2:
            b.append((k, v if st in (0, 3) else w.cid_n(i + 10)))
    st = mem(w)
    if how == 'mem':
        ta, tb = built(w, a, st), built(w, b, st)
    elif how == 'load':
        ta, tb = loaded(w, a, st)[0], loaded(w, b, st)[0]
    elif how == 'mixed':
        ta, tb = loaded(w, a, st)[0], built(w, b, st)
    else:
        ta = loaded(w, a, st)[0] if ctx.choose('a_loaded', 2) else built(w, a, st)
        tb = ta
        da, db = dict_of(a), dict_of(b)
        for k in ks:
            if k in da and k not in db:
                tb = tb.delete(k)
            elif k in db and k not in da:
                tb = tb.add(k, db[k])
            elif k in da and k in db and not (da[k] == db[k]):
                tb = tb.update(k, db[k])
    D = w.mods.diff.Diff.of(tb, ta)
    check_diff(ctx, w, D, a, b)
    ctx.reach()


@H(quick=[dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4)])
def null(ctx, n):
    """Diff against nothing."""
    w = World(ctx)
    items = pre(ctx, w, n)
    tree = loaded(w, items)[0] if ctx.choose('load', 2) else built(w, items)
    D = w.mods.diff.Diff.of(tree)
    ref = Ref(w, items)
    ctx.check(len(D.adds) == n and not D.updates and not D.deletes and not D.removed_cids,
              'null diff has only adds')
    for k, v in items:
        c = D.adds.get(k)
        ctx.check(c is not None and c.cid == v, 'an added key is missing')
        ctx.check(v in D.new_cids, 'new_cids misses a record')
    for c in ref.blocks:
        ctx.check(c in D.new_cids, 'new_cids misses a node')
    ctx.reach()
