"""Reference model of atproto's Merkle search trees, independent of arroba's code, and
helpers to build arbitrary canonical trees."""
from symx.world import World
from symx.values import AND, OR, NOT


def common_prefix(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


class Ref:
    """Canonical tree for sorted [(key, value cid)]."""
    def __init__(self, w, items):
        self.w = w
        self.blocks = {}        # cid -> node dict, only nodes of this tree
        self.order = []
        self.layers = [w.layer(k) for k, _ in items]
        top = max(self.layers, default=0)
        self.root = self.build(items, self.layers, top)

    def build(self, items, layers, layer):
        subs = [[]]
        here = []
        for it, l in zip(items, layers):
            if l == layer:
                here.append(it)
                subs.append([])
            else:
                subs[-1].append((it, l))
        cids = []
        for s in subs:
            cids.append(self.build([i for i, _ in s], [l for _, l in s], layer - 1)
                        if s else None)
        entries = []
        last = ''
        for (k, v), t in zip(here, cids[1:]):
            p = common_prefix(last, k)
            entries.append({'p': p, 'k': k[p:].encode('ascii'), 'v': v, 't': t})
            last = k
        node = {'l': cids[0], 'e': entries}
        cid = self.w.cid_of(node)
        self.blocks[cid] = node
        self.order.append((cid, node))
        return cid


def store_tree(w, storage, ref):
    """Puts a reference tree's nodes in storage."""
    for cid, node in ref.order:
        put_block(w, storage, node)


def put_block(w, storage, obj, seq=1):
    b = w.mods.storage.Block(decoded=obj, seq=seq)
    storage.blocks.setdefault(b.cid, b)
    return b.cid


def mem(w):
    return w.mods.storage.MemoryStorage()


def loaded(w, items, storage=None):
    """-> (MST loaded lazily from storage, Ref)"""
    st = storage or mem(w)
    ref = Ref(w, items)
    store_tree(w, st, ref)
    return w.mods.mst.MST.load(storage=st, cid=ref.root), ref


def built(w, items, storage=None):
    """In-memory tree made with add()."""
    st = storage or mem(w)
    t = w.mods.mst.MST.create(storage=st)
    for k, v in items:
        t = t.add(k, v)
    return t


def items_of(tree):
    return [(l.key, l.value) for l in tree.leaves()]


def pre(ctx, w, n, colls=('a',), values=True):
    ks = w.sorted_keys('k', n, colls=colls)
    return [(k, w.cid_n(i) if not values else w.cid(f'v{i}', 0, n)) for i, k in enumerate(ks)]


def place(ctx, items, key):
    """Index of key in sorted items, and whether it's there."""
    for i, (k, _) in enumerate(items):
        if k == key:
            return i, True
        if key < k:
            return i, False
    return len(items), False


def assume_at(ctx, items, i, key):
    """key isn't in items and would be inserted at index i."""
    cs = []
    if i > 0:
        cs.append(items[i - 1][0] < key)
    if i < len(items):
        cs.append(key < items[i][0])
    ctx.assume(AND(*cs, True))


def model_op(ctx, items, op, key, val, at=None):
    """Applies op to the sorted list model. -> new items or exception type"""
    i, present = place(ctx, items, key) if at is None else at
    if op == 'add':
        if present:
            return ValueError
        return items[:i] + [(key, val)] + items[i:]
    if not present:
        return KeyError
    if op == 'update':
        return items[:i] + [(key, val)] + items[i + 1:]
    return items[:i] + items[i + 1:]


def apply_op(tree, op, key, val):
    if op == 'add':
        return tree.add(key, val)
    if op == 'update':
        return tree.update(key, val)
    return tree.delete(key)


def items_eq(a, b):
    if len(a) != len(b):
        return False
    return AND(*[AND(x[0] == y[0], x[1] == y[1]) for x, y in zip(a, b)], True)


OPS = ('add', 'update', 'delete')
