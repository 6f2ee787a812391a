"""C03: MST node encoding and key validation, at the level of individual characters."""
import types
from mstlib import *
from symx.harness import Registry
from symx.loader import ModProxy

H = Registry()
BOUNDS = ('Nodes with up to 3 (thorough 4) leaves whose keys are 1-3 (thorough 4) arbitrary '
          'valid characters after the collection; candidate keys of every length 0..6 '
          '(thorough 0..8) over all characters U+0000..U+017F, and lengths 254..258 with '
          'arbitrary characters at the ends.')
OUTSIDE = 'Longer symbolic keys; characters above U+017F.'
ASSUMPTIONS = ['DAG-CBOR is injective']

VALID = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_~-:.'


def flat_world(ctx):
    """All keys in layer 0: a tree is one node."""
    digest = b'\xff' * 32
    if ctx.symbolic:
        ctx.memo['sha_hook'] = lambda data: digest
        return World(ctx)
    import hashlib
    w = World(ctx, overrides={'hashlib': ModProxy(hashlib, sha256=lambda *a: types.SimpleNamespace(
        digest=lambda: digest))})
    w.layer = lambda key: 0
    return w


@H(quick=[dict(lens=l) for l in ((1,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (2, 2, 2), (1, 3, 2))],
   thorough=[dict(lens=l) for l in ((1, 2), (2, 1), (2, 2), (3, 3), (2, 2, 2), (1, 3, 2), (3, 3, 3),
                                    (4, 4, 4), (2, 2, 2, 2), (1, 2, 3, 4), (4, 3, 2, 1))])
def nodes(ctx, lens):
    w = flat_world(ctx)
    if ctx.symbolic:
        w.layer = lambda key: 0
    keys = [('aa/', 'ab/')[ctx.choose('coll', 2) if i else 0] +
            ctx.str(f'k{i}', n, alphabet='az-.') for i, n in enumerate(lens)]
    for a, b in zip(keys, keys[1:]):
        ctx.assume(a < b)
    items = [(k, w.cid_n(i)) for i, k in enumerate(keys)]
    st = mem(w)
    tree = built(w, items, st)
    ref = Ref(w, items)
    root, blocks = tree.get_unstored_blocks()
    ctx.check(root == ref.root, 'encoded node differs from the specified encoding')
    ctx.check(len(blocks) == 1, 'one node expected')
    for b in blocks.values():
        ctx.check(b.cid == ref.root, 'block CID')
        ctx.check(b.encoded == w.encode(ref.blocks[ref.root]), 'node bytes')
        st.blocks[b.cid] = b
    again = w.mods.mst.MST.load(storage=st, cid=root)
    ctx.check(items_eq(items_of(again), items), 'decoding a node gives different entries')
    ctx.reach()


def is_valid(key, n):
    """Reference: <coll>/<rkey>, non-empty, ASCII [A-Za-z0-9_~\\-:.], 256 characters."""
    if n > 256:
        return False
    slash = [key[i] == '/' for i in range(n)]
    ok = []
    for i in range(1, n - 1):
        others = [slash[i]] + [valid_char(key[j]) for j in range(n) if j != i]
        ok.append(AND(*others))
    return OR(*ok, False)


def valid_char(c):
    rs = [('A', 'Z'), ('a', 'z'), ('0', '9'), ('_', '_'), ('~', '~'), ('-', '-'), (':', ':'),
          ('.', '.')]
    return OR(*[AND(c >= a, c <= b) for a, b in rs])


@H(quick=[dict(n=n) for n in range(0, 7)], thorough=[dict(n=n) for n in range(0, 9)])
def validation(ctx, n):
    w = flat_world(ctx)
    key = ctx.str('key', n, lo=0, hi=0x17f)
    want = bool(is_valid(key, n))
    try:
        w.mods.mst.ensure_valid_key(key)
        got = True
    except ValueError:
        got = False
    ctx.check(got == want, 'key validation')
    ctx.reach()


@H(quick=[dict(n=n) for n in (254, 255, 256, 257, 258)])
def long_keys(ctx, n):
    w = flat_world(ctx)
    a = ctx.str('a', 1, alphabet='a/Z%', )
    b = ctx.str('b', 1, alphabet='a/Z%')
    key = a + 'x/' + 'y' * (n - 4) + b
    want = bool(AND(n <= 256, valid_char(a), valid_char(b)))
    try:
        w.mods.mst.ensure_valid_key(key)
        got = True
    except ValueError:
        got = False
    ctx.check(got == want, 'key validation, length limit')
    ctx.reach()


@H(quick=[dict(n=n, op=o) for n in (0, 1, 3, 4) for o in ('add', 'update')])
def enforced(ctx, n, op):
    """Invalid keys never get into a tree."""
    w = flat_world(ctx)
    key = ctx.str('key', n, lo=0, hi=0x17f)
    tree = w.mods.mst.MST.create(storage=mem(w))
    want = bool(is_valid(key, n))
    cid = w.cid_n(0)
    try:
        t = tree.add(key, cid) if op == 'add' else tree.update(key, cid)
        got = True
    except ValueError:
        got = False
    except KeyError:
        got = True
        ctx.check(op == 'update', 'KeyError from add')
    ctx.check(got == want, f'{op} accepts an invalid key or rejects a valid one')
    ctx.check(tree.leaf_count() == 0, 'tree unchanged')
    ctx.reach()
