"""Repos with arbitrary contents, and independent readers of what they emit."""
import datetime as _dt
from mstlib import *
from symx import libsym

NSID = 'com.atproto.sync.subscribeRepos'
DID = 'did:web:alice.com'
REC = 'com.example.x'


class FakeKey:
    """An ideal signing key: a signature is a fresh pair (r, s) for each signed message."""
    def __init__(self, w, n=1):
        from cryptography.hazmat.primitives.asymmetric import ec
        self.w, self.n = w, n
        self.curve = ec.SECP256K1()
        self.signed = []        # [(data, r, s)]

    def sign(self, data, alg):
        for i, (d, r, s) in enumerate(self.signed):
            if d == data:
                return libsym.SymDER(r, s)
        r, s = 1000 * self.n + len(self.signed), 1000 * self.n + 500 + len(self.signed)
        self.signed.append((data, r, s))
        return libsym.SymDER(r, s)

    def valid(self, data, sig):
        """Is sig (64 bytes) this key's low-S signature of data?"""
        for d, r, s in self.signed:
            if d == data:
                return sig == r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
        return False

    def public_key(self):
        return self

    def verify(self, der, data, alg):
        for d, r, s in self.signed:
            if d == data and der.r == r and der.s == s:
                return
        raise libsym.InvalidSignature()

    def private_bytes(self, **kw):
        return ds_pem(self.w, self)

    def __deepcopy__(self, memo):
        return self


class RealKey:
    def __init__(self, w, n=1):
        from cryptography.hazmat.primitives.asymmetric import ec
        self.key = ec.derive_private_key(424242 + n, ec.SECP256K1())


def new_key(w, n=1):
    if w.sym:
        return FakeKey(w, n)
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.derive_private_key(424242 + n, ec.SECP256K1())


def sig_valid(w, key, obj):
    """Independent check of a commit's signature."""
    obj = dict(obj)
    sig = obj.pop('sig')
    if w.sym:
        return key.valid(w.encode(obj), sig)
    from cryptography.hazmat.primitives.asymmetric import ec, utils
    from cryptography.hazmat.primitives import hashes
    import dag_cbor
    n = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if len(sig) != 64 or s > n // 2:
        return False
    try:
        key.public_key().verify(utils.encode_dss_signature(r, s), dag_cbor.encode(obj),
                                ec.ECDSA(hashes.SHA256()))
        return True
    except Exception:
        return False


B32 = '234567abcdefghijklmnopqrstuvwxyz'


def tid_of(n):
    """Reference TID of a concrete sequence number, clock id 0."""
    out = ''
    for _ in range(11):
        out = B32[n % 32] + out
        n //= 32
    return out + '22'


class Env:
    """One repo with given [(key, cid)] contents, at seq 1."""
    def __init__(self, w, items, storage=None, did=DID, key=None, callback=None, seq=1, handle=None):
        self.w = w
        self.st = storage or mem(w)
        self.did = did
        self.key = key or new_key(w)
        self.ref = Ref(w, items)
        for cid, node in self.ref.order:
            put_block(w, self.st, node, seq)
        S = w.mods.storage
        commit = {'did': did, 'version': 3, 'rev': tid_of(seq), 'prev': None,
                  'data': self.ref.root, 'sig': b'\x01' * 64}
        self.head = S.Block(decoded=commit, seq=seq, ops=[], repo=did)
        self.st.blocks[self.head.cid] = self.head
        for b in self.st.blocks.values():
            b.repo = b.repo or did
        self.repo = w.mods.repo.Repo(
            storage=self.st, mst=w.mods.mst.MST.load(storage=self.st, cid=self.ref.root),
            head=self.head, signing_key=self.key, callback=callback, handle=handle)
        self.st.create_repo(self.repo)
        self.st.sequences.sequences.setdefault(NSID, seq + 1)
        w.mods.server.storage = self.st


def put_record(w, st, rec, seq=1, did=DID):
    b = w.mods.storage.Block(decoded=rec, seq=seq, repo=did)
    return st.blocks.setdefault(b.cid, b).cid


def write_of(w, action, key, rec):
    """key: MST key (str or SymStr)."""
    coll, rkey = key.split('/')
    A = w.mods.storage.Action
    return w.mods.repo.Write({'create': A.CREATE, 'update': A.UPDATE, 'delete': A.DELETE}[action],
                             coll, rkey, rec)


# --- partial trees

class Missing(Exception):
    pass


class Node:
    def __init__(self, layer, entries):
        self.layer = layer
        self.entries = entries      # ('k', key, value) | ('t', CID or Node)


class Partial:
    """A Merkle search tree of which only some nodes are at hand."""
    def __init__(self, w, root, blocks):
        self.w = w
        self.blocks = blocks        # {cid: decoded}
        data = self.data(root)
        layer = 0
        if data['e']:
            layer = w.layer(data['e'][0]['k'].decode())
        self.root = self.parse(data, layer)

    def data(self, cid):
        d = self.blocks.get(cid)
        if d is None:
            raise Missing()
        return d

    def parse(self, data, layer):
        entries = []
        if data['l'] is not None:
            entries.append(('t', data['l']))
        last = ''
        for e in data['e']:
            last = last[:e['p']] + e['k'].decode()
            entries.append(('k', last, e['v']))
            if e['t'] is not None:
                entries.append(('t', e['t']))
        return Node(layer, entries)

    def load(self, ref, layer):
        return ref if type(ref) is Node else self.parse(self.data(ref), layer)

    def find(self, node, key):
        """index of the first leaf >= key, or len; index of the subtree before it or None"""
        for i, e in enumerate(node.entries):
            if e[0] == 'k' and (e[1] == key or key < e[1]):
                break
        else:
            i = len(node.entries)
        j = i - 1 if i and node.entries[i - 1][0] == 't' else None
        return i, j

    def get(self, key):
        node = self.root
        while True:
            i, j = self.find(node, key)
            if i < len(node.entries) and node.entries[i][1] == key:
                return node.entries[i][2]
            if j is None:
                return None
            node = self.load(node.entries[j][1], node.layer - 1)

    def update(self, key, val, node=None):
        node = node or self.root
        i, j = self.find(node, key)
        if i < len(node.entries) and node.entries[i][1] == key:
            node.entries[i] = ('k', key, val)
            return
        assert j is not None, 'key to update is missing'
        child = self.load(node.entries[j][1], node.layer - 1)
        node.entries[j] = ('t', child)
        self.update(key, val, child)

    def delete(self, key):
        self.delete_in(self.root, key)
        while len(self.root.entries) == 1 and self.root.entries[0][0] == 't':
            ref = self.root.entries[0][1]
            if type(ref) is not Node:
                if ref not in self.blocks:
                    self.root = ref
                    return
                ref = self.load(ref, self.root.layer - 1)
            self.root = ref
        if not self.root.entries:
            self.root.layer = 0

    def delete_in(self, node, key):
        i, j = self.find(node, key)
        es = node.entries
        if i < len(es) and es[i][1] == key:
            if 0 < i < len(es) - 1 and es[i - 1][0] == 't' and es[i + 1][0] == 't':
                es[i - 1:i + 2] = [('t', self.merge(es[i - 1][1], es[i + 1][1], node.layer - 1))]
            else:
                del es[i]
            return
        assert j is not None, 'key to delete is missing'
        child = self.load(es[j][1], node.layer - 1)
        es[j] = ('t', child)
        self.delete_in(child, key)
        if not child.entries:
            del es[j]

    def merge(self, a, b, layer):
        a, b = self.load(a, layer), self.load(b, layer)
        es = list(a.entries)
        rest = list(b.entries)
        if es and rest and es[-1][0] == 't' and rest[0][0] == 't':
            es[-1] = ('t', self.merge(es[-1][1], rest[0][1], layer - 1))
            rest = rest[1:]
        return Node(layer, es + rest)

    def split(self, ref, key, layer):
        """-> (Node or None, Node or None)"""
        node = self.load(ref, layer)
        i, j = self.find(node, key)
        left, right = node.entries[:i], node.entries[i:]
        if j is not None:
            a, b = self.split(left.pop()[1], key, layer - 1)
            if a:
                left.append(('t', a))
            if b:
                right.insert(0, ('t', b))
        return (Node(layer, left) if left else None, Node(layer, right) if right else None)

    @staticmethod
    def wrap(node, layer):
        while node and node.layer < layer:
            node = Node(node.layer + 1, [('t', node)])
        return node

    def insert(self, key, val):
        kl = self.w.layer(key)
        root = self.root
        if type(root) is not Node:
            raise Missing()
        if not root.entries:
            self.root = Node(kl, [('k', key, val)])
        elif kl > root.layer:
            a, b = self.split(root, key, root.layer)
            es = [('k', key, val)]
            if a:
                es.insert(0, ('t', self.wrap(a, kl - 1)))
            if b:
                es.append(('t', self.wrap(b, kl - 1)))
            self.root = Node(kl, es)
        else:
            self.insert_in(root, key, val, kl)

    def insert_in(self, node, key, val, kl):
        i, j = self.find(node, key)
        es = node.entries
        assert not (i < len(es) and es[i][1] == key), 'key to insert exists'
        if kl == node.layer:
            new = [('k', key, val)]
            if j is None:
                es[i:i] = new
            else:
                a, b = self.split(es[j][1], key, node.layer - 1)
                es[j:j + 1] = ([('t', a)] if a else []) + new + ([('t', b)] if b else [])
        elif j is None:
            es.insert(i, ('t', self.wrap(Node(kl, [('k', key, val)]), node.layer - 1)))
        else:
            child = self.load(es[j][1], node.layer - 1)
            es[j] = ('t', child)
            self.insert_in(child, key, val, kl)

    def cid(self, node=None):
        node = node if node is not None else self.root
        if type(node) is not Node:
            return node
        l, es, last = None, [], ''
        for e in node.entries:
            if e[0] == 'k':
                p = common_prefix(last, e[1])
                es.append({'p': p, 'k': e[1][p:].encode('ascii'), 'v': e[2], 't': None})
                last = e[1]
            elif es:
                es[-1]['t'] = self.cid(e[1])
            else:
                l = self.cid(e[1])
        return self.w.cid_of({'l': l, 'e': es})


def event_commit(ctx, w, payload):
    """Parses a #commit payload's CAR. -> (commit dict, {cid: decoded})"""
    roots, blocks = w.read_car(payload['blocks'])
    ctx.check(len(roots) == 1 and roots[0] == payload['commit'], 'CAR root is not the commit')
    out = {}
    for cid, enc in blocks:
        d = w.decode(enc)
        ctx.check(w.cid_of(d) == cid, "a block's CID is not the hash of its bytes")
        out[cid] = d
    ctx.check(payload['commit'] in out, 'CAR lacks the commit block')
    return out.get(payload['commit']), out


def invert(ctx, w, payload, commit, blocks):
    """Undoes a commit event's operations, with only the event's blocks. -> root CID"""
    t = Partial(w, commit['data'], blocks)
    for op in reversed(payload['ops']):
        if op['action'] == 'create':
            ctx.check(t.get(op['path']) == op['cid'], 'created record is not in the new tree')
            t.delete(op['path'])
        elif op['action'] == 'update':
            ctx.check(t.get(op['path']) == op['cid'], 'updated record is not in the new tree')
            t.update(op['path'], op['prev'])
        else:
            ctx.check(t.get(op['path']) is None, 'deleted record is still in the new tree')
            t.insert(op['path'], op['prev'])
    return t.cid()


# --- Datastore

def ds_storage(w):
    """-> (DatastoreStorage, client). PEMs of ideal keys are opaque."""
    D = w.mods.datastore_storage
    if w.sym:
        from symx.loader import ModProxy
        D.serialization = ModProxy(D.serialization, load_pem_private_key=lambda pem, password=None: w.pems[pem])
    client = w.ndb.Client()
    return D.DatastoreStorage(ndb_client=client), client


def ds_block(w, obj, seq, did=DID, ops=()):
    """Stores a block directly. -> CID"""
    enc = w.encode(obj)
    cid = w.cid_of(obj)
    w.ndb.apply('AtpBlock', cid.encode('base32'), {
        'repo': w.ndb.ndb.Key('AtpRepo', did), 'encoded': enc, 'seq': seq, 'ops': list(ops),
        'created': (w.util_now()).replace(tzinfo=None)})
    return cid


class DSEnv:
    """A Datastore with one repo of the given contents. Use inside client.context()."""
    def __init__(self, w, items, did=DID, key=None, seq=1, handle=None, storage=None, status=None):
        self.w, self.did = w, did
        self.st, self.client = storage or ds_storage(w)
        self.key = key or new_key(w)
        pem = ds_pem(w, self.key)
        self.ref = Ref(w, items)
        for _, node in self.ref.order:
            ds_block(w, node, seq, did)
        self.commit = {'did': did, 'version': 3, 'rev': tid_of(seq), 'prev': None, 'data': self.ref.root, 'sig': b'\x01' * 64}
        self.head = ds_block(w, self.commit, seq, did)
        w.ndb.apply('AtpRepo', did, {
            'handles': [handle] if handle else [], 'head': self.head.encode('base32'), 'encrypted_signing_key': pem,
            'encrypted_rotation_key': None, 'status': status, 'created': w.util_now().replace(tzinfo=None), 'updated': None})
        if 'AtpSequence' not in w.ndb.tables:
            w.ndb.apply('AtpSequence', NSID, {'next': seq + 1, 'created': None, 'updated': None})
        w.mods.server.storage = self.st


def ds_pem(w, key):
    if w.sym:
        pems = w.__dict__.setdefault('pems', {})
        pem = f'pem {key.n}'.encode()
        pems[pem] = key
        return pem
    from cryptography.hazmat.primitives import serialization as s
    return key.private_bytes(s.Encoding.PEM, s.PrivateFormat.PKCS8, s.NoEncryption())


def ds_rows(w, kind='AtpBlock'):
    """{id: values} of a table, as it is now"""
    return {k: dict(r.values) for k, r in w.ndb.tables.get(kind, {}).items()}
