"""C27: PLC operations: what is written to the directory is valid and says what was asked for."""
import base64
import copy
import hashlib
import types
import requests
from cryptography.hazmat.primitives.asymmetric import ec
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy
from symx.values import is_sym

H = Registry()
BOUNDS = ('Histories of 1-3 (thorough 4) operations on a modelled directory, each creating, updating or rolling back, with any optional arguments (handles and aliases of any 1-2 characters, '
          '0-2 other aliases as a string, list or tuple, other PDS, any of several keys as private or public ones, new rotation keys, keys of another curve, no keys), '
          'the directory refusing any of them, and another client recovering the DID, which nullifies operations, in between.')
OUTSIDE = 'Creating a DID with a new_rotation_key (a genesis operation must be signed with one of the keys in it). DIDs whose first alias is not their handle, legacy and tombstone operations, other verification methods and services.'
ASSUMPTIONS = ['SHA-256, truncated to 120 bits, and DAG-CBOR are injective', 'signatures are ideal', 'the directory follows the did:plc spec']


class Keys:
    """Real public keys, with ideal signatures in symbolic runs."""
    def __init__(self, w):
        self.w, self.n, self.keys = w, 0, []

    def new(self, curve=None, *a):
        self.n += 1
        real = ec.derive_private_key(7000 + self.n, curve or ec.SECP256K1())
        key = FakeEC(self.w, real, self.n) if self.w.sym else real
        self.keys.append(key)
        return key

    def verify(self, did_keys, op):
        """Is op signed with one of these?"""
        op = dict(op)
        sig = op.pop('sig')
        if len(sig) != 86 or '=' in sig:
            return False
        raw = base64.urlsafe_b64decode(sig + '==')
        for k in self.keys:
            if encode(k) in did_keys:
                if self.w.sym:
                    if k.valid(self.w.encode(op), raw):
                        return True
                elif sig_valid(self.w, k, {**op, 'sig': raw}):
                    return True
        return False


class FakeEC(ec.EllipticCurvePrivateKey, FakeKey):
    def __init__(self, w, real, n):
        self._w, self._real, self._n, self._signed = w, real, n, []

    w = property(lambda self: self._w)
    n = property(lambda self: self._n)
    signed = property(lambda self: self._signed)
    curve = property(lambda self: self._real.curve)
    key_size = property(lambda self: 256)
    sign = FakeKey.sign

    def public_key(self):
        return self._real.public_key()

    def exchange(self, *a):
        raise NotImplementedError

    def private_numbers(self):
        return self._real.private_numbers()

    def private_bytes(self, *a, **kw):
        return self._real.private_bytes(*a, **kw)

    def __copy__(self):
        return self


FakeEC.__abstractmethods__ = frozenset()


def encode(key):
    """did:key, by the spec"""
    if hasattr(key, 'public_key'):
        key = key.public_key()
    n = key.public_numbers()
    code = b'\xe7\x01' if isinstance(key.curve, ec.SECP256K1) else b'\x80\x24'
    data = code + bytes([2 + n.y % 2]) + n.x.to_bytes(32, 'big')
    x, out = int.from_bytes(data, 'big'), ''
    while x:
        x, r = divmod(x, 58)
        out = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'[r] + out
    return 'did:key:z' + out


def plc_did(w, op):
    if w.sym:
        from symx import libsym
        b = libsym.b32encode(libsym.content_digest(w.encode(op)))
    else:
        import dag_cbor
        b = base64.b32encode(hashlib.sha256(dag_cbor.encode(op)).digest())
    return 'did:plc:' + b.decode().lower()[:24]


class Directory:
    """https://web.plc.directory/spec/v0.1/did-plc"""
    def __init__(self, ctx, w, keys):
        self.ctx, self.w, self.keys = ctx, w, keys
        self.did, self.log = None, []
        self.refuse, self.posts, self.gets = False, 0, 0

    def last(self):
        return self.log[-1] if self.log else None

    def chain(self):
        return [e for e in self.log if not e['nullified']]

    def add(self, op, recover=0):
        for e in self.chain()[len(self.chain()) - recover:]:
            e['nullified'] = True
        self.log.append({'did': self.did, 'operation': copy.deepcopy(op), 'cid': self.w.b32(self.w.cid_of(op)), 'nullified': False,
                         'createdAt': f'2024-05-06T07:08:0{len(self.log)}.123Z'})

    def get(self, url, **kw):
        self.gets += 1
        self.ctx.check(url == 'https://plc.test/' + self.did + '/log/audit', 'GET URL')
        return Resp(200, copy.deepcopy(self.log))

    def post(self, url, json=None, **kw):
        ctx, op = self.ctx, copy.deepcopy(json)
        self.posts += 1
        ctx.check(set(op) == {'type', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services', 'prev', 'sig'}, 'fields of the operation')
        ctx.check(op['type'] == 'plc_operation', 'type')
        ctx.check(isinstance(op['sig'], str) and isinstance(op['alsoKnownAs'], list), 'types of fields')
        if not self.log:
            ctx.check(op['prev'] is None, 'prev of a new DID')
            did = plc_did(self.w, op)
            ok = self.keys.verify(op['rotationKeys'], op)
        else:
            did = self.did
            ctx.check(op['prev'] == self.last()['cid'], 'prev')
            ok = self.keys.verify(self.last()['operation']['rotationKeys'], op)
        ctx.check(url == 'https://plc.test/' + did, 'POST URL')
        ctx.check(ok, 'signature')
        if self.refuse:
            return Resp(400)
        self.did = did
        self.add(op)
        return Resp(200)


class Resp:
    def __init__(self, status, doc=None):
        self.status_code, self.doc, self.content, self.ok, self.text = status, doc, b'', status < 400, ''

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError('refused')

    def json(self):
        return self.doc


def check_doc(ctx, did, op, doc):
    """https://web.plc.directory/spec/v0.1/did-plc#did-resolution"""
    ctx.check(doc['id'] == did, 'id')
    ctx.check(doc['alsoKnownAs'] == op['alsoKnownAs'], 'alsoKnownAs')
    vm = doc['verificationMethod']
    ctx.check(len(vm) == 1 and vm[0]['id'] == did + '#atproto' and vm[0]['controller'] == did and vm[0]['type'] == 'Multikey'
              and 'did:key:' + vm[0]['publicKeyMultibase'] == op['verificationMethods']['atproto'], 'verificationMethod')
    sv = doc['service']
    ctx.check(len(sv) == 1 and sv[0]['id'] in ('#atproto_pds', did + '#atproto_pds') and sv[0]['type'] == 'AtprotoPersonalDataServer'
              and sv[0]['serviceEndpoint'] == op['services']['atproto_pds']['endpoint'], 'service')


@H(quick=[dict(ops='c'), dict(ops='cu', few=3), dict(ops='cu', few=1), dict(ops='cr', few=1), dict(ops='cr', few=2), dict(ops='cur', few=2), dict(ops='cuxr', few=2), dict(ops='cuur', few=2)],
   thorough=[dict(ops='cu'), dict(ops='cur', few=1), dict(ops='cuuur', few=2),  dict(ops='curr', few=2), dict(ops='cuxur', few=2), dict(ops='curu', few=2)])
def history(ctx, ops, few=0):
    last_few = few
    box = []
    keys_new = lambda curve, *a: box[0].new(curve)
    # new keys are made by the harness
    w = World(ctx, env={'PLC_HOST': 'plc.test', 'PDS_HOST': 'pds.test'},
              overrides={'cryptography.hazmat.primitives.asymmetric.ec': ModProxy(ec, generate_private_key=keys_new)})
    keys = Keys(w)
    box.append(keys)
    D = w.mods.did
    d = Directory(ctx, w, keys)
    rotation = None
    for i, op in enumerate(ops):
        # only the last one has all the options
        few = last_few if i == len(ops) - 1 else max(last_few, 2)
        plain = few == 3     # only aliases and handles
        d.refuse = few < 2 and ctx.flag(f'refuse{i}')
        before, posts = len(d.log), d.posts
        if op == 'x':
            # someone recovers the DID with an operation that replaces the last one
            target = d.chain()[-2]['operation']
            new = {**copy.deepcopy(target), 'alsoKnownAs': ['at://recovered'], 'prev': d.chain()[-2]['cid'], 'sig': 'x'}
            d.add(new, recover=1)
            d.log[-1]['operation']['rotationKeys'] = [encode(rotation)]
            continue
        if op == 'r':
            num = 1 + ctx.choose(f'num{i}', 2)
            wrong = few < 2 and ctx.flag('wrong key')
            chain = d.chain()
            if num >= len(chain) or wrong:
                try:
                    D.rollback_plc(d.did, keys.new() if wrong else rotation, num_operations=num, get_fn=d.get, post_fn=d.post)
                except Exception as e:
                    if isinstance(e, (KeyError, NameError, AttributeError, TypeError)):
                        raise
                else:
                    ctx.fail('rolled back too far or with the wrong key')
                ctx.check(d.posts == posts, 'an operation is sent although it is not valid')
                ctx.reach('no rollback')
                continue
            want = chain[-1 - num]['operation']
            try:
                ret = D.rollback_plc(d.did, rotation, num_operations=num, get_fn=d.get, post_fn=d.post)
            except requests.RequestException:
                ctx.check(d.refuse, 'fails')
                continue
            ctx.check(not d.refuse and len(d.log) == before + 1, 'number of operations')
            got = d.last()['operation']
            for k in want:
                if k not in ('prev', 'sig'):
                    ctx.check(got[k] == want[k], 'what is rolled back to')
            ctx.check(ret is not None and ret.did == d.did, 'DID')
            check_doc(ctx, d.did, got, ret.doc)
            # the rotation key that the directory now has
            rotation = [k for k in keys.keys if encode(k) in got['rotationKeys']][0]
            ctx.reach('rollback')
            continue
        # create and update
        kw = {}
        handle = ctx.str(f'handle{i}', 1 + (ctx.choose(f'len{i}', 2) if not few else 0), alphabet='ab.')
        given = op == 'c' or ctx.flag(f'handle given{i}')
        aka = ctx.choose(f'aka{i}', 5 if not few or plain else 3 if few == 1 or len(ops) == 2 else 2)
        x, y = ctx.str(f'x{i}', 1, alphabet='ab:'), 'https://y'
        alias = (None, [x], [], x, (x, y))[aka]
        if aka:
            kw['also_known_as'] = alias
        pds = 'https://pds.test'
        if few < 2 and ctx.flag(f'pds{i}'):
            pds = kw['pds_url'] = 'https://other' + str(i)
        signing = None
        if op == 'u' or not plain and ctx.flag(f'signing{i}'):
            signing = keys.new(ec.SECP256R1() if few < 2 and ctx.flag(f'curve{i}') else None)
            kw['signing_key'] = signing.public_key() if few < 2 and ctx.flag(f'public{i}') else signing
        if op == 'u' or not plain and ctx.flag(f'rotation{i}'):
            rot = rotation if op == 'u' else keys.new()
            kw['rotation_key'] = rot
        else:
            rot = None
        nrot = None
        if op == 'u' and not plain and ctx.flag(f'new{i}'):
            nrot = keys.new()
            kw['new_rotation_key'] = nrot.public_key() if ctx.flag(f'new public{i}') else nrot
        old = d.last()['operation'] if d.log else None
        posts = d.posts
        if op == 'c' and d.did:
            return
        try:
            if op == 'c':
                ret = D.create_plc(handle, get_fn=d.get, post_fn=d.post, **kw)
            else:
                ret = D.update_plc(d.did, get_fn=d.get, post_fn=d.post, **({'handle': handle} if given else {}), **kw)
        except requests.RequestException:
            ctx.check(d.refuse, 'fails')
            ctx.reach('refused')
            if not d.log:
                return
            continue
        except ValueError:
            ctx.check(signing is not None and isinstance(signing.curve, ec.SECP256R1), 'refuses a valid operation')
            ctx.check(d.posts == posts, 'an operation is sent although it is not valid')
            ctx.reach('invalid')
            if not d.log:
                return
            continue
        ctx.check(not d.refuse, 'no error')
        ctx.check(signing is None or isinstance(signing.curve, ec.SECP256K1), 'key of another curve')
        ctx.check(len(d.log) == before + 1 and d.posts == posts + 1, 'number of operations')
        got = d.last()['operation']
        ctx.check(ret.did == d.did, 'DID')
        check_doc(ctx, d.did, got, ret.doc)
        # the keys that were given or new ones
        if signing is not None:
            ctx.check(ret.signing_key is kw['signing_key'], 'signing key')
        if rot is not None:
            ctx.check(ret.rotation_key is rot, 'rotation key')
        else:
            ctx.check(ret.rotation_key is not ret.signing_key and encode(ret.rotation_key) != encode(ret.signing_key), 'the same key twice')
        ctx.check(got['verificationMethods'] == {'atproto': encode(ret.signing_key)}, 'signing key in the operation')
        ctx.check(got['rotationKeys'] == [encode(nrot or ret.rotation_key)], 'rotation keys')
        rotation = nrot or ret.rotation_key
        if not given:
            names = old['alsoKnownAs'][:1]
        else:
            names = ['at://' + handle]
        if aka and alias:
            names = names + ([alias] if aka == 3 else list(alias))
        elif op == 'u' and not aka:
            names = names + old['alsoKnownAs'][1:]
        ctx.check(len(got['alsoKnownAs']) == len(names), 'number of aliases')
        for a, b in zip(got['alsoKnownAs'], names):
            ctx.check(a == b, 'aliases')
        ctx.check(got['services'] == {'atproto_pds': {'type': 'AtprotoPersonalDataServer', 'endpoint': pds}}, 'services')
        ctx.reach('created' if op == 'c' else 'updated')
    ctx.reach()
