"""C16: signatures are 64 bytes, low-S and verifiable."""
from datetime import timedelta
from repolib import *
from symx.harness import Registry
from symx.values import AND, ITE, NOT, OR

H = Registry()
BOUNDS = ('Any pair (r, s) that signing can return, for the curves secp256k1 and P-256; any 64-byte signature, and other lengths up to 130; objects with one changed, '
          'missing or additional field; service JWTs with any of the optional claims, all expirations 1 s to 60 days, and any current second.')
OUTSIDE = "The elliptic curve arithmetic, and PyJWT's encoding of header and claims."
ASSUMPTIONS = ['ECDSA is ideal: (r, s) and (r, n - s) are the only valid signatures of the signed message under the signing key']


class Key:
    """A key whose (r, s) is any pair."""
    def __init__(self, ctx, w, curve, name=''):
        self.ctx, self.w, self.curve = ctx, w, curve
        self.n = curve.group_order
        self.r = ctx.int('r' + name, 1, self.n - 1)
        self.s = ctx.int('s' + name, 1, self.n - 1)
        self.low = ITE(self.s > self.n // 2, self.n - self.s, self.s)
        self.signed = []

    def sign(self, data, alg):
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import ec, utils
        self.ctx.check(isinstance(alg, ec.ECDSA) and isinstance(alg.algorithm, hashes.SHA256), 'algorithm')
        self.signed.append(data)
        if self.w.sym:
            return libsym.SymDER(self.r, self.s)
        return utils.encode_dss_signature(self.r, self.s)

    def public_key(self):
        return self

    def verify(self, sig, data, alg):
        from cryptography.exceptions import InvalidSignature
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import ec, utils
        self.ctx.check(isinstance(alg, ec.ECDSA) and isinstance(alg.algorithm, hashes.SHA256), 'algorithm')
        r, s = libsym.decode_dss_signature(sig) if self.w.sym else utils.decode_dss_signature(sig)
        if not (data in self.signed and r == self.r and OR(s == self.s, s == self.n - self.s)):
            raise (libsym.InvalidSignature if self.w.sym else InvalidSignature)()

    def __deepcopy__(self, memo):
        return self


def curve_of(ctx):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.SECP256R1() if ctx.flag('P-256') else ec.SECP256K1()


def number(b):
    v = 0
    for x in b:
        v = v * 256 + x
    return v


def objects(ctx, w):
    o = {'did': DID, 'version': 3, 'prev': None, 'n': ctx.int('n', 0, 2 ** 40), 'data': w.cid_n(7)}
    return o


@H(quick=[dict()])
def sign(ctx):
    w = World(ctx)
    U = w.mods.util
    key = Key(ctx, w, curve_of(ctx))
    obj = objects(ctx, w)
    orig = dict(obj)
    out = U.sign(obj, key)
    ctx.check(out is obj, 'returns the object')
    sig = out['sig']
    ctx.check(len(key.signed) >= 1 and key.signed[-1] == w.encode(orig), 'signs the unsigned object')
    ctx.check({k: v for k, v in out.items() if k != 'sig'} == orig, 'other fields')
    ctx.check(type(sig).__name__ == 'SymBytes' or isinstance(sig, bytes), 'bytes')
    ctx.check(len(sig) == 64, 'length')
    ctx.check(number(sig[:32]) == key.r, 'r')
    ctx.check(number(sig[32:]) == key.low, 's')
    ctx.check(number(sig[32:]) <= key.n // 2, 'low-S')
    ctx.check(U.verify_sig(out, key.public_key()), 'verifies')
    ctx.check(out['sig'] == sig and len(out) == len(orig) + 1, 'verifying changes the object')
    ctx.reach()


@H(quick=[dict()])
def mitigation(ctx):
    w = World(ctx)
    U = w.mods.util
    key = Key(ctx, w, curve_of(ctx))
    der = U.apply_low_s_mitigation(key.sign(b'x', _alg()), key.curve)
    if w.sym:
        r, s = libsym.decode_dss_signature(der)
    else:
        from cryptography.hazmat.primitives.asymmetric import utils
        r, s = utils.decode_dss_signature(der)
    ctx.check(r == key.r, 'r')
    ctx.check(s == key.low, 's')
    again = U.apply_low_s_mitigation(der, key.curve)
    if w.sym:
        ctx.check(AND(again.r == r, again.s == s), 'idempotent')
    else:
        ctx.check(again == der, 'idempotent')
    ctx.reach()


def _alg():
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.ECDSA(hashes.SHA256())


@H(quick=[dict()])
def verify(ctx):
    w = World(ctx)
    U = w.mods.util
    curve = curve_of(ctx)
    key = Key(ctx, w, curve)
    obj = U.sign(objects(ctx, w), key)
    kind = ('sig', 'length', 'changed', 'extra', 'missing field', 'nested', 'other key', 'no sig')[ctx.choose('kind', 8)]
    public = key.public_key()
    good = False
    if kind == 'sig':
        r, s = ctx.int('r given', 0, 2 ** 256 - 1), ctx.int('s given', 0, 2 ** 256 - 1)
        obj['sig'] = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
        ctx.assume(NOT(AND(r == key.r, s == key.n - key.low)))      # high-S
        good = AND(r == key.r, s == key.low)
    elif kind == 'length':
        n = (0, 1, 31, 32, 33, 63, 65, 66, 96, 127, 128, 130)[ctx.choose('len', 12)]
        obj['sig'] = ctx.bytes('bytes', n)
    elif kind == 'changed':
        f = ('did', 'version', 'prev', 'n', 'data')[ctx.choose('field', 5)]
        obj[f] = {'did': 'did:web:eve.com', 'version': 2, 'prev': w.cid_n(1), 'n': obj['n'] + ctx.int('by', 1, 100), 'data': w.cid_n(8)}[f]
    elif kind == 'extra':
        obj['x'] = ctx.int('x', 0, 5)
    elif kind == 'missing field':
        del obj[('did', 'version', 'prev', 'n', 'data')[ctx.choose('field', 5)]]
    elif kind == 'nested':
        obj['data'] = {'x': obj['data']}
    elif kind == 'other key':
        public = Key(ctx, w, curve, ' other').public_key()
        ctx.assume(NOT(public.r == key.r))
    else:
        del obj['sig']
    before = dict(obj)
    try:
        got = U.verify_sig(obj, public)
    except KeyError:
        ctx.check(kind == 'no sig', 'KeyError')
    else:
        ctx.check(kind != 'no sig', 'no signature')
        ctx.check(bool(got) == bool(good), 'valid' if got else 'not valid')
    ctx.check(obj.keys() == before.keys() and AND(*[obj[k] == v for k, v in before.items()]), 'verifying changes the object')
    ctx.reach()


@H(quick=[dict(all=False)], thorough=[dict(all=True)])
def jwts(ctx, all):
    """Service JWTs."""
    tokens = []

    def encode(payload, privkey, algorithm=None, **kw):
        from jwt import encode as _
        ctx.check(algorithm == 'ES256K', 'algorithm')
        privkey.sign(b'input', _alg())
        tokens.append(dict(payload))
        raw = privkey.r.to_bytes(32, 'big') + privkey.s.to_bytes(32, 'big')
        if w.sym:
            sig = libsym.b64encode(raw, '-_').rstrip(b'=').decode()
        else:
            import base64
            sig = base64.urlsafe_b64encode(raw).rstrip(b'=').decode()
        return f'head-_er.payload{len(tokens)}-_x.' + sig
    import jwt as real
    from symx.loader import ModProxy
    w = World(ctx, overrides={'jwt': ModProxy(real, encode=encode)})
    from cryptography.hazmat.primitives.asymmetric import ec
    U = w.mods.util
    key = Key(ctx, w, ec.SECP256K1())
    w.now_us = ctx.int('now', 1_500_000_000, 5_000_000_000) * 1_000_000
    kw = {}
    if ctx.flag('aud given'):
        kw['aud'] = 'did:plc:mod'
    if ctx.flag('claim'):
        kw['lxm'] = 'com.example.method'
    exp = 600
    if ctx.flag('expiration given'):
        exp = (1, 59, 86400, 60 * 86400)[ctx.choose('expiration', 4)]
        kw['expiration'] = timedelta(seconds=exp)
    token = U.service_jwt('bsky.network', DID, key, **kw)
    ctx.check(len(tokens) >= 1, 'encoded')
    claims = tokens[-1]
    ctx.check(claims['iss'] == DID, 'iss')
    ctx.check(claims['aud'] == kw.get('aud', 'did:web:bsky.network'), 'aud')
    ctx.check(claims.get('lxm') == kw.get('lxm'), 'claims')
    end = w.now_us // 1_000_000 + exp
    ctx.check(AND(claims['exp'] >= end - 1, claims['exp'] <= end + 1), 'exp')
    prefix = f'head-_er.payload{len(tokens)}-_x.'
    ctx.check(token.startswith(prefix), 'signing input')
    sig = token[len(prefix):]
    ctx.check(len(sig) == 86, 'length of the signature')
    for c in sig:
        for bad in '+/=.':
            ctx.check(NOT(c == bad), 'base64url alphabet')
    raw = libsym.b64decode(sig + '==', '-_') if w.sym else __import__('base64').urlsafe_b64decode(sig + '==')
    ctx.check(len(raw) == 64, 'length')
    ctx.check(number(raw[:32]) == key.r, 'r')
    ctx.check(number(raw[32:]) == key.low, 's')
    ctx.check(number(raw[32:]) <= key.n // 2, 'low-S')
    ctx.reach()
