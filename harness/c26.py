"""C26: DIDs, handles and AT URIs resolve to exactly what they should."""
import types
import requests
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy
from symx.values import is_sym
from symx.world import NOW_US

H = Registry()
HOUR = 3_600_000_000
BOUNDS = ('DIDs: any string of up to 3 (thorough 4) characters of "ab:./-" after each of nine prefixes, some with percent-encoding; 1-2 (thorough 3) calls for equal or different DIDs at any times, '
          'each with a response that is good, an error, or none. Handles: all strings of up to 5 (thorough 7) characters, and labels of 62-64, ending in any one; DNS with any of ten kinds '
          'of answer, and HTTPS with any of six. AT URIs: any DID, collection and record key of up to 2 (thorough 3) characters after a prefix; DID documents with up to 2 (thorough 3) '
          'aliases and keys.')
OUTSIDE = 'The limit of 253 characters for handles. Cached handles and documents when there are over 5000.'
ASSUMPTIONS = ['cachetools and DNS are modelled']


class Cache:
    """cachetools.TTLCache and cached"""
    def __init__(self, w):
        self.w = w

    def TTLCache(self, maxsize, ttl, timer=None, getsizeof=None):
        return types.SimpleNamespace(ttl=ttl, items=[], clear=lambda: None)

    def cached(self, cache, key=None, lock=None, **kw_):
        import functools

        def dec(fn):
            @functools.wraps(fn)
            def run(*args, **kw):
                now = self.w().time_us()
                k = key(*args, **kw) if key else (args, tuple(sorted(kw.items())))
                for k2, val, at in cache.items:
                    if same(k, k2) and now < at + int(cache.ttl * 1_000_000):
                        return val
                val = fn(*args, **kw)
                cache.items.insert(0, (k, val, now))
                return val
            run.cache = cache
            return run
        return dec


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if type(a) is type(b) or is_sym(a) or is_sym(b):
        r = a == b
        return bool(r)
    return False


def setup(ctx):
    import cachetools
    box = []
    c = Cache(lambda: box[0])
    w = World(ctx, env={'PLC_HOST': 'plc.test', 'PDS_HOST': 'pds.test'},
              overrides={'cachetools': ModProxy(cachetools, TTLCache=c.TTLCache, cached=c.cached)})
    box.append(w)
    return w


class Resp:
    def __init__(self, status, doc=None, text=''):
        self.status_code, self.doc, self.text = status, doc, text
        self.ok = status < 400

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError('error')

    def json(self):
        return self.doc


PREFIXES = ('did:plc:', 'did:web:', 'did:', '', 'did:key:', 'DID:web:', ' did:web:', 'at://did:web:', 'did:webx:')
QUOTED = ('localhost%3A8080', 'localhost%3A8080:user', 'a.com:x%3Ay', 'a.com:u:v')


@H(quick=[dict(calls=1, n=0), dict(calls=1, n=1), dict(calls=1, n=3), dict(calls=2, n=1, few=True)],
   thorough=[dict(calls=1, n=4), dict(calls=2, n=2, few=True), dict(calls=3, n=1, few=True)])
def dids(ctx, calls, n, few=False):
    w = setup(ctx)
    D = w.mods.did
    now = NOW_US
    seen = []       # [(did, doc, time)]
    for i in range(calls):
        now = now + (ctx.int(f'dt{i}', 0, 12 * HOUR) if i else 0)
        w.clock_hook = lambda: now
        prefix = PREFIXES[ctx.choose(f'prefix{i}', 2 if few else len(PREFIXES))]
        if n > 2 and ctx.flag('quoted'):
            rest = QUOTED[ctx.choose('which', len(QUOTED))]
        else:
            rest = ctx.str(f'rest{i}', n, alphabet='ab' if few else 'ab:./-') if n else ''
        did = prefix + rest
        good = prefix in ('did:plc:', 'did:web:')
        kind = ('ok', 'error', 'none')[ctx.choose(f'kind{i}', 3)]
        doc = {'id': did, 'n': i}
        urls = []

        def get(url, **kw):
            urls.append(url)
            if kind == 'none':
                raise requests.ConnectionError('no')
            return Resp({'ok': 200, 'error': 404}[kind], doc)
        shared = seen_get(w, get)
        try:
            fns = (D.resolve, D.resolve_plc if prefix == 'did:plc:' else D.resolve_web)
            ret = fns[ctx.choose(f'fn{i}', 2) if calls == 1 else 0](did, get_fn=shared)
        except requests.RequestException:
            ctx.check(good and kind != 'ok', 'a request fails')
            ctx.reach('failed')
        except ValueError:
            ctx.check(not good and not urls, 'a DID is refused')
            ctx.reach('invalid')
            continue
        else:
            ctx.check(good, 'not a DID that can be resolved')
            if not urls:
                old = [s for s in seen if s[0] == did and s[1] == ret]
                ctx.check(len(old) > 0, 'a document without a request')
                ctx.check(now - old[-1][2] < 6 * HOUR, 'an old document')
                ctx.reach('cached')
                continue
            ctx.check(kind == 'ok' and ret == doc, 'document')
            ctx.reach('ok')
        if any(s[0] == did and now - s[2] < 6 * HOUR for s in seen):
            ctx.check(not urls, 'a request for a DID that is cached')
        ctx.check(len(urls) == 1, 'number of requests')
        if kind == 'ok':
            seen.append((did, doc, now))
        if prefix == 'did:plc:':
            ctx.check(urls[0] == 'https://plc.test/' + did, 'URL')
        else:
            import urllib.parse
            parts = split(rest, ':')
            if not is_sym(rest):
                parts = [urllib.parse.unquote(p) for p in parts]
            if len(parts) == 1:
                want = 'https://' + parts[0] + '/.well-known/did.json'
            else:
                want = 'https://' + parts[0]
                for p in parts[1:]:
                    want = want + '/' + p
                want = want + '/did.json'
            ctx.check(urls[0] == want, 'URL')
    ctx.reach()


def seen_get(w, get):
    # one function for all calls, like session.get
    if not hasattr(w, 'get_box'):
        w.get_box = {}
        w.get_fn = lambda url, **kw: w.get_box['fn'](url, **kw)
    w.get_box['fn'] = get
    return w.get_fn


def split(s, sep):
    out, part = [], ''
    for i in range(len(s)):
        c = s[i]
        if c == sep:
            out.append(part)
            part = ''
        else:
            part = part + c
    return out + [part]


def valid_handle(s):
    """https://atproto.com/specs/handle#handle-identifier-syntax, without the total length"""
    labels, label = [], []
    for i in range(len(s)):
        c = s[i]
        if c == '.':
            labels.append(label)
            label = []
        elif is_letter(c):
            label.append('a')
        elif ('0' <= c) & (c <= '9'):
            label.append('0')
        elif c == '-':
            label.append('-')
        else:
            return False
    labels.append(label)
    if len(labels) < 2:
        return False
    for l in labels:
        if not 1 <= len(l) <= 63 or l[0] == '-' or l[-1] == '-':
            return False
    return labels[-1][0] == 'a'


def is_letter(c):
    return (('a' <= c) & (c <= 'z')) | (('A' <= c) & (c <= 'Z'))


@H(quick=[dict(n=n) for n in (0, 1, 2, 3, 4, 5)], thorough=[dict(n=6), dict(n=7)])
def handle_syntax(ctx, n):
    w = setup(ctx)
    handle = ctx.str('handle', n, lo=0, hi=0x10ff) if n else ('', None, 5)[ctx.choose('other', 3)]
    check_syntax(ctx, w, handle)


@H(quick=[dict()], thorough=[dict(more=True)])
def handle_labels(ctx, more=False):
    w = setup(ctx)
    n = (61, 62, 63)[ctx.choose('len', 3)]
    where = ctx.choose('where', 3)
    label = ctx.str('first', 1, alphabet='a0-.') + 'x' * (n - 1) + ctx.str('last', 1, alphabet='a0-.')
    handle = [label + '.com', 'a.' + label, 'a.' + label + '.b'][where]
    check_syntax(ctx, w, handle)


def check_syntax(ctx, w, handle):
    D = w.mods.did
    used = []

    def fail_dns(name, t):
        used.append(name)
        raise D.DNSException('no')

    def get(url, **kw):
        used.append(url)
        return Resp(404)
    D.dns = types.SimpleNamespace(resolver=types.SimpleNamespace(resolve=fail_dns))
    try:
        ret = D.resolve_handle(handle, get_fn=get)
    except ValueError:
        ctx.check(not used, 'a request for an invalid handle')
        ctx.check(not isinstance(handle, str) or not valid_handle(handle), 'a valid handle is refused')
        ctx.reach('invalid')
    else:
        ctx.check(isinstance(handle, str) and valid_handle(handle), 'an invalid handle is accepted')
        ctx.check(ret is None, 'a handle that does not exist')
        ctx.check(len(used) == 2 and used[0] == '_atproto.' + handle + '.' and used[1] == 'https://' + handle + '/.well-known/atproto-did', 'requests')
    ctx.reach()


DNS = ('none', 'exception', 'did', 'other txt', 'other, did', 'other type', 'cname', 'not did', 'two', 'prefix')
HTTP = ('did', 'none', '404', 'not did', 'spaces', 'empty')


@H(quick=[dict(n=1), dict(n=2, calls=2)], thorough=[dict(n=3), dict(n=1, calls=3)])
def handles(ctx, n, calls=1):
    w = setup(ctx)
    D = w.mods.did
    from dns.rdatatype import TXT, A
    now = NOW_US
    cached = None

    class Text:
        def __init__(self, text, t=TXT):
            self.text, self.rdtype = text, t

        def to_text(self):
            return self.text
    for i in range(calls):
        now = now + (ctx.int(f'dt{i}', 0, 12 * HOUR) if i else 0)
        w.clock_hook = lambda: now
        a = 'did:web:' + ctx.str(f'a{i}', n, alphabet='ab.')
        b = 'did:plc:' + ctx.str(f'b{i}', n, alphabet='ab.')
        dns = DNS[ctx.choose(f'dns{i}', len(DNS))] if calls == 1 else ('none', 'did')[ctx.choose(f'dns{i}', 2)]
        http = HTTP[ctx.choose(f'http{i}', len(HTTP))] if calls == 1 else ('did', '404')[ctx.choose(f'http{i}', 2)]
        used = []
        txt = lambda d: Text('"did=' + d + '"')
        rows = {'none': [], 'did': [txt(a)], 'other txt': [Text('"v=spf1"')], 'other, did': [Text('"x"'), Text('127.0.0.1', A), txt(a)],
                'other type': [Text('"did=' + a + '"', A)], 'cname': [txt(a)], 'not did': [Text('"did=x"')], 'two': [txt(a), txt(b)],
                'prefix': [Text('"xdid=' + a + '"'), Text('"' + a + '"')]}.get(dns)
        want = a if dns in ('did', 'other, did', 'two') else None

        def resolve(name, t):
            used.append('dns')
            ctx.check(name == '_atproto.h.com.' and t == TXT, 'DNS query')
            if dns == 'exception':
                raise D.DNSException('no')

            class Answer(list):
                response = 'r'
                canonical_name = types.SimpleNamespace(to_text=lambda: 'other.com.' if dns == 'cname' else '_atproto.h.com.')
            return Answer(rows)

        def get(url, **kw):
            used.append('http')
            ctx.check(url == 'https://h.com/.well-known/atproto-did', 'URL')
            if http == 'none':
                raise requests.ConnectionError('no')
            text = {'did': b, '404': b, 'not did': 'x' + b, 'spaces': ' ' + b + '\n', 'empty': ''}[http]
            return Resp(404 if http == '404' else 200, text=text)
        if want is None and http in ('did', 'spaces'):
            want = b
        D.dns = types.SimpleNamespace(resolver=types.SimpleNamespace(resolve=resolve))
        got = D.resolve_handle('h.com', get_fn=seen_get(w, get))
        if not used:
            ctx.check(cached is not None and now - cached[1] < 6 * HOUR, 'an old result')
            want = cached[0]
            ctx.reach('cached') if i else None
        else:
            cached = (want, now)
        if want is None:
            ctx.check(got is None, 'a DID although there is none')
        else:
            ctx.check(got is not None and got == want, 'DID')
        ctx.check('dns' in used or not used, 'no DNS query')
    ctx.reach()


@H(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def at_uris(ctx, n):
    w = setup(ctx)
    U = w.mods.util
    did = ('did:plc:', 'did:web:', 'h')[ctx.choose('did', 3)] + ctx.str('d', n, alphabet='aZ0.-_:')
    coll = 'co' + ctx.str('c', n, alphabet='aZ0.-')
    rkey = ctx.str('r', n, alphabet='aZ0.-_~:')
    uri = U.at_uri(did, coll, rkey)
    ctx.check(uri == 'at://' + did + '/' + coll + '/' + rkey, 'at_uri')
    for u, want in ((uri, (did, coll, rkey)), ('at://' + did, (did, '', '')), ('at://' + did + '/' + coll, (did, coll, ''))):
        got = U.parse_at_uri(u)
        ctx.check(len(got) == 3, 'parts')
        for x, y in zip(got, want):
            ctx.check(x == y, 'parse_at_uri')
    try:
        ctx.check(len(U.parse_at_uri(uri + '/x')) == 3, 'parts')
    except ValueError:
        pass
    # other schemes
    bad = ctx.str('bad', 5, alphabet='at:/ ') + did
    if not (bad.startswith('at://')):
        try:
            U.parse_at_uri(bad)
            ctx.fail('not an AT URI, but accepted')
        except ValueError:
            ctx.reach('bad')
    # repos by URI
    st = mem(w)
    loaded = []
    w.mods.server.storage = types.SimpleNamespace(load_repo=lambda d: loaded.append(d) or types.SimpleNamespace(status=None, did=d))
    w.mods.server.load_repo((uri, 'at://' + did, did)[ctx.choose('load', 3)])
    ctx.check(len(loaded) == 1 and loaded[0] == did, 'load_repo')
    # handle in a DID document
    got = w.mods.did.get_handle({'alsoKnownAs': ['https://x/', 'at://' + did]})
    ctx.check(got == did, 'get_handle')
    ctx.reach()


@H(quick=[dict(n=0), dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def docs(ctx, n):
    from cryptography.hazmat.primitives.asymmetric import ec
    w = setup(ctx)
    D = w.mods.did
    akas = ('at://a.com', 'https://a.com', 'at://b.com', 'acct:at://c.com')
    aka = [akas[ctx.choose(f'aka{i}', len(akas))] for i in range(n)]
    doc = {'id': 'did:web:x'}
    if n or ctx.flag('empty'):
        doc['alsoKnownAs'] = aka
    handles = [a[5:] for a in aka if a.startswith('at://')]
    ctx.check(D.get_handle(doc) == (handles[0] if handles else None), 'get_handle')
    curves = (ec.SECP256K1(), ec.SECP256R1())
    methods, want = [], None
    for i in range(n):
        key = ec.derive_private_key(1000 + i, curves[ctx.choose(f'curve{i}', 2)]).public_key()
        did_key = D.encode_did_key(key)
        ctx.check(did_key.startswith('did:key:z'), 'did:key')
        back = D.decode_did_key(did_key)
        ctx.check(back.public_numbers() == key.public_numbers() and back.curve.name == key.curve.name, 'did:key round trip')
        id = ('did:web:x#atproto', 'did:web:x#other', '#atproto', 'did:web:y#atproto', None)[ctx.choose(f'id{i}', 5)]
        m = {'type': 'Multikey', 'controller': 'did:web:x'}
        if id:
            m['id'] = id
        if not ctx.flag(f'nokey{i}'):
            m['publicKeyMultibase'] = did_key[len('did:key:'):]
            if id == 'did:web:x#atproto' and want is None:
                want = key
        methods.append(m)
    if n:
        doc['verificationMethod'] = methods
    if ctx.flag('no id'):
        del doc['id']
        want = None
    got = D.get_signing_key(doc)
    ctx.check((got is None) == (want is None), 'signing key')
    if want is not None:
        ctx.check(got.public_numbers() == want.public_numbers(), 'signing key')
    bad = ec.derive_private_key(7, ec.SECP384R1()).public_key()
    try:
        D.encode_did_key(bad)
        ctx.fail('another curve')
    except ValueError:
        pass
    ctx.reach()
