"""C17: only callers with the token (or password) can change or get at anything protected."""
import datetime as _dt
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy
from symx.values import AND, NOT, OR

H = Registry()
BOUNDS = ('All tokens and passwords of up to 3 (thorough 5) printable characters, or not set; all Authorization headers of up to 10 (thorough 12) printable characters, '
          'or none (for getRepo, one less); all methods that need authorization, with one repo and record; createSession by DID or handle; getRepo at any age of the repo.')
OUTSIDE = 'How Flask parses headers. Subscriptions. importRepo with a valid token (C20).'
ASSUMPTIONS = []


def flask_stub(headers):
    import flask, types
    return {'flask': ModProxy(flask, request=types.SimpleNamespace(headers=headers))}


def setup(ctx, w):
    items = [(f'{REC}/one', w.cid_of(w.record(0)))]
    env = Env(w, items, handle='han.dle')
    put_record(w, env.st, w.record(0))
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    return env


def secret(ctx, name, n):
    """A configured secret: None, '' or n characters."""
    n = ctx.choose(f'{name} length', n + 2) - 1
    return None if n < 0 else ctx.str(name, n)


def header(ctx, headers, token, n):
    kind = ctx.choose('header kind', 3)
    if kind == 0:
        return None
    if kind == 1 and token is not None:
        headers['Authorization'] = 'Bearer ' + token
    else:
        headers['Authorization'] = ctx.str('header', ctx.choose('header length', n + 1), lo=0x20, hi=0x7e)
    return headers['Authorization']


def setenv(env, name, val):
    env.pop(name, None)
    if val is not None:
        env[name] = val


METHODS = ('createRecord', 'putRecord', 'deleteRecord', 'applyWrites', 'uploadBlob', 'importRepo', 'getSession', 'refreshSession')


@H(quick=[dict(method=m, n=3, h=10) for m in METHODS], thorough=[dict(method=m, n=5, h=12) for m in METHODS])
def protected(ctx, method, n, h):
    headers = {}
    w = World(ctx, env={'REPO_TOKEN': 'x'}, overrides=flask_stub(headers))
    M = w.mods
    env = setup(ctx, w)
    st = env.st
    token = secret(ctx, 'token', n)
    setenv(w.environ, 'REPO_TOKEN', token)
    head = header(ctx, headers, token, h)
    allowed = bool(token is not None and len(token) and head is not None and head == 'Bearer ' + token)
    imported = []
    M.xrpc_repo.read_car = lambda *a, **kw: imported.append(1) or ([], [])
    M.server.repo = env.repo
    calls = {
        'createRecord': lambda: M.xrpc_repo.create_record({'repo': DID, 'collection': REC, 'record': w.record(5)}),
        'putRecord': lambda: M.xrpc_repo.put_record({'repo': DID, 'collection': REC, 'rkey': 'one', 'record': w.record(5)}),
        'deleteRecord': lambda: M.xrpc_repo.delete_record({'repo': DID, 'collection': REC, 'rkey': 'one'}),
        'applyWrites': lambda: M.xrpc_repo.apply_writes({'repo': DID, 'writes': []}),
        'uploadBlob': lambda: M.xrpc_repo.upload_blob(b'data'),
        'importRepo': lambda: M.xrpc_repo.import_repo(b'car'),
        'getSession': lambda: M.xrpc_server.get_session({}),
        'refreshSession': lambda: M.xrpc_server.refresh_session({}),
    }
    blocks = dict(st.blocks)
    result = err = None
    try:
        result = calls[method]()
    except (ValueError, NotImplementedError) as e:
        err = e
    if not allowed:
        ctx.check(err is not None, 'allowed without the token')
        ctx.check(method == 'uploadBlob' or isinstance(err, NotImplementedError) == (token is None or not len(token)), 'kind of error')
        ctx.check(len(st.blocks) == len(blocks) and st.load_repo(DID).head.cid == env.head.cid, 'changed without the token')
        ctx.check(st.sequences.last(NSID) == 1, 'a sequence number was used without the token')
        ctx.check(not imported, 'a CAR was read without the token')
        ctx.reach('refused')
    elif method == 'importRepo':
        ctx.check(err is not None and imported, 'refused with the token')
    elif method != 'uploadBlob':        # always fails, since it isn't implemented
        ctx.check(err is None, 'refused with the token')
        changed = st.load_repo(DID).head.cid != env.head.cid
        ctx.check(changed == (method in ('createRecord', 'putRecord', 'deleteRecord')), 'effect')
        if method == 'refreshSession':
            ctx.check(result['accessJwt'] == token and result['refreshJwt'] == token, 'token')
        ctx.reach('allowed')
    ctx.reach()


@H(quick=[dict(n=3)], thorough=[dict(n=5)])
def session(ctx, n):
    """createSession."""
    headers = {}
    w = World(ctx, env={'REPO_TOKEN': 'x'}, overrides=flask_stub(headers))
    env = setup(ctx, w)
    token = ctx.str('token', 3)
    setenv(w.environ, 'REPO_TOKEN', token)
    password = secret(ctx, 'password', n)
    setenv(w.environ, 'REPO_PASSWORD', password)
    who = (DID, 'han.dle', 'did:web:other.com', 'other.com')[ctx.choose('identifier', 4)]
    input = {'identifier': who}
    given = secret(ctx, 'given', n)
    if given is not None:
        input['password'] = given
    allowed = bool(who in (DID, 'han.dle') and password is not None and len(password) and given is not None and given == password)
    try:
        got = w.mods.xrpc_server.create_session(input)
    except (ValueError, KeyError):
        ctx.check(not allowed, 'refused with the password')
        ctx.reach('refused')
    else:
        ctx.check(allowed, 'a token without the password')
        ctx.check(got['accessJwt'] == token and got['refreshJwt'] == token, 'token')
        ctx.check(got['did'] == DID and got['handle'] == 'han.dle', 'repo')
        ctx.reach('allowed')
    ctx.reach()


@H(quick=[dict(n=2, h=9)], thorough=[dict(n=4, h=11)])
def disabled(ctx, n, h):
    """getRepo when DISABLE_GETREPO is set."""
    headers = {}
    w = World(ctx, overrides=flask_stub(headers))
    env = setup(ctx, w)
    U = w.mods.util
    U.DISABLE_GETREPO = ctx.flag('disabled')
    token = U.GETREPO_TOKEN = secret(ctx, 'token', n)
    head = header(ctx, headers, token, h)
    right = bool(token is not None and len(token) and head is not None and head == 'Bearer ' + token)
    if head is not None and not right and token:
        # surrounding whitespace, or no Bearer, are fine too
        ctx.assume(NOT(OR(*[head[i:i + len(token)] == token for i in range(len(head))], False)))
    internal = ctx.flag('internal')
    created = None
    age = 0
    if ctx.flag('created'):
        age = ctx.int('age', 0, 2 * 86400) * 1_000_000
        created = w.datetime_of(w.now_us - age)
    env.repo.created = created
    env.st.repos[DID] = env.repo
    allowed = bool(OR(not U.DISABLE_GETREPO, internal, right, created is None, age <= 12 * 3600 * 1_000_000))
    try:
        w.mods.xrpc_sync.get_repo({}, did=DID, internal=internal)
    except NotImplementedError:
        ctx.check(not allowed, 'refused')
        ctx.reach('refused')
    else:
        ctx.check(allowed, 'allowed')
        ctx.reach('allowed')
    ctx.reach()
