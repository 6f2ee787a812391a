"""C24: remote blobs describe the content at their URLs, within the limits."""
import datetime as _dt
import requests
from symx.world import NOW_US
from repolib import *
from symx.harness import Registry
from symx.loader import ModProxy
from symx.sched import Sched

H = Registry()
MAX = 4                                 # BLOB_MAX_BYTES
DAY = 86_400_000_000
BOUNDS = ('Histories of 1-2 (thorough 3) get_or_create calls for one URL from any of two repos or none, at any times, each with an HTTP response of any status 200-599, '
          'a connection error before or in the middle of the body, any content of 0-2 or 5-6 bytes (BLOB_MAX_BYTES is 4), right, missing, or malformed Content-Length, any of four types, or none, '
          'metadata of any size and duration or none, any max_size and accept; two calls at once with at most 1 preemption (thorough 2); a call that ends at any Datastore operation or part of the request; URLs with and without an extension. getBlob: up to 2 (thorough 3) blobs that are active or not and due or not.')
OUTSIDE = 'URLs over 1500 bytes. More than two concurrent calls, or ones that find different content. What MediaInfo finds in the content. That a dishonest Content-Length differs from the content.'
ASSUMPTIONS = ['SHA-256 is injective', 'ndb is modelled']
URLS = ('http://x/a.png', 'http://x/b')
REPOS = (None, 'did:web:a', 'did:web:b')


class Media:
    """What MediaInfo finds, by content."""
    def __init__(self):
        self.next = None

    def parse(self, f):
        import types
        m = self.next
        if m is None:
            raise RuntimeError('no library')
        kind, width, height, duration = m
        t = types.SimpleNamespace(width=width, height=height, duration=duration)
        return types.SimpleNamespace(video_tracks=[t] if kind == 'video' else [], image_tracks=[t] if kind == 'image' else [])


class Resp:
    def __init__(self, status, content, headers, broken, url):
        self.status_code, self._content, self.headers, self.broken, self.url = status, content, headers, broken, url

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError('error', response=None)

    @property
    def content(self):
        if self.broken:
            raise requests.exceptions.ChunkedEncodingError('connection lost')
        return self._content


def content_cid(w, data):
    if w.sym:
        return libsym.SymCIDStr(libsym.SymCID.new('content', ('raw', data)))
    from multiformats import CID, multihash
    return CID('base58btc', 1, 'raw', multihash.digest(data, 'sha2-256')).encode('base32')


def setup(ctx, **kw):
    import pymediainfo
    media = Media()
    ov = {'pymediainfo': ModProxy(pymediainfo, MediaInfo=media)}
    if ctx.symbolic:
        # only wraps content
        import io
        ov['io'] = ModProxy(io, BytesIO=lambda x: x)
    w = World(ctx, env={'BLOB_MAX_BYTES': str(MAX), 'BLOB_REFETCH_DAYS': '7', 'BLOB_REFETCH_TYPES': 'image'}, overrides=ov, **kw)
    w.media = media
    return w


def response(ctx, w, i, url, full=True):
    """-> (get_fn result or exception, description)"""
    kind = ('ok', 'status', 'connection', 'broken')[ctx.choose(f'kind{i}', 4)]
    if kind == 'connection':
        return None, dict(kind=kind)
    status = ctx.int(f'status{i}', 400, 599) if kind == 'status' else ctx.int(f'status{i}', 200, 399)
    if kind == 'status':
        return Resp(status, b'', {}, False, url), dict(kind=kind, status=status)
    n = (2, 5, 0)[ctx.choose(f'len{i}', 3 if full else 2)]
    data = ctx.bytes(f'data{i}', n) if n else b''
    types = ('image/png', 'video/mp4', None, 'text/x') if full else ('image/png', 'video/mp4')
    mime = types[ctx.choose(f'type{i}', len(types))]
    headers = {} if mime is None else {'Content-Type': mime}
    length = ('right', 'none', 'bad')[ctx.choose(f'length{i}', 3 if full else 2)]
    if length != 'none':
        headers['Content-Length'] = str(n) if length == 'right' else 'x'
    meta = None
    k = ctx.choose(f'meta{i}', 4 if full else 2)
    if k == 1:
        meta = ('image', ctx.int(f'width{i}', 1, 1000), ctx.int(f'height{i}', 1, 1000), None)
    elif k == 0 and mime == 'video/mp4' or k == 2:
        meta = ('video', ctx.int(f'width{i}', 1, 1000), ctx.int(f'height{i}', 1, 1000), ctx.int(f'duration{i}', 1, 400_000))
    elif k == 3:
        meta = ('none', None, None, None)
    guess = 'image/png' if url.endswith('.png') else None
    return Resp(status, data, headers, kind == 'broken', url), dict(
        kind=kind, n=n, data=data, mime=mime or guess or 'application/octet-stream', length=length, meta=meta)


@H(quick=[dict(steps=1), dict(steps=2, full=False)], thorough=[dict(steps=2), dict(steps=3, full=False)])
def histories(ctx, steps, full=True):
    w = setup(ctx)
    D = w.mods.datastore_storage
    url = URLS[ctx.choose('url', 2)] if full else URLS[0]
    client = w.ndb.Client()
    # what should be there
    fetched = None          # description of the content that was fetched last
    inactive = False
    last = None             # time of the last request
    too_big = False         # not downloaded, because of Content-Length
    mime = 'application/octet-stream'
    repos = []
    now = NOW_US
    requests_made = [0]
    with client.context():
        for i in range(steps):
            now = now + (ctx.int(f'dt{i}', 0, 20 * DAY) if i else 0)
            w.clock_hook = lambda: now
            repo = REPOS[ctx.choose(f'repo{i}', 3)] if i or steps > 1 and full else REPOS[1]
            resp, d = response(ctx, w, i, url, full)
            # ctx.int or None
            max_size = ctx.int(f'max{i}', 1, 8) if (full or i == steps - 1) and ctx.flag(f'has max{i}') else None
            refuse = full and ctx.flag(f'refuse{i}')
            accept = ['x/y'] if refuse else None
            asked = []

            def hook(mime_, accept_, name='', **kw):
                asked.append((mime_, accept_))
                if accept_:
                    raise D.ValidationError('type')
            if w.sym:
                w.mods.server.server.mime_hook = hook
            else:
                w.mods.server.server.validate_mime_type = hook
            calls = []

            def get(u, **kw):
                calls.append(u)
                w.media.next = d.get('meta')
                if resp is None:
                    raise requests.ConnectionError('no')
                return resp
            atp_repo = D.AtpRepo(id=repo) if repo else None
            outcome = 'ok'
            blob = None
            try:
                blob = D.AtpRemoteBlob.get_or_create(url=url, repo=atp_repo, get_fn=get, max_size=max_size, accept_types=accept, name='n')
            except D.ValidationError:
                outcome = 'invalid'
            except requests.RequestException:
                outcome = 'failed'
            if repo and repo not in repos:
                repos.append(repo)
            row = ds_rows(w, 'AtpRemoteBlob')[url]
            ctx.check([k.id() for k in row['repos']] == repos, 'repos of the blob')
            if inactive:
                ctx.check(outcome == 'failed' and not calls, 'an inactive blob is used')
                continue
            # is a request due?
            if last is None:
                due = True
            elif mime.split('/')[0] != 'image':
                due = False
            else:
                due = now - last > 7 * DAY
            if due:
                ctx.check(len(calls) == 1 and calls[0] == url, 'not fetched although it is due')
                ctx.reach('fetched')
            else:
                ctx.check(not calls, 'fetched although it is not due')
                ctx.reach('not fetched')
            if due:
                last = now
                if d['kind'] in ('status', 'connection') or (d['kind'] == 'broken' and not (d['length'] == 'right' and d['n'] > MAX)):
                    ctx.check(outcome == 'failed', 'a failed request is taken for a blob')
                    gone = d['kind'] == 'status' and d['status'] < 500
                    inactive = gone or fetched is None
                    ctx.check((row.get('status') == 'inactive') == inactive, 'inactive')
                    if fetched is not None:
                        ctx.check(row['cid'] == content_cid(w, fetched['data']), 'old content')
                    continue
                mime = d['mime']
                if d['length'] == 'right' and d['n'] > MAX:
                    too_big = True
                    ctx.check(outcome == 'invalid', 'a blob over BLOB_MAX_BYTES')
                    continue
                too_big = False
                fetched = d
            if fetched is None:
                # only ever saw that it's too big
                ctx.check(too_big and outcome == 'invalid', 'a blob over BLOB_MAX_BYTES')
                continue
            ctx.check(row.get('status') is None, 'active')
            ctx.check(row['cid'] == content_cid(w, fetched['data']), 'CID')
            if too_big:
                ctx.check(outcome == 'invalid', 'a blob over BLOB_MAX_BYTES')
                continue
            meta = fetched['meta'] or ('none', None, None, None)
            bad = refuse or fetched['n'] > MAX
            if max_size is not None and fetched['n'] > max_size:
                bad = True
            if meta[3] is not None and meta[3] > 180_000:
                bad = True
            ctx.check((outcome == 'invalid') == bad, 'limits')
            if bad:
                continue
            ctx.check(outcome == 'ok', 'failed')
            ctx.check(asked and asked[0][0] == fetched['mime'], 'type is not validated')
            for name, want in (('cid', content_cid(w, fetched['data'])), ('size', fetched['n']), ('mime_type', fetched['mime']), ('url', url),
                               ('width', meta[1]), ('height', meta[2]), ('duration', meta[3])):
                got = getattr(blob, name)
                if want is None:
                    ctx.check(got is None, f'{name} is not that of the content')
                else:
                    ctx.check(got is not None and got == want, name)
                    ctx.check(row[name] == want, f'stored {name}')
            o = blob.as_object()
            ctx.check(o['$type'] == 'blob' and o['mimeType'] == fetched['mime'] and o['size'] == fetched['n'] and
                      o['ref'].encode('base32') == content_cid(w, fetched['data']), 'as_object')
            ctx.reach('ok')
    ctx.reach()


class Crash(BaseException):
    pass


@H(quick=[dict()])
def interrupted(ctx):
    """The process ends at any Datastore operation or part of a request; later the blob is fetched after all."""
    w = setup(ctx)
    w.mods.server.server.validate_mime_type = lambda *a, **kw: None
    D = w.mods.datastore_storage
    client = w.ndb.Client()
    url = 'http://x/b'
    at = ctx.choose('at', 12)
    n, dead = [0], [False]

    def op(what):
        if dead[0] or n[0] == at and not after[0]:
            dead[0] = True
            raise Crash()
        n[0] += 1
    after = [False]
    w.yp = op

    class Part(Resp):
        @property
        def content(self):
            op('content')
            return self._content

    data = ctx.bytes('data', 2)
    mime = ('image/png', 'video/mp4')[ctx.choose('type', 2)]
    headers = {'Content-Type': mime}
    if ctx.flag('length'):
        headers['Content-Length'] = '2'

    def get(u, **kw):
        op('get')
        w.media.next = None
        return Part(200, data, headers, False, url)

    def call(repo):
        return D.AtpRemoteBlob.get_or_create(url=url, repo=D.AtpRepo(id=repo), get_fn=get)
    old = ctx.flag('old')       # it has been fetched, and is due again
    now = NOW_US
    if old:
        before = ctx.bytes('before', 2)
        w.ndb.apply('AtpRemoteBlob', url, {
            'url': url, 'cid': content_cid(w, before), 'size': 2, 'mime_type': 'image/png', 'repos': [], 'last_fetched': w.datetime_of(NOW_US - 8 * DAY),
            'status': None, 'updated': None, 'created': None})
    w.clock_hook = lambda: now
    try:
        with client.context():
            call(REPOS[1])
    except Crash:
        ctx.reach('interrupted')
    else:
        ctx.assume(not dead[0])
    dead[0], after[0] = False, True
    now = now + ctx.int('dt', 0, 20 * DAY)
    w.yp = None
    with client.context():
        blob = call(REPOS[2])
    row = ds_rows(w, 'AtpRemoteBlob')[url]
    for b in (blob.cid, row['cid']):
        ctx.check(b == content_cid(w, data), 'CID')
    ctx.check(blob.as_object()['size'] == 2 and row['size'] == 2 and row['mime_type'] == mime and row.get('status') is None, 'fields')
    ctx.reach()


@H(quick=[dict(preemptions=1)], thorough=[dict(preemptions=2)])
def concurrent(ctx, preemptions):
    """Two repos use a URL at the same time."""
    S = Sched(ctx, preemptions=preemptions)
    w = setup(ctx, sched=S)
    w.mods.server.server.validate_mime_type = lambda *a, **kw: None
    D = w.mods.datastore_storage
    client = w.ndb.Client()
    url = 'http://x/b'
    data = ctx.bytes('data', 2)
    state = ('new', 'old', 'recent')[ctx.choose('state', 3)]
    repos = [REPOS[1 + ctx.choose(f'repo{i}', 2)] for i in range(2)]
    if state != 'new':
        w.ndb.apply('AtpRemoteBlob', url, {
            'url': url, 'cid': content_cid(w, data), 'size': 2, 'mime_type': 'image/png', 'repos': [], 'last_fetched': w.datetime_of(NOW_US - (8 if state == 'old' else 1) * DAY),
            'status': None, 'updated': None, 'created': None})
    w.media.next = None
    fails = [state == 'old' and ctx.flag(f'fails{i}') for i in range(2)]

    def body(i):
        def get(u, **kw):
            w.yp('get')
            return Resp(500 if fails[i] else 200, data, {'Content-Type': 'image/png'}, False, url)
        with client.context():
            blob = D.AtpRemoteBlob.get_or_create(url=url, repo=D.AtpRepo(id=repos[i]), get_fn=get)
            ctx.check(blob.cid == content_cid(w, data), 'CID')

    tasks = [S.spawn(f't{i}', lambda i=i: body(i)) for i in range(2)]
    S.run()
    ctx.check(not S.deadlock, 'deadlock')
    for i, t in enumerate(tasks):
        if fails[i] and isinstance(t.exc, requests.HTTPError):
            continue
        if t.exc is not None:
            raise t.exc
    row = ds_rows(w, 'AtpRemoteBlob')[url]
    got = [k.id() for k in row['repos']]
    ctx.check(sorted(got) == sorted(set(repos)), 'repos of the blob')
    ctx.check(row['cid'] == content_cid(w, data) and row['size'] == 2 and row['mime_type'] == 'image/png' and row.get('status') is None, 'fields')
    ctx.reach()


@H(quick=[dict(n=0), dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def get_blob(ctx, n):
    w = setup(ctx)
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    client = w.ndb.Client()
    data = ctx.bytes('data', 2)
    other = ctx.bytes('other', 2)
    ctx.assume(NOT(data == other))
    cid = content_cid(w, data)
    Redirect = w.mods.xrpc_sync.Redirect
    state, calls = {}, []
    with client.context():
        for i in range(n):
            url = f'http://x/{i}'
            mine = ctx.flag(f'mine{i}')
            inactive = ctx.flag(f'inactive{i}')
            mime = ('image/png', 'video/mp4')[ctx.choose(f'type{i}', 2)]
            age = ctx.int(f'age{i}', 0, 20 * DAY)
            fetch = ('ok', 'gone', 'error', 'connection', 'changed')[ctx.choose(f'fetch{i}', 5)] if mine else 'ok'
            t = w.datetime_of(NOW_US - age)
            w.ndb.apply('AtpRemoteBlob', url, {
                'url': url, 'cid': cid if mine else content_cid(w, other), 'size': 2, 'mime_type': mime, 'repos': [], 'last_fetched': t,
                'status': 'inactive' if inactive else None, 'updated': w.datetime_of(NOW_US + ctx.choose(f'updated{i}', 2)).replace(tzinfo=None)})
            due = mime == 'image/png' and age > 7 * DAY
            state[url] = dict(mine=mine, inactive=inactive, mime=mime, fetch=fetch, due=due)

        def get(url, **kw):
            calls.append(url)
            s = state[url]
            if s['fetch'] == 'connection':
                raise requests.ConnectionError('no')
            status = {'gone': 404, 'error': 500}.get(s['fetch'], 200)
            return Resp(status, other if s['fetch'] == 'changed' else data, {'Content-Type': s['mime']}, False, url)
        w.session.get = get
        to = None
        try:
            w.mods.xrpc_sync.get_blob({}, did=DID, cid=cid)
            ctx.fail('getBlob returned')
        except Redirect as e:
            to = e.to
            ctx.check(e.status == 301 and 'Cache-Control' in e.headers, 'redirect')
        except ValueError as e:
            ctx.check('Cache-Control' in e.headers, 'error')
        for u in calls:
            ctx.check(state[u]['mine'] and not state[u]['inactive'] and state[u]['due'], 'fetched although it is not due')
        ctx.check(len(calls) == len(set(calls)), 'fetched twice')

        def serving(s):
            return s['mine'] and not s['inactive'] and (not s['due'] or s['fetch'] in ('ok', 'changed'))
        if to is None:
            ctx.check(not any(serving(s) for s in state.values()), 'a blob is not found')
            ctx.reach('none')
        else:
            ctx.check(to in state and serving(state[to]), 'redirect to the wrong URL')
            ctx.check(not state[to]['due'] or state[to]['fetch'] == 'ok', 'the content of the URL has changed', finding='getblob-changed',
                      when=state[to]['fetch'] == 'changed')
            ctx.reach('found')
    ctx.reach()
