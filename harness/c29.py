"""C29: whatever is in a record, it's only ever treated as a record."""
from repolib import *
from symx.harness import Registry
from symx.values import AND, NOT, OR

H = Registry()
BOUNDS = ('Repos with 0-1 (thorough 3) other records; one record that is created or put in place of another one, with $type missing, not a string, or any of: an event type with any 0-2 further '
          'characters, one with any character in place of the #, an ordinary type; any subset (with other records: all or all but one) of the fields of a commit, those of an event or of an MST node; committed alone or with other writes, with later commits.')
OUTSIDE = 'Records that lexicons reject, and values that DAG-CBOR cannot encode.'
ASSUMPTIONS = ['SHA-256 and DAG-CBOR are injective', 'hash of an MST key is arbitrary']


def odd_record(ctx, w, env, full):
    rec = {}
    kind = ctx.choose('$type', 8)
    if kind == 1:
        rec['$type'] = NSID + '#' + ctx.str('type', ctx.choose('type length', 3))
    elif kind == 2:
        rec['$type'] = NSID + ctx.str('char', 1) + 'account'
    elif kind == 3:
        rec['$type'] = NSID
    elif kind == 4:
        rec['$type'] = 'com.example.x#account'
    elif kind == 5:
        rec['$type'] = (None, 5, ['com.example.x'], {'a': 1}, False)[ctx.choose('not a string', 5)]
    elif kind == 6:
        rec['$type'] = ('account', 'commit', '#account', '#commit', '', 'com.atproto.sync.subscribe')[ctx.choose('other', 6)]
    elif kind == 7:
        rec['$type'] = 'com.example.x'
    fields = ctx.choose('fields', 5)
    if fields == 1:         # of a commit
        d = dict(env.head.decoded)
        if full:
            for f in list(d):
                if not ctx.flag(f):
                    del d[f]
        else:
            d.pop((list(d) + [None])[ctx.choose('without', 7)], None)
        rec.update(d)
    elif fields == 2:       # of an account event
        rec.update({'seq': ctx.int('seq', 0, 9), 'did': (DID, 'did:web:victim.com')[ctx.choose('did', 2)],
                    'time': '2024-01-01T00:00:00Z', 'active': False, 'status': 'takendown'})
    elif fields == 3:       # an MST node
        rec.update(env.ref.order[-1][1] if ctx.flag('same node') else {'l': None, 'e': []})
    elif fields == 4:
        rec['n'] = 500
    return rec


def kinds(rec):
    return set(rec)


@H(quick=[dict(n=0, full=True), dict(n=1, full=False)], thorough=[dict(n=n, full=True) for n in range(4)])
def spoof(ctx, n, full):
    w = World(ctx)
    ks = w.sorted_keys('k', n)
    items = [(k, w.cid_of(w.record(i))) for i, k in enumerate(ks)]
    events = []
    env = Env(w, items, callback=lambda data=None, lost_seq=None: events.append((data, lost_seq)))
    st = env.st
    for i in range(n):
        put_record(w, st, w.record(i))
    w.mods.server.server.validate = lambda type_, kind, obj, **kw: obj
    rec = odd_record(ctx, w, env, full)
    at = ctx.choose('replaces', n + 1)
    if at < n:
        key, op = ks[at], 'update'
        now = items[:at] + [(key, w.cid_of(rec))] + items[at + 1:]
    else:
        key, op = w.key('new'), 'create'
        i, there = place(ctx, items, key)
        ctx.assume(not there)
        now = items[:i] + [(key, w.cid_of(rec))] + items[i:]
    writes = [write_of(w, op, key, rec)]
    fields = ('version', 'did', 'rev', 'prev', 'data', 'sig')
    t = rec.get('$type', '')
    bad = OR(not rec, t.__class__ is not str, t.startswith(NSID + '#') if t.__class__ is str else True, set(rec) == set(fields))
    F = w.mods.firehose
    try:
        data = st.commit(env.repo, writes)
    except (ValueError, TypeError, AttributeError, AssertionError):
        ctx.check(bad, 'a record was rejected')
        ctx.check(not [d for d, _ in events if d is not None], 'an event for a rejected record')
        ctx.check(not list(st.read_events_by_seq(start=2)), 'an event was stored for a rejected record')
        ctx.check(st.load_repo(DID).head.cid == env.head.cid, 'head after a rejected record')
        now = items
        want = []
        ctx.reach('rejected')
    else:
        want = [(2, data.commit.cid)]
        ctx.check(st.load_repo(DID).get_record(*split(key)) == rec, 'record')
        ctx.reach('accepted')
    # a later commit
    k2 = w.key('later', colls=('z',))
    data2 = st.commit(env.repo, write_of(w, 'create', k2, w.record(900)))
    want.append((3, data2.commit.cid))
    got = list(st.read_events_by_seq(start=2))
    ctx.check(len(got) == len(want), 'number of events')
    for e, (seq, cid) in zip(got, want):
        ctx.check(not isinstance(e, dict), 'a record passes for an event')
        ctx.check(e.commit.cid == cid and e.commit.seq == seq, 'a record passes for a commit')
        header, payload = F.process_event(e)
        ctx.check(header == {'op': 1, 't': '#commit'} and payload['repo'] == DID and payload['commit'] == cid and payload['seq'] == seq, 'message')
    if len(want) == 2:
        ctx.check(w.cid_of(rec) in got[0].blocks, "the record isn't in its event")
    ctx.check(len(got[-1].commit.ops) == 1, 'ops')
    ctx.reach()


def split(key):
    return key.split('/')
