"""The properties and their checks; gen.py turns this into properties.jsonl and MANIFEST.json."""

TECH = ('bounded symbolic execution of the real arroba source (regenerated from /repo on every run) with Z3 '
        'deciding every branch and assertion for all values within the bounds; counterexamples are replayed '
        'on the real code')

PROPS = [
dict(
    id='C01', title='A repo tree root depends only on its contents, not on its history',
    statement='For any sequence of adds, updates and deletes applied to a Merkle search tree, the root CID equals the '
    'one the atproto repository specification defines for the resulting set of key/value pairs, whatever the order or '
    'history of operations, and whether the tree was built in memory, loaded from storage, or partly both. In '
    'particular deleting everything gives the empty tree, and undoing an operation gives back the original root.',
    over=['inputs', 'histories'],
    text='all small sets of keys with every combination of hash layers and key order; all operations and sequences of '
    'operations on them; any mix of loaded and in-memory nodes',
    why='Tests check a few fixed key sets against known roots and some seeded random shuffles; layer combinations that '
    'need splits, merges, layer growth and trimming together are rare in samples.',
    files=['arroba/mst.py'],
    mech=[('add, update, delete, split_around, append_merge, trim_top', 'arroba/mst.py'),
          ('hash layer of a key', 'arroba/mst.py leading_zeros_on_hash')],
    note='Exhaustive within the bounds: trees of up to 4 entries (thorough 5), hash layers 0-2 per key, 1-3 operations. '
    'Larger trees are outside.'),
dict(
    id='C02', title='A repo tree is an ordered immutable map',
    statement='Looking up, listing (with any bounds or prefix), walking and counting the entries of a Merkle search tree give exactly the '
    'key/value pairs that the operations so far imply, in key order. Adding a key that exists, or updating or deleting one that '
    'does not, raises an error; an operation never changes the tree it was applied to.',
    over=['inputs', 'histories'],
    text='all small trees with every layer combination, all operations with present and absent keys, all list bounds and prefixes',
    why='Tests exercise a handful of bounds and prefixes on a few trees, and do not compare trees before and after failed operations.',
    files=['arroba/mst.py'],
    mech=[('get, list, list_with_prefix, walk_leaves_from, leaves, leaf_count', 'arroba/mst.py')],
    note='Exhaustive for trees of up to 3-4 entries and one operation, with arbitrary query keys and bounds.'),
dict(
    id='C03', title='Tree nodes round-trip and only valid record keys are accepted',
    statement='Encoding a tree node uses the specified format with maximal prefix compression, and decoding it gives back exactly the '
    'same keys and values. A key is accepted exactly when it is two non-empty parts separated by one slash, made of ASCII letters, '
    'digits, and . - _ : ~, and at most 256 characters long.',
    over=['inputs'],
    text='all sorted sets of keys up to a length; all strings over U+0000-U+017F up to a length, and around the length limit',
    why='Tests check a few valid and invalid keys and a few trees; which characters and lengths are accepted is a statement about all strings.',
    files=['arroba/mst.py'],
    mech=[('serialize_node_data, deserialize_node_data', 'arroba/mst.py'), ('ensure_valid_key', 'arroba/mst.py')],
    note='Symbolic characters: nodes of up to 3-4 leaves with keys of 1-4 free characters; candidate keys up to length 6-8 and 254-258.'),
dict(
    id='C04', title='Persisting a changed tree stores exactly what is needed to reload it',
    statement='After any operations on a tree, the blocks reported as not yet stored are exactly the nodes of the new tree that storage lacks, '
    'under their correct CIDs; once they are written, loading the returned root gives a tree with the same contents and nothing left to store.',
    over=['inputs', 'histories'],
    text='all small trees, built in memory or loaded from storage, and all operations on them',
    why='Tests persist a few trees and check they reload, not which nodes of arbitrary trees are reused.',
    files=['arroba/mst.py', 'arroba/storage.py'],
    mech=[('get_unstored_blocks, get_pointer', 'arroba/mst.py')],
    note='Exhaustive for trees of up to 4 entries (thorough 5) and 1-2 operations.'),
dict(
    id='C05', title='Diffing two repo trees reports exactly what changed',
    statement='The difference between two trees lists exactly the keys added, updated (with old and new values) and deleted, '
    'the new blocks of the newer tree, and the tree nodes that no longer exist.',
    over=['inputs'],
    text='all pairs of small trees over shared keys with every layer combination, loaded, in memory, or derived from each other',
    why='Tests diff a few random trees; the walk has many cases depending on how the two trees are aligned.',
    files=['arroba/diff.py', 'arroba/mst.py'],
    mech=[('mst_diff, Diff', 'arroba/diff.py'), ('Walker', 'arroba/mst.py')],
    note='Exhaustive for all pairs of trees over up to 3 (thorough 4) keys.'),
dict(
    id='C06', title='A commit event carries enough blocks to verify and invert it',
    statement='The blocks of every commit event on the firehose include the commit, every created or updated record, and the tree nodes that '
    'a consumer with no other data needs to find each changed key in the new tree and to undo all of the '
    "event's operations; undoing them gives exactly the root that the event reports as the previous data.",
    over=['inputs', 'histories'],
    text='all small repos with every layer combination; commits of one or several creates, updates and deletes; consecutive commits whose tree nodes recur',
    why='Tests compare the blocks of a few handmade trees; which neighbouring nodes are needed depends on the shape of the tree.',
    files=['arroba/mst.py', 'arroba/firehose.py', 'arroba/storage.py'],
    mech=[('add_covering_proofs', 'arroba/mst.py'), ('process_event', 'arroba/firehose.py'), ('read_events_by_seq', 'arroba/storage.py')],
    note='Exhaustive for repos of up to 3 (thorough 4) records, 1-3 operations in 1-3 commits. Inversion is done by an independent partial-tree implementation.'),
dict(
    id='C07', title='A commit happens completely or not at all',
    statement="A commit either applies all of its operations - stored repo head, the repo's tree, stored blocks and one event agree - or, if "
    'anything about it is invalid or fails, leaves the repo, its storage and its event stream as they were and reports the sequence number '
    'that it allocated as lost, exactly once. A sequence number that was used is never reported as lost. Later commits build on the right head.',
    over=['inputs', 'crash_points', 'histories'],
    text='all small repos; all sequences of valid and invalid operations; a failure at any step of the commit',
    why='Tests make one kind of commit fail at one place; atomicity is about a failure at every step and what later commits then do.',
    files=['arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/repo.py'],
    mech=[('commit, _commit', 'arroba/storage.py'), ('_commit', 'arroba/datastore_storage.py')],
    note='Exhaustive for repos of up to 2 (thorough 3) records and commits of 1-2 (thorough 3) operations, with one failure at every '
    'place a commit can fail, then another commit; MemoryStorage, and DatastoreStorage on a modelled Datastore.'),
dict(
    id='C08', title='Commits form a correct signed chain within the limits',
    statement='Each commit has exactly the fields version 3, did, rev (the TID of its sequence number), prev (the previous head), data (root of '
    'the new tree) and a valid signature over the rest, and lists its operations with their old and new CIDs, without updates that change nothing. '
    'Its new blocks are stored with its sequence number, and blocks that were there keep theirs. Over 200 operations or records over 1 MB are rejected, '
    'and a new repo starts with an empty commit and identity, account and sync events.',
    over=['inputs', 'histories'],
    text='all small repos and commits; record values that coincide; sequence numbers of any magnitude',
    why='Tests check single commits with fixed values; coinciding values, no-op updates and recurring blocks need a search over contents.',
    files=['arroba/storage.py', 'arroba/repo.py', 'arroba/util.py'],
    mech=[('_commit', 'arroba/storage.py'), ('Repo.create', 'arroba/repo.py'), ('sign', 'arroba/util.py')],
    note='Exhaustive for repos of up to 2 (thorough 3) records and 1-2 (thorough 3) commits of up to 2 operations. Signatures are ideal in the '
    'symbolic run and real in replays.'),
dict(
    id='C09', title='Reading events by sequence number is exact, ordered and complete',
    statement='read_events_by_seq yields exactly the commits and non-commit events at or after the start, once each and in order of '
    'sequence number, each commit with its own blocks and operations; with a repo, only that '
    "repo's.",
    over=['inputs', 'histories'],
    text='all histories of a few commits and events in two repos, contents that coincide within and between repos; all starts and both filters',
    why='Grouping of blocks into commits depends on which blocks are shared between commits and repos, and on where reading starts.',
    files=['arroba/storage.py'],
    mech=[('MemoryStorage.read_events_by_seq, read_blocks_by_seq', 'arroba/storage.py')],
    note='Exhaustive for histories of up to 3 (thorough 4) steps in two repos, for every start. MemoryStorage; the Datastore is C22.'),
dict(
    id='C10', title='Firehose messages describe the commit or event exactly',
    statement="A commit's firehose message has its seq, rev, repo, time, commit CID, operations with new and previous CIDs, the previous commit's rev as since, "
    'and the previous tree root as prevData (none for a first commit), with its blocks as a CAR rooted at the commit; other events are '
    'passed on with their type in the header. Processing an event twice gives the same message.',
    over=['inputs', 'histories'],
    text='all small commits in small repos, and all other kinds of events',
    why='Tests compare a few messages; repeated processing and deleted, no-op and recurring records are not combined.',
    files=['arroba/firehose.py'],
    mech=[('process_event', 'arroba/firehose.py')],
    note='Exhaustive for repos of up to 2 (thorough 3) records and 1-2 commits.'),
dict(
    id='C11', title='Subscribers get every event once and in order from their cursor',
    statement='A subscriber with a cursor gets every event with a sequence number at or after it, exactly once and in order, across the switch from '
    'stored events to the rollback window to live events, whatever other subscribers and writers do meanwhile; one without gets an uninterrupted '
    'run of new events. The rollback window holds the latest events in order, within its size.',
    over=['inputs', 'schedules'],
    text='all cursors and first sequence numbers; all interleavings of collector, writers and subscribers with a bounded number of preemptions',
    why='Handing off between the stored, rollback and live phases races with the collector and other subscribers; tests run a few schedules.',
    files=['arroba/firehose.py'],
    mech=[('subscribe', 'arroba/firehose.py'), ('Collector', 'arroba/firehose.py')],
    note='Up to 5 events, 1-2 subscribers, at most 1 preemption (thorough 2) at statement granularity on top of every choice at blocking operations.'),
dict(
    id='C12', title='Missing sequence numbers are waited for, and lost ones are not',
    statement='The firehose emits events in order of sequence number. It skips a number that has not appeared only once a later event has been there for the whole '
    'skip delay or the number is further behind than the skip window, but skips numbers reported as lost without waiting. It emits every event except those that appear '
    'after they were skipped, even if reading storage fails in between.',
    over=['inputs', 'schedules', 'histories'],
    text='all ways and times in which a few consecutive sequence numbers are used, lost or left out, in any order; all windows; failing reads',
    why='Which numbers appear when is a timing question with many orders; tests try one gap right after an event.',
    files=['arroba/firehose.py'],
    mech=[('Collector._collect', 'arroba/firehose.py'), ('mark_seq_lost', 'arroba/firehose.py')],
    note='Exhaustive for 1-3 consecutive numbers with all orders, and symbolic times, window and distance to the last number.'),
dict(
    id='C13', title='Sequence numbers are unique and increase',
    statement='Sequence numbers are allocated once, from 1, and an allocation that starts after another one has returned gets a higher number, whatever threads or processes allocate at the '
    'same time; in-memory and Datastore sequences leave no gaps and report the last allocated number. Memcache sequences only hand out numbers that the Datastore has already reserved, also when '
    'memcache loses its contents.',
    over=['inputs', 'schedules', 'fault_sequences'],
    text='all stored states; all interleavings of 2 threads or processes at statements and at Datastore and memcache operations, with a bounded number of preemptions; memcache losing its data at any point',
    why='Duplicates need two allocations to interleave, or memcache to be flushed, at a particular point.',
    files=['arroba/storage.py', 'arroba/datastore_storage.py'],
    mech=[('MemorySequences.allocate', 'arroba/storage.py'), ('DatastoreSequences', 'arroba/datastore_storage.py'), ('MemcacheSequences', 'arroba/datastore_storage.py')],
    note='Up to 2 preemptions (thorough 3-4). Memcache and the Datastore are modelled. Losing memcache twice around one allocation is a known finding.'),
dict(
    id='C14', title='TIDs are a faithful, sortable encoding of numbers and times',
    statement="A TID has 13 characters of the sortable base32 alphabet, decodes to the number or the time (to the microsecond) that it was made from, and sorts like it; TIDs of the same number are the same "
    "exactly if their clock ids are. Values that aren't 13-character strings over the alphabet are rejected.",
    over=['inputs'],
    text='all numbers below 2**53, all clock ids below 32 and all pairs of them; all datetimes 1970-2255',
    why='Rounding and padding errors show only for particular values, eg microseconds that a float cannot hold.',
    files=['arroba/util.py'],
    mech=[('int_to_tid', 'arroba/util.py'), ('datetime_to_tid', 'arroba/util.py'), ('tid_to_int', 'arroba/util.py'), ('s32encode', 'arroba/util.py')],
    note='Decided for all values in these ranges.'),
dict(
    id='C15', title='next_tid always goes up',
    statement='Every TID that next_tid returns is later, and sorts later, than all that were returned before the call, and is never the same as that of another call, whatever the clock does and whatever threads call it. '
    'It is the current time in microseconds, or right after the last TID if the clock is not past that.',
    over=['inputs', 'schedules'],
    text='all clock readings, also repeated and going backward; all interleavings of 2 threads with a bounded number of preemptions',
    why='The order breaks only if the clock goes back, or if threads interleave inside the function.',
    files=['arroba/util.py'],
    mech=[('next_tid', 'arroba/util.py')],
    note='Up to 4 (thorough 6) calls in a row; 2 threads (thorough 3), 2 preemptions (thorough 3). Times 2005-2255.'),
dict(
    id='C16', title='Signatures are 64 bytes, low-S, and verify exactly for what was signed',
    statement="Commit signatures and service JWT signatures are the 64 bytes of r and s with s at most half the curve's order, whatever pair the key's signing returns, and sign the object without its signature. "
    'verify_sig accepts them, and no other 64 bytes (apart from the high-S form), other lengths, changed objects or keys. Service JWTs have the right issuer, audience, expiry and claims.',
    over=['inputs'],
    text='all pairs r, s of secp256k1 and P-256; all 64-byte signatures; a changed, missing or additional field',
    why='High-S or short values appear at random, depending on the key and the message.',
    files=['arroba/util.py'],
    mech=[('sign', 'arroba/util.py'), ('apply_low_s_mitigation', 'arroba/util.py'), ('verify_sig', 'arroba/util.py'), ('service_jwt', 'arroba/util.py')],
    note='The elliptic curve arithmetic is an ideal signature scheme.'),
dict(
    id='C17', title='Nothing is changed or given out without the token or password',
    statement="The XRPC methods that write, and those for the session, only do anything for a request whose Authorization header is exactly the configured token as a bearer token, and never if no token is configured. "
    "createSession returns the token only for the repo's DID or handle with the configured password. When getRepo is disabled, only internal callers, holders of its own token, and repos that are new may use it.",
    over=['inputs'],
    text='all tokens, passwords and headers up to a length, configured or not; all such methods',
    why='Tests try a right and a wrong token; that no other header or password is accepted, with any configuration, is a statement about all strings.',
    files=['arroba/server.py', 'arroba/xrpc_repo.py', 'arroba/xrpc_server.py', 'arroba/xrpc_sync.py'],
    mech=[('auth', 'arroba/server.py'), ('create_session', 'arroba/xrpc_server.py'), ('get_repo', 'arroba/xrpc_sync.py')],
    note='Exhaustive for secrets of up to 3 (thorough 5) and headers of up to 10 (thorough 12) characters.'),
dict(
    id='C18', title='Record methods behave like a map and list it completely in order',
    statement='Whatever createRecord, putRecord, deleteRecord and getRecord calls came before, getRecord returns the last value put at that key, with its URI and CID, or RecordNotFound. '
    'Following the cursors of listRecords returns exactly the records of that collection, in order, with each page within the limit. '
    'Unsupported collections and parameters are refused without changing anything.',
    over=['inputs', 'histories'],
    text='all small repos, sequences of methods on any keys, page limits, and collections whose names are prefixes of each other',
    why='Tests make a few calls on a few keys; page borders and neighbouring collections are rarely hit.',
    files=['arroba/xrpc_repo.py', 'arroba/repo.py', 'arroba/mst.py'],
    mech=[('create_record, put_record, delete_record, get_record, list_records', 'arroba/xrpc_repo.py'), ('get_record, get_contents', 'arroba/repo.py')],
    note='Exhaustive for repos of up to 2-4 records and 1-2 (thorough 3) methods. Pages start with the record of their cursor, as arroba does it.'),
dict(
    id='C19', title='Inactive repos take no writes and are not served',
    statement="A deactivated, tombstoned or deleted repo takes no commits, whatever Repo object they come through, and every XRPC method that serves a repo's data refuses it with "
    "the error of its status. Deactivating and tombstoning emit one account event with the new status and activating one that the repo is active; tombstoned repos can't be activated. "
    'getRepoStatus and listRepos report the status that is stored, and none of this changes other repos.',
    over=['inputs', 'histories'],
    text='all short histories of status changes and commits through any of several Repo objects of the repo, from any status; all repo methods',
    why='Stale Repo objects, repeated changes and the number of methods make many combinations; tests check each method for one status.',
    files=['arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/server.py', 'arroba/xrpc_sync.py', 'arroba/xrpc_repo.py'],
    mech=[('deactivate_repo, activate_repo, tombstone_repo, _set_repo_status, _commit', 'arroba/storage.py'), ('load_repo', 'arroba/server.py'), ('get_repo_status, list_repos', 'arroba/xrpc_sync.py')],
    note='Exhaustive for histories of 1-2 (thorough 3-4) steps, both storages.'),
dict(
    id='C20', title='Exporting a repo gives all of it, and importing gives it back',
    statement="getRepo's CAR has the head commit as root and every block of the repo, each once and matching its CID; with since, it has everything that was added after that commit. Importing a CAR gives a repo with "
    'the same head, tree and records, which works and can be served, or, if the CAR, its signature or its blocks are wrong, the repo exists already, or the caller is not allowed to, fails and leaves nothing.',
    over=['inputs', 'histories'],
    text='all small repos, with any commits since; a lookup that returns any part of the blocks; CARs with blocks in several orders, and any one of several things wrong',
    why='What must be exported depends on the shape and history of the tree, which blocks recur, and how reads are batched.',
    files=['arroba/xrpc_sync.py', 'arroba/xrpc_repo.py', 'arroba/mst.py', 'arroba/datastore_storage.py'],
    mech=[('get_repo, get_checkout', 'arroba/xrpc_sync.py'), ('import_repo', 'arroba/xrpc_repo.py'), ('load_all', 'arroba/mst.py'), ('read_many_raw', 'arroba/datastore_storage.py')],
    note='Exhaustive for repos of up to 2 (thorough 4) records and 0-2 (thorough 3) commits, both storages. Recurring nodes with since are a known finding.'),
dict(
    id='C21', title='Memcache leases exclude each other, expire, and are released',
    statement='A process that has acquired a Lease is the only one that holds its key until it releases it or its expires_at passes, and expires_at is never later than when memcache expires the key nor earlier than the expiration that was asked for. '
    "A lease that cannot be acquired raises RuntimeError after all its retries with their delays in between; using it as a context manager releases it also after an exception, which propagates. "
    "Releasing makes the key free at once if the lease is still held, and never touches another process's lease.",
    over=['schedules', 'inputs', 'fault_sequences'],
    text='every schedule of two or three leases, with any expirations, retry delays, and slow clients and memcache operations',
    why='Whether two processes can hold a lease together depends on how their operations interleave and on the time that each one takes.',
    files=['arroba/memcache.py'],
    mech=[('Lease.acquire, release, __enter__, __exit__', 'arroba/memcache.py')],
    note='Exhaustive for two leases with up to 1 (thorough 2) retries and for three; the second process runs in full between two operations of the first. Memcache and the clock are modelled. A delete that arrives late is a known finding.'),
dict(
    id='C22', title='The Datastore returns exactly the blocks that it was given',
    statement='Every block written to DatastoreStorage is read back with the same content and sequence number, however many CIDs are looked up at once and in whatever order they are found; '
    'CIDs that are not there are reported as such, and blocks that are there already stay as they are. read_blocks_by_seq yields every block from the start on, once and in order, also when its ndb context is lost or replaced between blocks.',
    over=['inputs', 'histories'],
    text='all small sets of blocks with any sequence numbers and repos, lookups of any CIDs, and contexts that are lost at any point',
    why="The tests that use the Datastore need its emulator and have a few blocks; batches over the Datastore's limit and lost contexts do not occur in them.",
    files=['arroba/datastore_storage.py'],
    mech=[('read, read_many, read_many_raw, has, read_blocks_by_seq, write, write_blocks', 'arroba/datastore_storage.py')],
    note='Exhaustive for up to 3 blocks in symbolic order; batches of over 1000 CIDs with concrete ones. The Datastore and ndb are modelled.'),
dict(
    id='C23', title='Concurrent commits to the Datastore are serializable',
    statement='When several threads or processes commit to one Datastore repo at the same time, or change its status, the outcome is that of doing the commits that succeeded one after the other: '
    "each has its own sequence number, builds on the previous one's head and tree, and none is lost or applied twice; ones that failed leave nothing.",
    over=['inputs', 'schedules'],
    text='all pairs of commits by two threads, with Repo objects loaded at any time, in all interleavings of Datastore operations with a bounded number of preemptions',
    why='A lost update or a fork of the commit chain needs two commits to interleave at a particular read and write.',
    files=['arroba/datastore_storage.py', 'arroba/storage.py'],
    mech=[('DatastoreStorage._commit, write_blocks, store_repo', 'arroba/datastore_storage.py'), ('_commit', 'arroba/storage.py')],
    note='2 threads (thorough 3) and at most 1 preemption (thorough 2) besides blocking. The Datastore is modelled as serializable with optimistic concurrency. That revs can go down is a known finding.'),
dict(
    id='C24', title='Remote blobs are recorded as they are, and getBlob finds them',
    statement="AtpRemoteBlob.get_or_create fetches a URL when it is new or due, marks it inactive if it never worked or is gone, and otherwise yields its blob with the CID, size, MIME type and dimensions of the content "
    'fetched last, or raises if that is over a limit or of a type that is not accepted. Each repo that uses it is recorded once, also when two do at the same time, and a call that is cut off at any point can be made again. getBlob redirects to a URL, active and fetched again if due, whose blob has the CID that was asked for, or fails if there is none.',
    over=['inputs', 'histories', 'schedules', 'crash_points'],
    text='all short histories of get_or_create and getBlob calls at any times, with any responses: content, headers, errors, partial downloads; two calls at once; the process ending anywhere in a call',
    why='What is stored depends on sequences of responses that differ in a field; tests have one or two fixed responses.',
    files=['arroba/datastore_storage.py', 'arroba/xrpc_sync.py'],
    mech=[('AtpRemoteBlob.get_or_create, maybe_fetch, validate', 'arroba/datastore_storage.py'), ('get_blob', 'arroba/xrpc_sync.py')],
    note='Exhaustive for 1-2 (thorough 3) calls. Media metadata and HTTP are modelled. That getBlob redirects to a URL whose content has just changed is a known finding.'),
dict(
    id='C25', title='Following the cursors of listRepos and listBlobs finds each once',
    statement='Starting without a cursor and following the one in each response, listRepos returns every repo once, with its head, rev and status, and listBlobs every CID of the remote blobs that a repo references, '
    'whatever the limit, the number of repos or blobs, and their names, and then ends. No page is longer than the limit.',
    over=['inputs', 'histories'],
    text='all small sets of repos or blobs, with any DIDs or URLs, statuses and times, and all limits',
    why='Page borders, equal keys and times, and entries that are filtered out must all meet; the tests have one or two pages.',
    files=['arroba/xrpc_sync.py', 'arroba/storage.py', 'arroba/datastore_storage.py'],
    mech=[('list_repos, list_blobs', 'arroba/xrpc_sync.py'), ('load_repos', 'arroba/storage.py'), ('load_repos', 'arroba/datastore_storage.py')],
    note='Exhaustive for up to 3 (thorough 4) repos or blobs and limits around their number.'),
dict(
    id='C26', title='DIDs, handles and AT URIs resolve to what they name',
    statement='Resolving a did:plc or did:web requests exactly the document that its spec says, and a handle first its DNS record and then its HTTPS one; what is not a valid DID or handle is refused without a request, '
    'and results are reused for at most 6 hours, only for the same one, and never when they were errors. AT URIs, did:keys, and the handle and signing key in a DID document are read back as they were written.',
    over=['inputs', 'histories'],
    text='all short DIDs, handles and AT URIs of any characters; all DNS and HTTPS answers; calls at any times; all small DID documents',
    why='Syntax rules and caching are about all strings and all times; the tests have a few of each.',
    files=['arroba/did.py', 'arroba/util.py'],
    mech=[('resolve, resolve_plc, resolve_web, resolve_handle, get_handle, get_signing_key, encode_did_key, decode_did_key', 'arroba/did.py'), ('at_uri, parse_at_uri', 'arroba/util.py')],
    note='Exhaustive for strings of up to 3-5 (thorough 4-7) free characters and 1-2 (thorough 3) calls. DNS, HTTP and cachetools are modelled.'),
dict(
    id='C27', title='PLC operations are valid and say what was asked for',
    statement='Creating, updating and rolling back a did:plc sends exactly one operation that its directory accepts: to the right DID, derived from the operation if it is new, linked to the current operation and signed with a current '
    'rotation key. It has the handle, aliases, keys and PDS that were given, keeping the others, and the DidPlc that is returned is what the directory now has; otherwise it fails.',
    over=['inputs', 'histories'],
    text='all short histories of operations on a modelled directory, with any arguments, refusals, and recovery by other clients',
    why='Each operation depends on the log so far and many optional arguments; the tests have a few fixed ones and mock the directory.',
    files=['arroba/did.py', 'arroba/util.py'],
    mech=[('create_plc, update_plc, write_plc, write_plc_operation, rollback_plc, plc_operation_to_did_doc', 'arroba/did.py'), ('sign', 'arroba/util.py')],
    note='Exhaustive for 1-4 operations with 1-2 free characters per string; keys are concrete and signatures ideal.'),
dict(
    id='C28', title="getRecord's proof shows that the record is in the repo",
    statement="com.atproto.sync.getRecord returns a CAR rooted at the repo's head commit with the record and all the tree nodes that a client with nothing else needs to "
    'find its key in the tree, each matching its CID; for a key that is not in the repo it is RecordNotFound.',
    over=['inputs', 'histories'],
    text='all small repos with every layer combination and any equal records; every key in them, and any other key',
    why='Which nodes are on the path depends on the layers of the keys; the test has one record.',
    files=['arroba/xrpc_sync.py', 'arroba/mst.py'],
    mech=[('get_record', 'arroba/xrpc_sync.py'), ('add_covering_proofs', 'arroba/mst.py')],
    note='Exhaustive for repos of 1-3 (thorough 4) records, both storages, also after a commit.'),
dict(
    id='C29', title='A record is never taken for a commit or an event',
    statement='Whatever a record contains, it is either rejected when it is committed, leaving no trace, or it is stored and read back as a record: it never appears as an event or a commit in '
    'the event stream, and never hides, breaks or changes the commit it is in or any other.',
    over=['inputs'],
    text='all records with a $type near those of events and any subset of the fields of commits, events and MST nodes',
    why='Events, commits and records are stored alike and told apart by content, so this is about all contents, and tests only have ordinary ones.',
    files=['arroba/storage.py', 'arroba/firehose.py'],
    mech=[('read_events_by_seq, _commit', 'arroba/storage.py'), ('process_event', 'arroba/firehose.py')],
    note='Exhaustive for repos of up to 1 (thorough 3) other records, $types with up to 2 free characters.'),
dict(
    id='C30', title='A firehose consumer can follow every repo from any cursor',
    statement='subscribeRepos with a cursor sends every event from that sequence number on, once and in order; if the cursor is before the rollback window, first an OutdatedCursor message and then everything in the window; '
    'if it is after the last sequence number, only a FutureCursor error; and without one, only new events. The events are exactly what happened to the repos since their creation, and applying their operations gives, after each commit, '
    "the tree whose root is in it, verifiable from the previous commit's data with the event's blocks alone.",
    over=['histories', 'inputs', 'schedules'],
    text='all short histories of one or two repos before and after the firehose starts, any cursor, preload and rollback windows',
    why='What a consumer sees depends on storage, the collector, the rollback window and the cursor together.',
    files=['arroba/xrpc_sync.py', 'arroba/firehose.py', 'arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/repo.py', 'arroba/mst.py'],
    mech=[('subscribe_repos', 'arroba/xrpc_sync.py'), ('subscribe, Collector, process_event', 'arroba/firehose.py'), ('read_events_by_seq, write_event', 'arroba/storage.py'), ('create', 'arroba/repo.py')],
    note='Exhaustive for histories of 0-2 (thorough 3) steps before the start and 0-1 (thorough 2) after it, both storages. Threads switch where they block; C11 covers preemption.'),
dict(
    id='C31', title="A repo's state is the same however it is read",
    statement="After any history of a repo, every way to read it gives the state of its last commit: loading it by DID or current handle (and only by those), or all repos at once, has its head, tree, handle, status and keys; get_contents has exactly its records; "
    "getHead, getLatestCommit, getRepoStatus and describeRepo report the same head, rev, handle and collections; getBlocks returns exactly the blocks that were asked for, matching their CIDs, or BlockNotFound; and an unknown repo is RepoNotFound.",
    over=['histories', 'inputs'],
    text='all short histories of commits and new handles, with and without handles and rotation keys; any blocks to get',
    why='Each method reads the state along its own path, and what it should be depends on the history.',
    files=['arroba/repo.py', 'arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/server.py', 'arroba/xrpc_sync.py', 'arroba/xrpc_repo.py'],
    mech=[('Repo.create, load, get_contents', 'arroba/repo.py'), ('load_repo, load_repos, store_repo, create_repo', 'arroba/datastore_storage.py'), ('load_repo', 'arroba/server.py'),
          ('get_head, get_latest_commit, get_blocks', 'arroba/xrpc_sync.py'), ('describe_repo', 'arroba/xrpc_repo.py')],
    note='Exhaustive for 0-2 (thorough 3) steps, both storages. Keys are ideal; PEM encoding is modelled.'),
dict(
    id='C32', title='Commits over the limits or with invalid records are refused as a whole',
    statement="A commit is accepted if and only if it has at most 200 operations and every record it creates or updates is at most 1 MB when encoded and passes validation as a record of its type, wherever in the commit it is and however the commit is made. "
    'A commit that is refused leaves the head, the contents and the blocks as they were and its sequence number is reported as lost.',
    over=['inputs'],
    text='all sizes of records from 60 bytes to 2 MB, any mix of operations, valid and invalid types; numbers of operations around the limit',
    why='The limits have to hold for every record of every commit, and exactly; tests have one record well over them.',
    files=['arroba/storage.py', 'arroba/xrpc_repo.py', 'arroba/datastore_storage.py'],
    mech=[('_commit', 'arroba/storage.py'), ('put_record, create_record', 'arroba/xrpc_repo.py')],
    note='Exhaustive for commits of 0-3 operations; sizes are symbolic, so exact. The number of operations is concrete (199, 200, 201 and 400).'),
dict(
    id='C33', title='An interrupted account operation can be done again',
    statement="When creating, deactivating, activating or tombstoning a repo, or changing its handle, fails at any point, the stored repo and its Repo object have the status from before or after, a status is announced only once it is stored, and a new repo is there only after its commit, identity, account and sync events, in that order. "
    'Each sequence number that the operation allocated is that of one event or is reported as lost, the whole event stream can still be read, and other repos stay as they were. Doing the operation again succeeds, and has the same result as doing it once. An import of a repo that fails leaves no repo and no events, and can be done again.',
    over=['crash_points', 'histories', 'inputs'],
    text='an error at any storage operation or callback of every account operation, or of an import; any earlier status',
    why='Account operations take several writes without a transaction, and tests never have one of them fail.',
    files=['arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/repo.py'],
    mech=[('deactivate_repo, activate_repo, tombstone_repo, write_event', 'arroba/storage.py'), ('create', 'arroba/repo.py'), ('_set_repo_status, store_repo, create_repo, write', 'arroba/datastore_storage.py')],
    note='Exhaustive: every operation of the (modelled) Datastore fails in turn, and every callback, for all statuses; then it is repeated.'),
]

# Planted bugs that another check than their property's catches (also)
CAUGHT = {}
SEED_NOTES = """Ten of these were missed at first: list-case (C02's keys had no upper case), lost-seq-cleanup (C12 had too few
numbers in a row), mem-max-seqs (C13's memcache was never ahead of the Datastore), proof-one-level (C06 had layers 0-2
only), list-repos-lower (C25's DIDs had no upper case), plc-aka-clear (C27's quick tier did not get to it in time) list-dup-values
(C18 had no two records with the same contents), rollback-prev-n (C27's histories were too short to go back two operations in the
quick tier), batch-no-tx (C13 had no process that uses up a batch while another one allocates one) and preload-last-seq (no
numbers of C12 were in flight when the collector starts).
The harnesses were extended until they found them. Checks were also tried against mutations of each function that
they cover while they were written, which are not kept, and against two sets of refactorings that
change no behaviour (see Robustness).
"""
