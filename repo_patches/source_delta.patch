From cccafb521291dd8269fbf58bd6d32f89601d8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 01/27] fix: reset an MST's layer when its last entry is
 deleted

An empty tree kept its old layer, so the next key added could end up under
a root node at the wrong layer, with a different root CID than the canonical
tree with the same contents.
---
 arroba/mst.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..a46947e 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -563,8 +563,9 @@ class MST:
     def trim_top(self):
         """Trims the top and return its subtree, if necessary.
 
-        Only if the topmost node in the tree only points to another tree.
-        Otherwise, does nothing.
+        Only if the topmost node in the tree only points to another tree, or if
+        the tree is empty, in which case its layer goes back to 0. Otherwise, does
+        nothing.
 
         Returns:
           MST:
@@ -572,6 +573,8 @@ class MST:
         entries = self.get_entries()
         if len(entries) == 1 and isinstance(entries[0], MST):
             return entries[0].trim_top()
+        elif not entries:
+            return MST.create(storage=self.storage)
         else:
             return self
 
-- 
2.43.0


From 319d3227104e18a8faf7feb3fc52d86cd166ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 02/27] fix: allow ~ in MST keys

It's valid in ATProto record keys, https://atproto.com/specs/record-key , and
passes lexicon validation, but commits with it failed.
---
 arroba/mst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index a46947e..9c16189 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -60,7 +60,8 @@ from .util import dag_cbor_cid
 
 logger = logging.getLogger(__name__)
 
-_VALID_KEY_RE = re.compile(r'[a-zA-Z0-9_\-:.]+')
+# https://atproto.com/specs/record-key#record-key-syntax
+_VALID_KEY_RE = re.compile(r'[a-zA-Z0-9_~\-:.]+')
 
 Entry = namedtuple('Entry', [
     'p',  # int, length of prefix that this data key shares with the prev data key
-- 
2.43.0


From 552561b27055cec2e6cf5fa708ec0477b3789bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 03/27] fix: leave the repo untouched when a commit fails

---
 arroba/storage.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..53200f2 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -513,39 +513,46 @@ class Storage:
         seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
 
         try:
-            commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
-            if repo.callback:
-                repo.callback(data=commit_data)
+            commit_data, tree = self._commit(repo, writes, seq, repo_did=repo_did)
         except BaseException:
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
 
+        # only once the commit is durable
+        repo.mst = tree
+        repo.head = commit_data.commit
+        if repo.callback:
+            repo.callback(data=commit_data)
+
         return commit_data
 
     def _commit(self, repo, writes, seq, repo_did=None):
-        """Separate from :meth:`commit` so that subclasses can put it in a tx."""
+        """Separate from :meth:`commit` so that subclasses can put it in a tx.
+
+        Doesn't change the :class:`Repo` passed in.
+
+        Returns:
+          (CommitData, MST) tuple:
+        """
         assert seq
         if repo.status:
             raise InactiveRepo(repo.did, repo.status)
 
-        orig_repo = repo
         if repo_did:
             # this is the initial empty commit for creating a new repo
-            if repo.head:
-                # this must be a transaction retry, and head was set by a previous
-                # attempt, below
-                assert repo.head.decoded.get('did') == repo_did, repo.head.decoded
-                assert not repo.head.decoded.get('prev'), repo.head.decoded
-                repo.head = None
             assert not repo.did
+            stored = repo
             prev = None
         else:
             # this is an existing repo with at least one commit
             assert repo.did
             repo_did = repo.did
-            repo = self.load_repo(repo_did)
-            prev = repo.head.cid  # for the new commit
+            stored = self.load_repo(repo_did)
+            prev = stored.head.cid  # for the new commit
+
+        # make changes on a copy so that if we fail, they don't leak
+        repo = copy.copy(stored)
 
         commit_blocks = {}  # maps CID to Block
         assert writes is not None
@@ -634,14 +641,13 @@ class Storage:
 
         # update repo head
         if repo.did:
-            repo.head = commit_data.commit
-            logger.info(f'Updating {repo.did} head {repo.head.cid}')
-            self.store_repo(repo)
+            stored.mst = repo.mst
+            stored.head = commit_data.commit
+            logger.info(f'Updating {stored.did} head {stored.head.cid}')
+            self.store_repo(stored)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
-        orig_repo.head = commit_block
-        return commit_data
+        return commit_data, repo.mst
 
 
 class MemorySequences(Sequences):
-- 
2.43.0


From 997ddf2d34ba1cb0d4be373db09a6500580de075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 04/27] fix: don't repeat, miss or fail on events when
 subscribing with a cursor

---
 arroba/firehose.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..b5caf0b 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -123,7 +123,11 @@ def subscribe(cursor=None):
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
+    with lock:
+        rollback_start = rollback[0][1]['seq'] if rollback else 0
+        if cursor is not None and cursor >= rollback_start:
+            handoff = rollback.copy()
+
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
@@ -161,13 +165,16 @@ def subscribe(cursor=None):
 
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
+            # another subscriber may extend rollback back past this event; if so,
+            # don't emit this event again from there
+            cursor = payload['seq'] + 1
             yield (header, payload)
 
     # hand off to rollback window and new events
     if cursor is not None:
         if not handoff:
             handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
+        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"]) if handoff else cursor}')
         for header, payload in handoff:
             if payload['seq'] >= cursor:
                 log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
@@ -178,8 +185,10 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+                last_seq = cursor - 1
+                if handoff:
+                    last_seq = handoff[-1][1]['seq']
+                    assert last_seq >= rollback[0][1]["seq"]
 
                 for header, payload in rollback:
                     if payload['seq'] > last_seq:
-- 
2.43.0


From d7c61c2690b6e95e07b6ec3dfe962f839c524219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 05/27] fix: always wait the full delay for a skipped sequence
 number

---
 arroba/firehose.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index b5caf0b..c79b68d 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -282,7 +282,7 @@ class Collector(threading.Thread):
 
         global rollback
         timeout_s = SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY.total_seconds()
-        last_event = time.time()
+        waiting_for = waiting_since = None  # first skipped seq, when we first saw that
         seen = 0
 
         while True:
@@ -311,7 +311,9 @@ class Collector(threading.Thread):
                 # we're not too far behind, wait for it before giving up on it and
                 # moving on
                 if cur_seq > next_seq:
-                    if time.time() - last_event <= timeout_s:
+                    if waiting_for != next_seq:
+                        waiting_for, waiting_since = next_seq, time.time()
+                    if time.time() - waiting_since <= timeout_s:
                         last = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
                         if last is None:
                             logger.warning('No last seq! will retry...')
@@ -323,7 +325,6 @@ class Collector(threading.Thread):
                     logger.info(f'Gave up waiting for seqs {next_seq} to {cur_seq - 1}!')
 
                 # emit event!
-                last_event = time.time()
                 header, payload = process_event(event)
                 did = payload.get('did') or payload.get('repo')
                 delay_s = int((webutil.util.now() - datetime.fromisoformat(payload['time']))\
-- 
2.43.0


From 55e81a373ddd1c7df871c10b8b04df64ea6b5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 06/27] fix: make MemorySequences.allocate atomic

---
 arroba/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 53200f2..68b529b 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,6 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
+import threading
 
 
 import dag_cbor
@@ -655,15 +656,18 @@ class MemorySequences(Sequences):
 
     Attributes:
       sequences (dict): {str NSID: int next sequence number}
+      lock (threading.Lock): for allocating
     """
     def __init__(self):
         self.sequences = {}
+        self.lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
+        with self.lock:
+            next = self.sequences.setdefault(nsid, 1)
+            self.sequences[nsid] += 1
         logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From d698ee11d0065244470d856fbc97110f55d4525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 07/27] fix: make next_tid atomic

---
 arroba/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..957a7c1 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_lock = threading.Lock()
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -216,8 +218,9 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_lock:
+        _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+        return int_to_tid(_tid_ts_last)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From ad44a4b824e78e361a07d5ad49b442c6471251bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 08/27] fix: check the password in createSession

---
 arroba/xrpc_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..fe1784a 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -15,6 +15,10 @@ def create_session(input):
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
+    password = os.environ.get('REPO_PASSWORD')
+    if not password or input['password'] != password:
+        raise ValueError('Invalid identifier or password')
+
     # TODO: generate JWT
     token = os.environ['REPO_TOKEN']
     return {
-- 
2.43.0


From f3b7cbed736e4242ce4ac8be768e81430f94363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 09/27] fix: reject records that would pass for events or
 commits

---
 arroba/storage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 68b529b..0e7c4a3 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -23,6 +23,8 @@ from .util import dag_cbor_cid, DEACTIVATED, tid_to_int, TOMBSTONED, InactiveRep
 
 SUBSCRIBE_REPOS_NSID = 'com.atproto.sync.subscribeRepos'
 
+COMMIT_FIELDS = frozenset(('version', 'did', 'rev', 'prev', 'data', 'sig'))
+
 # Sync 1.1 commit size limits
 # https://github.com/bluesky-social/proposals/blob/main/0006-sync-iteration%2FREADME.md#commit-size-limits
 MAX_RECORD_SIZE_BYTES = 1_000_000  # 1 MB
@@ -416,8 +418,7 @@ class Storage:
                 continue
 
             blocks[block.cid] = block
-            commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
+            if block.decoded.keys() == COMMIT_FIELDS:
                 commit_block = block
 
         # final commit
@@ -585,6 +586,13 @@ class Storage:
 
             # raises ValidationError if it doesn't validate
             assert write.record is not None
+            # don't let records pass for events or commits in read_events_by_seq
+            type_ = write.record.get('$type', '')
+            if (not isinstance(type_, str)
+                    or type_.startswith(f'{SUBSCRIBE_REPOS_NSID}#')
+                    or write.record.keys() == COMMIT_FIELDS):
+                raise ValueError(f"{path} isn't a valid record")
+
             server.validate(write.record.get('$type'), 'record', write.record)
 
             block = Block(decoded=write.record, repo=repo_did, seq=seq)
-- 
2.43.0


From ec691159878fdbebccaa9cc7a77c4abe68288138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 10/27] fix: write a commit's blocks in its Datastore
 transaction

write_blocks put them in a transaction of its own, so when the commit then
failed, or was retried after contention, they stayed, and were served as an
event.
---
 arroba/datastore_storage.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..36c430d 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -873,14 +873,19 @@ class DatastoreStorage(Storage, NdbMixin):
         return AtpBlock.create(repo_did=repo_did, data=obj, seq=seq).to_block()
 
     @ndb_context
-    @ndb.non_transactional()
     def write_blocks(self, blocks):
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
-        existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
+
+        @ndb.non_transactional()
+        def existing_keys():
+            return AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
+
+        existing = existing_keys()
         existing_cids = [key.id() for key in existing]
         new = [AtpBlock.from_block(b) for b in blocks
                if b.cid.encode('base32') not in existing_cids]
         logger.debug(f'  {len(new)} new {len(existing)} existing')
+        # joins the commit's transaction, if any, so that they're written atomically
         ndb.transaction(lambda: ndb.put_multi(new), join=True)
 
     @ndb_context
-- 
2.43.0


From e4d71787b35c4affe96c668625cde2cf5e55f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 11/27] fix: don't commit to a repo that has been deactivated
 in storage

Only the status of the Repo object passed to commit was checked, which may be
out of date.
---
 arroba/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 0e7c4a3..df56c88 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -551,6 +551,8 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             stored = self.load_repo(repo_did)
+            if stored.status:  # repo may be out of date
+                raise InactiveRepo(repo_did, stored.status)
             prev = stored.head.cid  # for the new commit
 
         # make changes on a copy so that if we fail, they don't leak
-- 
2.43.0


From 6e55ffb313b8f98bd8e91fbf3b2b5fb4e813d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 12/27] fix: don't activate tombstoned repos, as documented

---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index df56c88..b48da5d 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -289,6 +289,9 @@ class Storage:
         Args:
           repo (Repo)
         """
+        if self.load_repo(repo.did).status == TOMBSTONED:
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
-- 
2.43.0


From 977bf890d96e5cbde908da68b5f80c56290676f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 13/27] fix: report the head commit's rev in listRepos

It was made from the head's sequence number, which is 0 for imported repos.
---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..511dd58 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From 178f8709d45e855d8c51adb13c21c239287ddcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 14/27] fix: don't fail on imported repos' blocks when reading
 events from the start

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index b48da5d..7afe486 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -403,7 +403,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # imported repos' blocks have seq 0, we don't emit those
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From 110447c98097401b7caa5abfab3fa51882a14193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 15/27] fix: prove the right record in sync.getRecord

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 511dd58..8cf0c12 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,7 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}', block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From d93f6f5ca4892823b3635fcf671d3a72ce8c9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 16/27] fix: don't treat blobs whose download was cut off as
 fetched

---
 arroba/datastore_storage.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 36c430d..19b82aa 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -539,10 +539,18 @@ class AtpRemoteBlob(ndb.Model):
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
-        digest = multihash.digest(resp.content, 'sha2-256')
+        try:
+            content = resp.content
+        except OSError as e:
+            if not self.cid:
+                self.status = 'inactive'
+            self.put()
+            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
+
+        digest = multihash.digest(content, 'sha2-256')
         self.cid = CID('base58btc', 1, 'raw', digest).encode('base32')
-        self.size = len(resp.content)
-        self.generate_metadata(resp.content)
+        self.size = len(content)
+        self.generate_metadata(content)
         self.status = None
         self.put()
 
-- 
2.43.0


From 8103eb6da318761761823ebabb0e6634fc2cabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 17/27] fix: don't keep a blob's metadata when its content
 changes

---
 arroba/datastore_storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 19b82aa..53ea711 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -579,6 +579,9 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           content (bytes)
         """
+        # don't keep metadata of content that we fetched before
+        self.width = self.height = self.duration = None
+
         try:
             media_info = MediaInfo.parse(BytesIO(content))
             tracks = media_info.video_tracks or media_info.image_tracks
-- 
2.43.0


From ac3223d9ab4940c7f83c9139cc792b00579b4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 18/27] fix: don't take an earlier response's size for a blob's

---
 arroba/datastore_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 53ea711..6cafbeb 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -532,7 +532,7 @@ class AtpRemoteBlob(ndb.Model):
         try:
             length = self.size = int(length)
         except (TypeError, ValueError):
-            pass  # read body and check length manually below
+            self.size = None  # read body and check length manually below
 
         if self.size and self.size > BLOB_MAX_BYTES:
             self.put()
-- 
2.43.0


From 155ed5aa6157edd608a0a6a5195320822b705acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 19/27] fix: return the DidPlc from rollback_plc

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..f023878 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -321,7 +321,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From b6011851c5aa03da2b9b5669f6be2e0c34ecaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 20/27] fix: don't roll back a did:plc to a nullified operation

---
 arroba/did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index f023878..5c26955 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -309,7 +309,8 @@ def rollback_plc(did, rotation_key, num_operations=1,
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
     resp.raise_for_status()
-    log = resp.json()
+    # operations that were nullified, ie replaced by a recovery operation, don't count
+    log = [entry for entry in resp.json() if not entry.get('nullified')]
 
     assert len(log) >= num_operations + 1, log
     rotation_did_key = encode_did_key(rotation_key.public_key())
-- 
2.43.0


From 032b87764e6715e2cb9670856d9e12dadb9aaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 21/27] fix: don't hold a memcache lease longer than memcache
 does

---
 arroba/memcache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..3e9a8c2 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -61,9 +61,13 @@ class Lease:
         for attempt in range(self.retries + 1):
             # add returns True if the key didn't exist and was set,
             # False if it already existed
+            #
+            # memcache's expiration starts at some point during the add, so use
+            # the time before it so that we never hold the lease longer than that
+            start = webutil.util.now()
             if self.client.add(self.key, 'locked', noreply=False,
                                expire=int(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+                self.expires_at = start + self.expiration
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From c84949e4e2df9e447ea76266520df5cc1010914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 22/27] fix: round a memcache lease's expiration up, 0 means
 never

---
 arroba/memcache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 3e9a8c2..c82a270 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,6 +1,7 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
@@ -66,7 +67,7 @@ class Lease:
             # the time before it so that we never hold the lease longer than that
             start = webutil.util.now()
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
+                               expire=math.ceil(self.expiration.total_seconds())):
                 self.expires_at = start + self.expiration
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
-- 
2.43.0


From 83abfdacabb73ed9844db5187a694a70861a7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:10 +0000
Subject: [PATCH 23/27] fix: don't send a subscriber events from before its
 cursor

...if the collector hadn't emitted the ones up to the cursor yet when it
subscribed.
---
 arroba/firehose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index c79b68d..ce699e7 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -202,7 +202,10 @@ def subscribe(cursor=None):
         # let these get garbage collected
         handoff = pre_rollback = None
         while True:
-            yield subscriber.get()
+            header, payload = subscriber.get()
+            # the collector may not have reached our cursor yet
+            if cursor is None or payload['seq'] >= cursor:
+                yield (header, payload)
 
     finally:
         log('removing subscriber')
-- 
2.43.0


From 3bb0997893d6b698390e8f6156da65616b2d897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 24/27] fix: keep a Repo's status when changing it in the
 Datastore fails

---
 arroba/datastore_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 6cafbeb..ca1821e 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -718,7 +718,6 @@ class DatastoreStorage(Storage, NdbMixin):
     @ndb_context
     def _set_repo_status(self, repo, status):
         assert status in (DEACTIVATED, DELETED, TOMBSTONED, None)
-        repo.status = status  # in memory only
 
         @ndb.transactional(join=True)
         def update():
@@ -727,6 +726,7 @@ class DatastoreStorage(Storage, NdbMixin):
             atp_repo.put()
 
         update()
+        repo.status = status  # in memory only, once it's stored
 
     def store_repo(self, repo):
         @ndb.transactional(join=True)
-- 
2.43.0


From 0409c8e2a50277981cb601a3df178f7a5211a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 25/27] fix: report the sequence number of an event that
 couldn't be written as lost

---
 arroba/storage.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7afe486..4964fa0 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -476,13 +476,18 @@ class Storage:
         assert type in ('account', 'identity', 'sync', 'tombstone'), type
 
         seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
-        block = self.write(repo.did, {
-            '$type': f'com.atproto.sync.subscribeRepos#{type}',
-            'seq': seq,
-            'did': repo.did,
-            'time': webutil.util.now().isoformat(),
-            **kwargs,
-        }, seq=seq)
+        try:
+            block = self.write(repo.did, {
+                '$type': f'com.atproto.sync.subscribeRepos#{type}',
+                'seq': seq,
+                'did': repo.did,
+                'time': webutil.util.now().isoformat(),
+                **kwargs,
+            }, seq=seq)
+        except BaseException:
+            if repo.callback:
+                repo.callback(lost_seq=seq)
+            raise
 
         if repo.callback:
             repo.callback(data=block.decoded)
-- 
2.43.0


From 60fbefdef689dd4c465aaea9f64554b043af4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 26/27] fix: don't store that a blob was fetched before it was

If the process ended in between, it was never fetched, and meanwhile others
that needed it got it without a CID.
---
 arroba/datastore_storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index ca1821e..8e463b1 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -518,9 +518,8 @@ class AtpRemoteBlob(ndb.Model):
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
-        finally:
             self.put()
+            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
         # check type, size
         self.mime_type = (resp.headers.get('Content-Type')
-- 
2.43.0


From c823e1ec88466438e616f8a60ba77cc1247b987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 27/27] fix: keep repos that are added to a blob while it's
 being fetched

---
 arroba/datastore_storage.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 8e463b1..e15aa6a 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -518,7 +518,7 @@ class AtpRemoteBlob(ndb.Model):
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            self.put()
+            self._store()
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
         # check type, size
@@ -534,7 +534,7 @@ class AtpRemoteBlob(ndb.Model):
             self.size = None  # read body and check length manually below
 
         if self.size and self.size > BLOB_MAX_BYTES:
-            self.put()
+            self._store()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
@@ -543,7 +543,7 @@ class AtpRemoteBlob(ndb.Model):
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            self.put()
+            self._store()
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
         digest = multihash.digest(content, 'sha2-256')
@@ -551,6 +551,13 @@ class AtpRemoteBlob(ndb.Model):
         self.size = len(content)
         self.generate_metadata(content)
         self.status = None
+        self._store()
+
+    @ndb.transactional()
+    def _store(self):
+        """Stores this blob, with any repos added since it was loaded."""
+        if stored := self.key.get():
+            self.repos = stored.repos
         self.put()
 
     def as_object(self):
-- 
2.43.0

