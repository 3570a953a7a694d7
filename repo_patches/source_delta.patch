From 3ae3bae51c8762f60b0dab33af135f8a92ab11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 01/46] fix: load_ref drops the loaded elements of a list

The list branch attached the cached shape's own element list instead of the
elements it had just loaded, so nested collections came back with empty
elements and every caller shared (and could mutate) the cached shape.
---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..35294ff 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -283,7 +283,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From d8291f1544f576214512684a00c04def9552a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 02/46] fix: preload discards uncommitted work

The preload_* methods replaced the caches wholesale, dropping entries that were
still marked dirty; the next commit then failed with a KeyError and the calls
were lost. Uncommitted entries now survive a preload.
---
 mandala/storage.py       | 14 ++++++++++----
 mandala/storage_utils.py |  8 ++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 35294ff..aeea9dc 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -188,17 +188,23 @@ class Storage:
 
     def preload_calls(self):
         df = self.call_storage.get_df()
+        dirty_hids = self.calls.dirty_hids
+        if dirty_hids: # keep the calls that have not been committed yet
+            cached_df = self.call_cache.df
+            cached_df = cached_df[cached_df.index.get_level_values(0).isin(dirty_hids)]
+            df = df[~df.index.get_level_values(0).isin(dirty_hids)]
+            df = pd.concat([df, cached_df])
         self.call_cache.df = df
-        self.call_cache.call_hids = set(df.index.levels[0].unique())
+        self.call_cache.call_hids = set(df.index.get_level_values(0))
     
     def preload_shapes(self):
-        self.shapes.cache = self.shapes.persistent.load_all()
+        self.shapes.preload()
     
     def preload_ops(self):
-        self.ops.cache = self.ops.persistent.load_all()
+        self.ops.preload()
 
     def preload_atoms(self):
-        self.atoms.cache = self.atoms.persistent.load_all()
+        self.atoms.preload()
     
     def preload(self, lazy: bool = True):
         self.preload_calls()
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..d3fa6dd 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -274,6 +274,14 @@ class CachedDictStorage(DictStorage):
     def load_all(self) -> Dict[str, Any]:
         return self.persistent.load_all()
     
+    def preload(self) -> None:
+        """
+        Load everything from the persistent storage into the cache, keeping the
+        values that have not been committed yet
+        """
+        uncommitted = {key: self.cache[key] for key in self.dirty_keys}
+        self.cache = {**self.persistent.load_all(), **uncommitted}
+    
     def __len__(self) -> int:
         return len(self.cache)
 
-- 
2.43.0


From 120408cf45f3acdd65842ee1be9279e1f98cddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 03/46] fix: saved calls are not found by the content of their
 inputs

The lookup by content id asked the database about reference history ids, so a
call saved by an earlier session with equal inputs under a different history was
executed again. With the right query the data was then requested with the
connection passed positionally, which the transaction decorator rejects.
---
 mandala/storage_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index d3fa6dd..acdcba3 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None) # an explicit `conn=None` means a new transaction
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
@@ -648,7 +649,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -746,7 +747,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -763,7 +764,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid, conn=conn)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From 971a78adfe6a79d7157cebad143db053e4d56b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 04/46] fix: drop_calls mishandles calls that are not committed
 yet

A dropped call that was still unsaved stayed in the list of calls to save, so
the next commit failed with a KeyError; unsaved dependents were not found, and a
failing database transaction left the cache without calls the database still
had. A one-shot iterator of ids also lost its first element.
---
 mandala/storage.py | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index aeea9dc..2ca522f 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -406,7 +406,6 @@ class Storage:
     def get_call(self, hid: str, lazy: bool) -> Call:
         return self.mget_call([hid], in_memory=lazy)[0]
 
-    @transaction
     def drop_calls(self, calls_or_hids: Union[Iterable[str], Iterable[Call]], delete_dependents: bool, 
                    conn: Optional[sqlite3.Connection] = None):
         """
@@ -416,28 +415,41 @@ class Storage:
         Removing from the cache is necessary to ensure that future lookups don't
         hit a false positive.
         """
-        # figure out what we're given    
-        if all(isinstance(c, Call) for c in calls_or_hids):
-            hids = [c.hid for c in calls_or_hids]
-        else:
-            hids = list(calls_or_hids)
-        hids = set(hids)
-        if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
-                ref_hids=set(), call_hids=hids, conn=conn,
-            )
-            hids |= dependent_call_hids
+        hids = set(c.hid if isinstance(c, Call) else c for c in calls_or_hids)
+        hids, num_dropped_persistent = self._drop_calls_persistent(
+            hids, delete_dependents=delete_dependents, conn=conn
+        )
+        # forget the calls only once they are gone from the database
         num_dropped_cache = 0
-        num_dropped_persistent = 0
         for hid in hids:
-            if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
+            if self.calls.cache.exists(hid):
+                self.calls.drop(hid)
                 num_dropped_cache += 1
+        logger.info(f"Dropped {num_dropped_persistent} calls (and {num_dropped_cache} from cache).")
+
+    @transaction
+    def _drop_calls_persistent(self, hids: Set[str], delete_dependents: bool,
+                               conn: Optional[sqlite3.Connection] = None) -> Tuple[Set[str], int]:
+        """
+        Remove the given calls (and optionally their dependents) from the
+        database, and return the HIDs of all calls to be dropped (which may only
+        exist in the cache) together with the number of calls that were removed.
+        """
+        if delete_dependents:
+            # there may be dependents that are not committed yet
+            df = self.call_storage.get_df(conn=conn)
+            cached_df = self.calls.cache.df
+            df = pd.concat([df, cached_df[~cached_df.index.isin(df.index)]])
+            _, dependent_call_hids = InMemCallStorage(df).get_dependents(
+                ref_hids=set(), call_hids=hids
+            )
+            hids = hids | dependent_call_hids
+        num_dropped = 0
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
                 self.call_storage.drop(hid, conn=conn)
-                num_dropped_persistent += 1
-        logger.info(f"Dropped {num_dropped_persistent} calls (and {num_dropped_cache} from cache).")
+                num_dropped += 1
+        return hids, num_dropped
 
     ############################################################################
     ### provenance queries
-- 
2.43.0


From 52c2fa96326cc8c4f5c1345f83b1089d1a2266ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 05/46] fix: the storage keeps using the old call cache after
 clear_cache

clear_cache() replaces the in-memory call table, but Storage.call_cache still
pointed at the old one: preloading filled a table nobody reads, and get_call()
kept returning calls that had been dropped since.
---
 mandala/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 2ca522f..2201d2b 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -43,7 +43,6 @@ class Storage:
 
         self.call_storage = SQLiteCallStorage(db=self.db, table_name="calls")
         self.calls = CachedCallStorage(persistent=self.call_storage)
-        self.call_cache = self.calls.cache
 
         self.overflow_dir = overflow_dir
         self.overflow_threshold_MB = overflow_threshold_MB
@@ -145,6 +144,10 @@ class Storage:
             "track_globals": self._track_globals,
         }
     
+    @property
+    def call_cache(self) -> InMemCallStorage:
+        return self.calls.cache
+
     def conn(self) -> sqlite3.Connection:
         return self.db.conn()
 
-- 
2.43.0


From 1fd92f2f54ad0525c45f1bcc122c3d19207de234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 06/46] fix: overflow files are not written atomically

A crash, a full disk or an interrupt in the middle of writing a large value left
a partial file under its final name. As existing files are never rewritten, the
value stayed unreadable forever, and after a power loss the database could refer
to a file that was never flushed.
---
 mandala/storage_utils.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index acdcba3..e76e5ec 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -153,7 +153,26 @@ class JoblibDictStorage(DictStorage):
     def set(self, key: str, value: Any) -> None:
         if self.exists(key):
             return # this is a write-once storage
-        joblib.dump(value, self.get_path_for_key(key))
+        path = self.get_path_for_key(key)
+        # other processes, and later runs, must never see a partial file, even
+        # after a crash; so write a temporary file, and only then give it its name
+        tmp_path = f'{path}.{uuid.uuid4().hex}.tmp'
+        try:
+            with open(tmp_path, 'wb') as f:
+                joblib.dump(value, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
+        if os.name == 'posix': # make the new name durable as well
+            fd = os.open(self.root, os.O_RDONLY)
+            try:
+                os.fsync(fd)
+            finally:
+                os.close(fd)
     
     def drop(self, key: str) -> None:
         os.remove(self.get_path_for_key(key))
-- 
2.43.0


From 6e11dd3fb095c2890cc0e1ccd23320149429fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 07/46] fix: saving fails when another process saved the same
 call first

Two processes that compute the same new call both try to insert its rows; the
second one failed with an IntegrityError and lost its whole block. Saving a call
that is already there now replaces its rows, like it does for values.
---
 mandala/storage_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index e76e5ec..8eea4d9 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -571,6 +571,8 @@ class SQLiteCallStorage:
         semantic_version = call_data["semantic_version"]
         content_version = call_data["content_version"]
         op_name = call_data["op_name"]
+        # another process may have saved the same call in the meantime
+        self.drop(call_data["hid"], conn=conn)
         for k in call_data["input_hids"]:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
-- 
2.43.0


From a15083f448a71a6d88b72fdbdf478070717e8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 08/46] fix: a failed commit forgets what it had to save

The caches were marked clean while the transaction was still open, so after a
lock timeout, full disk, I/O error or interrupt the rolled back work was never
saved by any later commit.
---
 mandala/storage.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 2201d2b..79a4be4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -217,13 +217,23 @@ class Storage:
             self.preload_atoms()
 
     def commit(self):
-        with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
-            if self.versioned:
-                self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+        # until the transaction is over, everything in it is still uncommitted
+        caches = [self.atoms, self.shapes, self.ops]
+        dirty_keys = [set(cache.dirty_keys) for cache in caches]
+        dirty_hids = set(self.calls.dirty_hids)
+        try:
+            with self.conn() as conn:
+                self.atoms.commit(conn=conn)
+                self.shapes.commit(conn=conn)
+                self.ops.commit(conn=conn)
+                if self.versioned:
+                    self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+                self.calls.commit(conn=conn)
+        except BaseException:
+            for cache, keys in zip(caches, dirty_keys):
+                cache.dirty_keys |= keys
+            self.calls.dirty_hids |= dirty_hids
+            raise
 
 
     def __repr__(self):
-- 
2.43.0


From 11e74ed6673b26288b55012562f085e1a4904296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 09/46] fix: an in-memory storage is stuck after a failed or
 interrupted transaction

The connection of an in-memory database outlives the transaction, but it was not
rolled back after an OperationalError or a KeyboardInterrupt, so every later
transaction failed with 'cannot start a transaction within a transaction' after
exhausting all retries.
---
 mandala/storage_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 8eea4d9..91cb3a2 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -67,11 +67,12 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
                 conn.commit()
                 return res
             except sqlite3.OperationalError as e:
+                conn.rollback() # an in-memory database keeps its connection
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
                 continue
-            except Exception as e:
+            except BaseException as e:
                 conn.rollback()
                 raise e
             finally:
-- 
2.43.0


From e7eb2cc92aa95a83f247bfb7b80819b91fed518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 10/46] fix: a failing block entry leaves the session inside
 the block

If syncing the code failed (or was aborted) on entry, the context and the mode
had been set already and were never taken back, so everything afterwards ran as
if inside a block. The same happened when an exit hook failed.
---
 mandala/storage.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 79a4be4..2805d65 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1238,12 +1238,16 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
+        try:
+            if self.versioned:
+                versioner, code_state = self.sync_code()
+                self.cached_versioner = versioner
+                self.code_state = code_state
+        except BaseException: # the block is not entered
+            self._next_mode = self.mode
+            raise
         Context.current_context = Context(storage=self)
         self._mode_stack.append(self._next_mode)
-        if self.versioned:
-            versioner, code_state = self.sync_code()
-            self.cached_versioner = versioner
-            self.code_state = code_state
         return self
 
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -1271,20 +1275,22 @@ class Storage:
         except Exception as e:
             raise e
         finally:
-            if len(self._mode_stack) == 1: # this is the topmost level
+            topmost = len(self._mode_stack) == 1
+            if topmost:
                 Context.current_context = None
                 self.cached_versioner = None
                 self.code_state = None
 
-                for hook in self._exit_hooks:
-                    hook(self)
-
             _ = self._mode_stack.pop()
             if self._mode_stack:
                 self._next_mode = self._mode_stack[-1]
             else:
                 self._next_mode = 'run'
 
+            if topmost:
+                for hook in self._exit_hooks:
+                    hook(self)
+
 
 
 class noop:
-- 
2.43.0


From ce369ea9960e68f99f1dbcbfee195febb8f1e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 11/46] fix: leaving a block of one storage ends the enclosing
 block of another

Exiting a nested block of a different storage reset the current context to None,
so the rest of the outer block silently ran without memoization.
---
 mandala/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 2805d65..271a096 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -125,6 +125,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # the contexts to return to, one for each mode
+        self._enclosing_contexts = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1246,6 +1248,7 @@ class Storage:
         except BaseException: # the block is not entered
             self._next_mode = self.mode
             raise
+        self._enclosing_contexts.append(Context.current_context)
         Context.current_context = Context(storage=self)
         self._mode_stack.append(self._next_mode)
         return self
@@ -1276,8 +1279,8 @@ class Storage:
             raise e
         finally:
             topmost = len(self._mode_stack) == 1
+            Context.current_context = self._enclosing_contexts.pop()
             if topmost:
-                Context.current_context = None
                 self.cached_versioner = None
                 self.code_state = None
 
-- 
2.43.0


From 98d7c26d4790c0a5f6f616ce7e7e013472356460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 12/46] fix: reading a value marks it as uncommitted

unwrap() wrote the value it had just loaded back into the cache of values as new
data, so after merely reading, clear_cache() refused to run and the next commit
rewrote the value. load_ref() already caches what it loads.
---
 mandala/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 271a096..4a184c9 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -522,9 +522,8 @@ class Storage:
         # TODO: implement `cache = False` in `load_ref`
         assert isinstance(obj, AtomRef)
         if not obj.in_memory:
+            # this caches the value; it must not be marked as uncommitted
             ref = self.load_ref(hid=obj.hid, in_memory=False)
-            if cache:
-                self.atoms[obj.cid] = serialize(ref.obj)
             return ref.obj
         else:
             return obj.obj
-- 
2.43.0


From 1c6be0b43ee97484614838d582a331f326f36f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 13/46] fix: collections found by content keep the histories of
 another computation

When a call was found by the content of its inputs, the elements of the lists
and dicts involved kept the history ids of the call that happened to be found:
their provenance was wrong, and dropping that other call and cleaning up made
the collections unloadable.
---
 mandala/storage.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 4a184c9..3d5fa62 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -603,6 +603,19 @@ class Storage:
         else:
             raise NotImplementedError
 
+    def get_ref_tp(self, ref: Ref) -> Type:
+        """
+        Get the type of an existing ref from its structure.
+        """
+        if isinstance(ref, ListRef):
+            elt_tps = [self.get_ref_tp(elt) for elt in ref]
+            return ListType(elt=elt_tps[0] if elt_tps else AtomType())
+        elif isinstance(ref, DictRef):
+            val_tps = [self.get_ref_tp(val) for val in ref.values()]
+            return DictType(key=AtomType(), val=val_tps[0] if val_tps else AtomType())
+        else:
+            return AtomType()
+
     def construct(self, tp: Type, val: Any) -> Tuple[Ref, List[Call]]:
         """
         Given a target type and a value, construct a `Ref` of the target type,
@@ -705,6 +718,10 @@ class Storage:
             call_data = self.calls.get_data(call_history_id=call_hid)
             logger.debug(f"Found call to {op.name} with hid {call_hid}.")
             return self._get_call_from_data(call_data, in_memory=True)
+        if op.__structural__:
+            # cheap to re-build, and building from the actual inputs gives all
+            # the parts of the result the correct history IDs
+            return None
         ### if this fails, look up by content ID, and apply the correct history IDs
         call_cid = op.get_call_content_id(
             inputs=inputs, semantic_version=semantic_version
@@ -855,9 +872,16 @@ class Storage:
             call_hid = call_option.hid
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
-            return main_call.outputs, main_call, input_calls
+            output_calls = []
+            if not self.calls.exists(call_hid):
+                # found by content: the elements of any collections in the
+                # outputs still carry the history of the call that was found
+                for k, v in main_call.outputs.items():
+                    main_call.outputs[k], output_calls_for_output = self.destruct(v, tp=self.get_ref_tp(v))
+                    output_calls.extend(output_calls_for_output)
+            return main_call.outputs, main_call, input_calls + output_calls
         
-        if not self._allow_new_calls:
+        if not self._allow_new_calls and not op.__structural__:
             # caller should decide how to handle this
             raise RuntimeError(f"Call to {op.name} does not exist and new calls are not allowed.")
 
-- 
2.43.0


From 7dc8c9bcfdec976a0c4ca1d262655cbc57aa95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 14/46] fix: cleanup_refs removes parts of collections that are
 still needed

Elements were kept only if they appeared in a call themselves, so once the calls
that took a collection apart were gone, cleaning up made the collection
unloadable; work left uncommitted by a failed save was not considered at all.
Each orphan was dropped in a transaction of its own, so a crash could leave a
collection without its elements, which a later run then took for complete.
---
 mandala/storage.py       | 73 +++++++++++++++++++++++++++++-----------
 mandala/storage_utils.py |  4 +--
 2 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 3d5fa62..ca17e2e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -313,38 +313,48 @@ class Storage:
         else:
             raise NotImplementedError
 
-    def _drop_ref_hid(self, hid: str, verify: bool = False):
+    def _drop_ref_hid(self, hid: str, verify: bool = False, conn: Optional[sqlite3.Connection] = None):
         """
         Internal only function to drop a ref by its hid when it is not connected
         to any calls.
         """
         if verify:
             assert not self.call_storage.exists_ref_hid(hid)
-        self.shapes.drop(hid)
+        self.shapes.drop(hid, conn=conn)
 
-    def _drop_ref(self, cid: str, verify: bool = False):
+    def _drop_ref(self, cid: str, verify: bool = False, conn: Optional[sqlite3.Connection] = None):
         """
         Internal only function to drop a ref by its cid when it is not connected
         to any calls and is not in the `shapes` table.
         """
         if verify:
             assert cid not in [shape.cid for shape in self.shapes.persistent.values()]
-        self.atoms.drop(cid)
+        self.atoms.drop(cid, conn=conn)
 
     def cleanup_refs(self):
         """
         Remove all refs that are not connected to any calls.
         """
         ### first, remove hids that are not connected to any calls
-        orphans = self.get_orphans()
+        self._cleanup_hids()
+        ### next, remove cids that are not connected to any refs
+        self._cleanup_cids()
+
+    @transaction
+    def _cleanup_hids(self, conn: Optional[sqlite3.Connection] = None):
+        # all in one transaction: a collection left without its elements would
+        # be taken for a complete one when it is computed again
+        orphans = self.get_orphans(conn=conn)
         logger.info(f"Cleaning up {len(orphans)} orphaned refs.")
         for hid in orphans:
-            self._drop_ref_hid(hid)
-        ### next, remove cids that are not connected to any refs
-        unreferenced_cids = self.get_unreferenced_cids()
+            self._drop_ref_hid(hid, conn=conn)
+
+    @transaction
+    def _cleanup_cids(self, conn: Optional[sqlite3.Connection] = None):
+        unreferenced_cids = self.get_unreferenced_cids(conn=conn)
         logger.info(f"Cleaning up {len(unreferenced_cids)} unreferenced cids.")
         for cid in unreferenced_cids:
-            self._drop_ref(cid)
+            self._drop_ref(cid, conn=conn)
 
     ############################################################################
     ### calls interface
@@ -492,29 +502,54 @@ class Storage:
         # return [self.get_call(call_hid, lazy=True) for call_hid in call_hids]
         return self.mget_call(hids=call_hids, in_memory=True)
 
-    def get_orphans(self) -> Set[str]:
+    @transaction
+    def get_orphans(self, conn: Optional[sqlite3.Connection] = None) -> Set[str]:
         """
-        Return the HIDs of the refs not connected to any calls.
+        Return the HIDs of the refs not connected to any calls, neither directly
+        nor as parts of a collection that is.
         """
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        all_hids = set(self.shapes.persistent.keys())
-        df = self.call_storage.get_df()
-        hids_in_calls = df["ref_history_id"].unique()
-        return all_hids - set(hids_in_calls)
+        shapes = self._get_all_shapes(conn=conn)
+        used_hids = set()
+        to_visit = list(self._get_all_calls_df(conn=conn)["ref_history_id"].unique())
+        while to_visit:
+            hid = to_visit.pop()
+            if hid in used_hids:
+                continue
+            used_hids.add(hid)
+            shape = shapes.get(hid)
+            if isinstance(shape, ListRef):
+                to_visit.extend(elt.hid for elt in shape)
+            elif isinstance(shape, DictRef):
+                to_visit.extend(elt.hid for elt in shape.values())
+        return set(self.shapes.persistent.keys(conn=conn)) - used_hids
 
-    def get_unreferenced_cids(self) -> Set[str]:
+    @transaction
+    def get_unreferenced_cids(self, conn: Optional[sqlite3.Connection] = None) -> Set[str]:
         """
         Return the CIDs of the refs that don't appear in any calls or in the `shapes` table.
         """
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        all_cids = set(self.atoms.persistent.keys())
-        df = self.call_storage.get_df()
+        all_cids = set(self.atoms.persistent.keys(conn=conn))
+        df = self._get_all_calls_df(conn=conn)
         cids_in_calls = df["ref_content_id"].unique()
-        cids_in_shapes = [shape.cid for shape in self.shapes.persistent.values()]
+        cids_in_shapes = [shape.cid for shape in self._get_all_shapes(conn=conn).values()]
         return (all_cids - set(cids_in_calls)) - set(cids_in_shapes)
 
+    def _get_all_shapes(self, conn: sqlite3.Connection) -> Dict[str, Ref]:
+        # including the ones that are not committed yet
+        res = {shape.hid: shape for shape in self.shapes.persistent.values(conn=conn)}
+        res.update({hid: self.shapes.cache[hid] for hid in self.shapes.dirty_keys})
+        return res
+
+    def _get_all_calls_df(self, conn: sqlite3.Connection) -> pd.DataFrame:
+        # including the ones that are not committed yet
+        cached_df = self.calls.cache.df
+        dirty_df = cached_df[cached_df.index.get_level_values(0).isin(self.calls.dirty_hids)]
+        return pd.concat([self.call_storage.get_df(conn=conn), dirty_df])
+
     ############################################################################
     ###
     ############################################################################
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 91cb3a2..4c9889a 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -336,12 +336,12 @@ class CachedDictStorage(DictStorage):
         self.cache.clear()
         self.dirty_keys.clear()
 
-    def drop(self, key: str) -> None:
+    def drop(self, key: str, conn: Optional[sqlite3.Connection] = None) -> None:
         if key in self.cache:
             del self.cache[key]
         if key in self.dirty_keys:
             self.dirty_keys.remove(key) # when we `drop`, we forget this key ever existed
-        self.persistent.drop(key)
+        self.persistent.drop(key, conn=conn)
 
     def exists(self, key: str) -> bool:
         if key in self.cache:
-- 
2.43.0


From 6231e6ce83127d838cc1559902bf4cd7559ad3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 15/46] fix: an overflow file found on disk may not be durable
 yet

---
 mandala/storage_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 4c9889a..4e141d4 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -152,8 +152,9 @@ class JoblibDictStorage(DictStorage):
         return os.path.exists(self.get_path_for_key(key))
     
     def set(self, key: str, value: Any) -> None:
-        if self.exists(key):
-            return # this is a write-once storage
+        if self.exists(key): # this is a write-once storage
+            self._sync_root() # (whoever wrote it may have been cut off)
+            return
         path = self.get_path_for_key(key)
         # other processes, and later runs, must never see a partial file, even
         # after a crash; so write a temporary file, and only then give it its name
@@ -168,7 +169,13 @@ class JoblibDictStorage(DictStorage):
             if os.path.exists(tmp_path):
                 os.remove(tmp_path)
             raise
-        if os.name == 'posix': # make the new name durable as well
+        self._sync_root()
+    
+    def _sync_root(self):
+        """
+        Make the names of the files durable as well
+        """
+        if os.name == 'posix':
             fd = os.open(self.root, os.O_RDONLY)
             try:
                 os.fsync(fd)
-- 
2.43.0


From fca127b09e98e5dc4fefc935d84de5a41de2205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 16/46] fix: a call cut off while it is being saved stays
 recorded in part

---
 mandala/storage.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index ca17e2e..10c67be 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -276,14 +276,15 @@ class Storage:
                 self.atoms[ref.cid] = serialize(ref.obj)
             self.shapes[ref.hid] = ref.detached()
         elif isinstance(ref, ListRef):
-            self.shapes[ref.hid] = ref.shape()
+            # the elements first: a known shape means that they are saved
             for i, elt in enumerate(ref):
                 self.save_ref(elt)
-        elif isinstance(ref, DictRef):
             self.shapes[ref.hid] = ref.shape()
+        elif isinstance(ref, DictRef):
             for k, v in ref.items():
                 self.save_ref(v)
                 # self.save_ref(k)
+            self.shapes[ref.hid] = ref.shape()
         else:
             raise NotImplementedError
 
@@ -1284,9 +1285,13 @@ class Storage:
                 kwarg_keys=kwarg_keys,
             )
             if config.get("save_calls", False):
-                self.save_call(main_call)
+                # the call itself comes last, so that a failure in between
+                # does not leave it known without its structural calls
+                for ref in itertools.chain(main_call.inputs.values(), main_call.outputs.values()):
+                    self.save_ref(ref)
                 for call in calls:
                     self.save_call(call)
+                self.save_call(main_call)
             ord_outputs = op.get_ordered_outputs(main_call.outputs)
             if len(ord_outputs) == 1:
                 return ord_outputs[0]
-- 
2.43.0


From 44fe5d1a6ec8ac3a999855c5fe725bb6633d70c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:32 +0000
Subject: [PATCH 17/46] fix: outside a block, ops are called with the wrappers
 of special values

---
 mandala/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..f2c3f2b 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -243,6 +243,10 @@ class Op:
 
     def __call__(self, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
         if Context.current_context is None:  # act as noop
+            bound_arguments = inspect.signature(self.f).bind(*args, **kwargs)
+            bound_arguments.apply_defaults()
+            args = [unwrap_special_value(arg) for arg in bound_arguments.args]
+            kwargs = {k: unwrap_special_value(v) for k, v in bound_arguments.kwargs.items()}
             return self.f(*args, **kwargs)
         else:
             storage = Context.current_context.storage
-- 
2.43.0


From 2cc3e1525c821d210b6d50092e8d179fde28b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 18/46] fix: inputs of calls found by content keep the
 histories of another call

---
 mandala/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 10c67be..1cbe9d7 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -773,8 +773,8 @@ class Storage:
             output_history_ids = op.get_output_history_ids(call_history_id=call_hid, output_names=list(op.get_ordered_outputs(output_dict=output_names_identity)))
             for k, v in call_prototype.outputs.items():
                 v.hid = output_history_ids[k]
-            for k, v in call_prototype.inputs.items():
-                v.hid = inputs[k].hid
+            # (the elements of collections have their own histories, too)
+            call_prototype.inputs = {k: inputs[k] for k in call_prototype.inputs}
             return call_prototype
         logger.debug(f"Could not find a call to {op.name} with hid {call_hid} or cid {call_cid}.")
         return None
-- 
2.43.0


From 8a2361d053097142357e847d4a23099dfce47b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 19/46] fix: an interrupted drop_calls leaves dropped calls in
 the cache

---
 mandala/storage.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1cbe9d7..a7f828d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -442,11 +442,10 @@ class Storage:
         hit a false positive.
         """
         hids = set(c.hid if isinstance(c, Call) else c for c in calls_or_hids)
-        hids, num_dropped_persistent = self._drop_calls_persistent(
+        hids, num_dropped_persistent, num_dropped_cache = self._drop_calls_persistent(
             hids, delete_dependents=delete_dependents, conn=conn
         )
-        # forget the calls only once they are gone from the database
-        num_dropped_cache = 0
+        # forget uncommitted calls only once their dependents are gone from the database
         for hid in hids:
             if self.calls.cache.exists(hid):
                 self.calls.drop(hid)
@@ -455,12 +454,14 @@ class Storage:
 
     @transaction
     def _drop_calls_persistent(self, hids: Set[str], delete_dependents: bool,
-                               conn: Optional[sqlite3.Connection] = None) -> Tuple[Set[str], int]:
+                               conn: Optional[sqlite3.Connection] = None) -> Tuple[Set[str], int, int]:
         """
         Remove the given calls (and optionally their dependents) from the
         database, and return the HIDs of all calls to be dropped (which may only
-        exist in the cache) together with the number of calls that were removed.
+        exist in the cache) together with the number of calls that were removed
+        from the database, and the number of those evicted from the cache.
         """
+        num_evicted = 0
         if delete_dependents:
             # there may be dependents that are not committed yet
             df = self.call_storage.get_df(conn=conn)
@@ -475,7 +476,12 @@ class Storage:
             if self.call_storage.exists(hid, conn=conn):
                 self.call_storage.drop(hid, conn=conn)
                 num_dropped += 1
-        return hids, num_dropped
+            # for a committed call, the cache only holds a copy: forget it right
+            # away, so that it can't outlive the call if we are interrupted
+            if self.calls.cache.exists(hid) and hid not in self.calls.dirty_hids:
+                self.calls.drop(hid)
+                num_evicted += 1
+        return hids, num_dropped, num_evicted
 
     ############################################################################
     ### provenance queries
-- 
2.43.0


From 5d0be801087ab07ba90f72ccb3b4db429e635bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 20/46] fix: recomputing a dropped call keeps returning the old
 value

---
 mandala/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a7f828d..c267956 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -269,7 +269,9 @@ class Storage:
         ID, if there was previously another ref with the same content ID but
         different history ID.
         """
-        if ref.hid in self.shapes:  # ensure idempotence
+        # ensure idempotence; but a call that was dropped, and then computed
+        # again, may have given another value
+        if ref.hid in self.shapes and self.shapes[ref.hid].cid == ref.cid:
             return
         if isinstance(ref, AtomRef):
             if ref.in_memory: #! ONLY save the atom if it is in memory
-- 
2.43.0


From 0078d6a060555bfd805f0f5bdc6ff72c849d957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 21/46] fix: save in one transaction, retried like the others

Storage.commit ran its statements outside of an explicit transaction. With an
in-memory database (autocommit) a save that failed half-way left calls without
some of their inputs and outputs behind; with a file, a save gave up with
'database is locked' after the 5 s connection timeout when another process was
busy saving, unlike every other operation of the storage.
---
 mandala/storage.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index c267956..41760c9 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -223,20 +223,29 @@ class Storage:
         caches = [self.atoms, self.shapes, self.ops]
         dirty_keys = [set(cache.dirty_keys) for cache in caches]
         dirty_hids = set(self.calls.dirty_hids)
-        try:
-            with self.conn() as conn:
-                self.atoms.commit(conn=conn)
-                self.shapes.commit(conn=conn)
-                self.ops.commit(conn=conn)
-                if self.versioned:
-                    self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-                self.calls.commit(conn=conn)
-        except BaseException:
+        if not any(dirty_keys) and not dirty_hids and not self.versioned:
+            return # nothing to save, so no need for the write lock
+
+        def mark_dirty():
             for cache, keys in zip(caches, dirty_keys):
                 cache.dirty_keys |= keys
             self.calls.dirty_hids |= dirty_hids
+
+        try:
+            self._commit(mark_dirty)
+        except BaseException:
+            mark_dirty()
             raise
 
+    @transaction
+    def _commit(self, mark_dirty: Callable, conn: Optional[sqlite3.Connection] = None):
+        mark_dirty() # each attempt saves everything
+        self.atoms.commit(conn=conn)
+        self.shapes.commit(conn=conn)
+        self.ops.commit(conn=conn)
+        if self.versioned:
+            self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+        self.calls.commit(conn=conn)
 
     def __repr__(self):
         # summarize cache sizes
-- 
2.43.0


From ac4435eb5ac8dad88d0bbab03e9dffd5ef0774c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 22/46] fix: track the dependencies of memoized functions
 called by other memoized functions

---
 mandala/deps/tracers/dec_impl.py |  2 ++
 mandala/storage.py               | 43 ++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..a4c23f9 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -52,6 +52,8 @@ class TrackedDict(dict):
 
     def __getitem__(self, __key: str) -> Any:
         result = self.__original__.__getitem__(__key)
+        if type(result).__name__ == Config.func_interface_cls_name:
+            return result # memoized functions are traced when they are called
         if TracerState.tracer is not None:
             tracer = TracerState.tracer
             unwrapped_result = unwrap_decorators(result, strict=False)
diff --git a/mandala/storage.py b/mandala/storage.py
index 41760c9..745bf15 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -8,6 +8,7 @@ from .utils import dataframe_to_prettytable, parse_returns, _conservative_equali
 from .viz import _get_colorized_diff
 from .deps.versioner import Versioner, CodeState
 from .deps.utils import get_dep_key_from_func, extract_func_obj
+from .deps.model import TerminalData
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
 
@@ -872,7 +873,36 @@ class Storage:
                     storage_annotations[k] = sig.parameters[k].annotation
         return bound_arguments, storage_inputs, storage_annotations
         
-    def call_internal(
+    def call_internal(self, op: Op, **kwargs) -> Tuple[Dict[str, Ref], Call, List[Call]]:
+        """
+        Like `_call_internal`; if this is called while another versioned call is
+        being traced, the trace is suspended in the meantime, and the call
+        becomes one of the dependencies in it.
+        """
+        if not self.versioned or op.__structural__:
+            return self._call_internal(op=op, **kwargs)
+        tracer_cls = self.cached_versioner.TracerCls
+        suspended_trace_obj = tracer_cls.get_active_trace_obj()
+        tracer_cls.set_active_trace_obj(trace_obj=None)
+        try:
+            result = self._call_internal(op=op, **kwargs)
+        finally:
+            tracer_cls.set_active_trace_obj(trace_obj=suspended_trace_obj)
+        if suspended_trace_obj is not None:
+            call = result[1]
+            tracer_cls.register_leaf_event(
+                trace_obj=suspended_trace_obj,
+                data=TerminalData(
+                    op_internal_name=op.name,
+                    op_version=op.version,
+                    call_content_version=call.content_version,
+                    call_semantic_version=call.semantic_version,
+                    dep_key=get_dep_key_from_func(func=op.f),
+                ),
+            )
+        return result
+
+    def _call_internal(
         self,
         op: Op,
         storage_inputs: Dict[str, Any],
@@ -899,12 +929,6 @@ class Storage:
         if len(input_calls) > 0:
             if not op.__structural__: logger.debug(f"Collected {len(input_calls)} calls for inputs.")
 
-        if must_version_call:
-            suspended_trace_obj = self.cached_versioner.TracerCls.get_active_trace_obj()
-            self.cached_versioner.TracerCls.set_active_trace_obj(trace_obj=None)
-        else:
-            suspended_trace_obj = None
-
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
         call_option = self.lookup_call(
@@ -1289,7 +1313,10 @@ class Storage:
             # now unwrap the values of the arguments
             args = tuple([self.unwrap(arg) for arg in args])
             kwargs = {k: self.unwrap(v) for k, v in kwargs.items()}
-            return op.f(*args, **kwargs)
+            f = op.f
+            if self.versioned and DecTracer.get_active_trace_obj() is not None:
+                f = track(f) # like any other function the traced call depends on
+            return f(*args, **kwargs)
         elif self.mode == "run":
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
-- 
2.43.0


From 70a187ca061af4b088f23208f1522166b0b20b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 23/46] fix: keep the call stack of a trace correct when a
 tracked function raises

---
 mandala/deps/tracers/dec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index a4c23f9..93bd34d 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -145,9 +145,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally: # the caller may handle an exception, and go on
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
-- 
2.43.0


From 2962316ca02d68f86672026f9e5b51de52099267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 24/46] fix: sync code that uses globals which cannot be hashed

---
 mandala/deps/versioner.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 530952e..e9ffafa 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -159,7 +159,14 @@ class Versioner:
                 and dep_key not in result_graph.nodes.keys()
             ):
                 obj = node.load_obj(skip_missing=self.skip_missing_deps, skip_silently=self.skip_missing_silently)
-                fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
+                if isinstance(node, GlobalVarNode):
+                    fallback_result[dep_key] = node.from_obj(
+                        obj=obj, dep_key=dep_key,
+                        skip_unhashable=self.skip_unhashable_globals,
+                        skip_silently=self.skip_globals_silently,
+                    )
+                else:
+                    fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
         nodes = {**result_graph.nodes, **fallback_result}
         # fill in the gaps with a static crawl
         static_result, objs = crawl_static(
@@ -216,8 +223,8 @@ class Versioner:
             if trace_dep_key in hypothesis.nodes.keys():
                 if isinstance(trace_node, GlobalVarNode):
                     if (
-                        not hypothesis.nodes[trace_dep_key].content()
-                        == trace_node.content()
+                        not hypothesis.nodes[trace_dep_key].content_hash
+                        == trace_node.content_hash
                     ):
                         print(f"Content mismatch for {trace_dep_key}")
                         print(f"Expected: {hypothesis.nodes[trace_dep_key].content()}")
-- 
2.43.0


From 5dc20156b57b2d114a7c75a8d4c7f09c290f3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 25/46] fix: allow a versioned call that was dropped or not
 saved to be computed again

---
 mandala/deps/versioner.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index e9ffafa..49d41f9 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -434,8 +434,14 @@ class Versioner:
             self._check_semantic_distinguishability(
                 component=component, pre_call_uid=pre_call_uid, call_version=version
             )
-            # logging.info(f"Adding new call for {pre_call_uid} for {component}")
-            self.df = pd.concat([self.df, pd.DataFrame([row])], ignore_index=True)
+            known_calls = self.df[
+                (self.df["pre_call_uid"] == pre_call_uid)
+                & (self.df["content_version"] == version.content_version)
+                & (self.df["semantic_version"] == version.semantic_version)
+            ]
+            if len(known_calls) == 0:
+                # logging.info(f"Adding new call for {pre_call_uid} for {component}")
+                self.df = pd.concat([self.df, pd.DataFrame([row])], ignore_index=True)
         return version
 
     def _check_semantic_distinguishability(
@@ -456,6 +462,10 @@ class Versioner:
                 ] = existing_call_version.semantic_expansion
         new_semantic_dep_hashes = call_version.semantic_expansion
         for semantic_version, semantic_hashes in existing_semantic_expansions.items():
+            if semantic_version == call_version.semantic_version:
+                # this call was computed before, but it was not saved, or it was
+                # dropped in the meantime
+                continue
             overlap = set(semantic_hashes.keys()).intersection(
                 set(new_semantic_dep_hashes.keys())
             )
-- 
2.43.0


From eea38a45933cd53e926cd4f684a3ba8741589ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 26/46] fix: forget a dropped version only once it is gone from
 the database

---
 mandala/storage.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 745bf15..4f4ae8e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1245,7 +1245,6 @@ class Storage:
             _get_colorized_diff(current=code_1, new=code_2, context_lines=context_lines)
         )
     
-    @transaction
     def drop_version(
         self, semantic_version: str, conn: Optional[sqlite3.Connection] = None
     ):
@@ -1254,16 +1253,27 @@ class Storage:
         - deletes all calls to this semantic version and their dependencies;
         - deletes the semantic version from the versioner;
         """
+        self._drop_version_persistent(semantic_version=semantic_version, conn=conn)
+        # forget the version only once it is gone from the database
+        self.sources["versioner"].drop_semantic_version(semantic_version=semantic_version)
+
+    @transaction
+    def _drop_version_persistent(
+        self, semantic_version: str, conn: Optional[sqlite3.Connection] = None
+    ):
         ### delete all calls first (and their dependents)
         # TODO: very inefficient, we should have a DB query for this
         calls_df = self.calls.persistent.get_df(conn=conn)
+        # there may be calls that are not committed yet
+        cached_df = self.calls.cache.df
+        calls_df = pd.concat([calls_df, cached_df[~cached_df.index.isin(calls_df.index)]])
         calls_df = calls_df.query(f'semantic_version == "{semantic_version}"')
         call_hids = calls_df.index.get_level_values('call_history_id').unique()
         self.drop_calls(calls_or_hids=call_hids, delete_dependents=True, conn=conn)
         ### remove from versioner
-        versioner = self.get_versioner(conn=conn)
+        versioner = copy.deepcopy(self.get_versioner(conn=conn))
         versioner.drop_semantic_version(semantic_version=semantic_version)
-        self.save_versioner(versioner=versioner, conn=conn)
+        self.sources.persistent.set(key="versioner", value=versioner, conn=conn)
 
     ############################################################################
     ### user-facing functions
-- 
2.43.0


From b419461fe495b56ba2ae5b9aa6642c1619b23b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 27/46] fix: attribute global variables to the module they are
 in

---
 mandala/deps/tracers/dec_impl.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 93bd34d..29d38b3 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -45,6 +45,12 @@ class TrackedDict(dict):
     """
     def __init__(self, original: dict, verbose: bool = False):
         self.__original__ = original
+        # the module whose global variables these are
+        self.module_name = (
+            original.module_name
+            if isinstance(original, TrackedDict)
+            else original.get("__name__")
+        )
         self.verbose = verbose
     
     def __repr__(self) -> str:
@@ -74,7 +80,9 @@ class TrackedDict(dict):
                         f"Function/class {result} from module {unwrapped_result.__module__} is accessed but not tracked"
                     )
             elif is_global_val(result):
-                tracer.register_global_access(key=__key, value=result)
+                tracer.register_global_access(
+                    key=__key, value=result, module_name=self.module_name
+                )
             else:
                 if (
                     DecTracerConfig.restrict_global_accesses
@@ -261,13 +269,15 @@ class DecTracer(TracerABC):
             self.graph.roots.add(node.key)
         return node
 
-    def register_global_access(self, key: str, value: Any):
+    def register_global_access(self, key: str, value: Any, module_name: Optional[str] = None):
         if not self.track_globals:
             return
         assert len(self.call_stack) > 0
         calling_node = self.call_stack[-1]
+        # code from another module than that of the calling node may be running,
+        # e.g. when a function is passed a lambda, or returns a generator
         node = GlobalVarNode.from_obj(
-            obj=value, dep_key=(calling_node.module_name, key), 
+            obj=value, dep_key=(module_name or calling_node.module_name, key), 
             skip_unhashable=self.skip_unhashable_globals,
             skip_silently=self.skip_globals_silently
         )
-- 
2.43.0


From c86c91ffb206efedb56b6d7efa8978544581cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 28/46] fix: do not treat the builtins as a global variable of
 the user's code

---
 mandala/deps/tracers/dec_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 29d38b3..b213243 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -60,6 +60,8 @@ class TrackedDict(dict):
         result = self.__original__.__getitem__(__key)
         if type(result).__name__ == Config.func_interface_cls_name:
             return result # memoized functions are traced when they are called
+        if __key == "__builtins__":
+            return result # looked up by the interpreter, e.g. to import a module
         if TracerState.tracer is not None:
             tracer = TracerState.tracer
             unwrapped_result = unwrap_decorators(result, strict=False)
-- 
2.43.0


From 39043e6fe1776b234645a0930bbb8f1d2e602185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 29/46] fix: ComputationFrame.drop_func fails while iterating,
 and dropped calls remain

---
 mandala/cf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..e66cf87 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,8 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
-        for hid in hids:
+        for hid in list(res.fs[fname]):
             res.drop_call(fname, hid)
         del res.fs[fname]
         del res.inp[fname]
@@ -326,7 +325,11 @@ class ComputationFrame:
         Internal method to remove an edge from the computation frame inplace.
         """
         self.out[src][label].remove(dst)
+        if not self.out[src][label]:
+            del self.out[src][label]
         self.inp[dst][label].remove(src)
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
@@ -401,6 +404,7 @@ class ComputationFrame:
         Drop a call from the given function node only. This checks
         if the call is referenced by multiple function nodes.
         """
+        self.fs[fname].remove(hid)
         if (
             len(self.callinv[hid]) == 1
         ):  # if this is the only function containing the call
@@ -408,10 +412,10 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                self.creator.pop(output.hid, None)
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
-                    self.consumers[inp.hid].remove(hid)
+                    self.consumers[inp.hid].discard(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
-- 
2.43.0


From 5d69f0085074f7cd45dc5ea6be4937e20ac0821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 30/46] fix: ComputationFrame.select_subsets shares data with
 its argument and keeps a stale reverse index

---
 mandala/cf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index e66cf87..7e88b52 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -659,14 +659,20 @@ class ComputationFrame:
         assert all(elts[node] <= sets[node] for node in elts.keys())
         out = res.out
         inp = res.inp
-        vs = {node: elts[node] for node in res.vnames}
-        fs = {node: elts[node] for node in res.fnames}
+        vs = {node: set(elts[node]) for node in res.vnames}
+        fs = {node: set(elts[node]) for node in res.fnames}
         ref_hids_subset = get_nullable_union(*vs.values())
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = {
+            hid: {vname for vname in res.refinv[hid] if hid in vs[vname]}
+            for hid in ref_hids_subset
+        }
+        callinv = {
+            hid: {fname for fname in res.callinv[hid] if hid in fs[fname]}
+            for hid in call_hids_subset
+        }
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From 7fb43b747398d5cc0a83d3d9f8e11a77e1512070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 31/46] fix: a variable of a ComputationFrame can get the name
 of a function and destroy it

---
 mandala/cf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7e88b52..009e42d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2174,21 +2174,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From b0eef03b6335f07afec7c96d9e54d728d5e26f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 32/46] fix: ComputationFrame.cleanup and simplify have no
 effect

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 009e42d..efd282c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2071,7 +2071,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2084,7 +2084,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From 57fee6561132c26f0023c8b9103b54b5efa02837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 33/46] fix: ComputationFrame.move_ref and merge_into modify
 the frame although not in place

---
 mandala/cf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index efd282c..b888a27 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1979,8 +1979,8 @@ class ComputationFrame:
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
         #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -1995,7 +1995,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From c61212ae9ddec6fd94677e15746d720722b4819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 34/46] fix: recursive expansion of a ComputationFrame stops
 too early

---
 mandala/cf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b888a27..4df18f6 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1093,7 +1093,7 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                current_size = len(res.nodes) + len(res.refs) + len(res.calls)
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1104,7 +1104,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = len(res.nodes) + len(res.refs) + len(res.calls)
                 if new_size == current_size:
                     break
                 if not recursive:
@@ -1120,7 +1120,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = get_nullable_union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
-- 
2.43.0


From 5206044b970a09b45566824d082edc0d722a3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 35/46] fix: expansion of a ComputationFrame does not connect
 reused functions and variables

---
 mandala/cf.py | 67 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 4df18f6..6032e48 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -132,21 +132,21 @@ class ComputationFrame:
         # check the calls
         for fname, call_uids in self.fs.items():
             #! we check that, for each call belonging to an op node, all the
-            # inputs of this call for which there is an edge belong in the graph,
-            # and similarly for all the outputs. This is the least obvious
-            # invariant.
+            # inputs of this call for which there is an edge belong in the graph
+            # (in some of the variables with such an edge), and similarly for
+            # all the outputs. This is the least obvious invariant.
             calls = [self.calls[call_uid] for call_uid in call_uids]
             for call in calls:
                 for input_name, inp in call.inputs.items():
                     input_proj = get_name_proj(call.op)(input_name)
-                    for input_var in self.inp[fname].get(input_proj, set()):
-                        assert inp.hid in self.vs[input_var]
-                        assert input_var in self.refinv[inp.hid]
+                    input_vars = self.inp[fname].get(input_proj, set())
+                    if input_vars:
+                        assert any(inp.hid in self.vs[v] for v in input_vars)
                 for output_name, out in call.outputs.items():
                     output_proj = get_name_proj(call.op)(output_name)
-                    for output_var in self.out[fname].get(output_proj, set()):
-                        assert out.hid in self.vs[output_var]
-                        assert output_var in self.refinv[out.hid]
+                    output_vars = self.out[fname].get(output_proj, set())
+                    if output_vars:
+                        assert any(out.hid in self.vs[v] for v in output_vars)
         assert all(k == ref.hid for k, ref in self.refs.items())
         assert all(k == call.hid for k, call in self.calls.items())
 
@@ -1068,7 +1068,54 @@ class ComputationFrame:
             
             ### finally, add the calls to the CF
             for call in group_calls:
-                self.add_call(fname, call, with_refs=True, allow_existing=reuse_existing)
+                self.add_call(fname, call, with_refs=False, allow_existing=reuse_existing)
+            self._connect_calls(
+                fname,
+                # the refs on the side we're gluing are already in variables
+                fill_inputs={call.hid for call in group_calls} if side_to_glue == "outputs" else set(),
+                fill_outputs={call.hid for call in group_calls} if side_to_glue == "inputs" else set(),
+            )
+
+    def _connect_calls(self, fname: str, fill_inputs: Set[str], fill_outputs: Set[str]):
+        """
+        Connect all calls in the given function node to the variables along the
+        edges of this node, after some of these edges or calls were added.
+
+        A ref of a call that is not in any of the variables its edges lead to is
+        added to these variables if the call is in `fill_inputs` (for inputs) or
+        `fill_outputs` (for outputs), and otherwise to a new variable, so that
+        existing variables do not get refs that are not connected to them.
+        """
+        for adj, fill in ((self.inp[fname], fill_inputs), (self.out[fname], fill_outputs)):
+            unplaced = {}  # label -> [ref]
+            for call_hid in sorted(self.fs[fname]):
+                call = self.calls[call_hid]
+                name_projector = get_name_proj(call.op)
+                refs = call.inputs if adj is self.inp[fname] else call.outputs
+                for name, ref in refs.items():
+                    label = name_projector(name)
+                    vnames = adj.get(label)
+                    if not vnames:
+                        continue  # not tracked by the graph
+                    if adj is self.inp[fname]:
+                        self.consumers.setdefault(ref.hid, set()).add(call_hid)
+                    else:
+                        self.creator[ref.hid] = call_hid
+                    if any(ref.hid in self.vs[vname] for vname in vnames):
+                        continue
+                    if call_hid in fill:
+                        for vname in vnames:
+                            self.add_ref(vname, ref)
+                    else:
+                        unplaced.setdefault(label, []).append(ref)
+            for label in sorted(unplaced):
+                vname = self._add_var(vname=self.get_new_vname(label))
+                if adj is self.inp[fname]:
+                    self._add_edge(vname, fname, label)
+                else:
+                    self._add_edge(fname, vname, label)
+                for ref in unplaced[label]:
+                    self.add_ref(vname, ref, allow_existing=True)
 
     def get_creators(self, indexer: Union[str, Set[str]]):
         # return information about the calls that created the variables in the
-- 
2.43.0


From b2323e792963ec9540d6c481b03b4178661448c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 36/46] fix: expansion of a ComputationFrame connects only the
 last element of a list

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 6032e48..3900218 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -942,7 +942,8 @@ class ComputationFrame:
                     connected_vnames = self.refinv[ref.hid] & set(available_nodes)
                     if not connected_vnames:
                         continue
-                    identifying_variables[label] = connected_vnames
+                    # several inputs (the elements of a list) share a label
+                    identifying_variables.setdefault(label, set()).update(connected_vnames)
             # get a hashable canonical representation of the group
             group_id = (
                 op_id,
-- 
2.43.0


From 671adbf799f1e7df55a60d2bb531493ee88e03bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 37/46] fix: Storage.cf modifies the given dict and exhausts a
 given iterator

---
 mandala/storage.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 4f4ae8e..76da554 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1288,13 +1288,12 @@ class Storage:
             return ComputationFrame.from_op(storage=self, f=source)
         elif isinstance(source, Ref):
             return ComputationFrame.from_refs(refs=[source], storage=self)
-        elif all(isinstance(elt, Ref) for elt in source):
-            return ComputationFrame.from_refs(refs=source, storage=self)
         elif isinstance(source, dict):
-            for k in source.keys():
-                if isinstance(source[k], Ref):
-                    source[k] = [source[k]]
-            return ComputationFrame.from_vars(vars=source, storage=self)
+            vars = {k: [v] if isinstance(v, Ref) else v for k, v in source.items()}
+            return ComputationFrame.from_vars(vars=vars, storage=self)
+        source = list(source)  # may be an iterator, which can only be used once
+        if all(isinstance(elt, Ref) for elt in source):
+            return ComputationFrame.from_refs(refs=source, storage=self)
         elif all(isinstance(elt, str) for elt in source):
             # must be hids
             refs = [self.load_ref(hid, in_memory=True) for hid in source]
-- 
2.43.0


From 2e0c9569386121d4ea63438aa293ed8d922116cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 38/46] fix: ComputationFrame.rename overwrites other nodes

---
 mandala/cf.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3900218..e5b4230 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -214,8 +214,20 @@ class ComputationFrame:
                inplace: bool = False) -> Optional["ComputationFrame"]:
         res = self if inplace else self.copy()
         if vars is not None:
+            if len(set(vars.values())) < len(vars):
+                raise ValueError("Cannot give the same name to several variables")
             for vname, new_vname in vars.items():
-                res.rename_var(vname, new_vname, inplace=True)
+                if vname not in res.vs:
+                    raise ValueError(f"Variable {vname} not found in the CF")
+                if new_vname in res.nodes and new_vname not in vars:
+                    raise ValueError(f"Node {new_vname} already exists in the CF")
+            # rename in two steps, as the new names can be among the old ones
+            temp_vnames = {}
+            for vname in vars:
+                temp_vnames[vname] = res.get_new_vname(f"{vname}_renamed")
+                res.rename_var(vname, temp_vnames[vname], inplace=True)
+            for vname, new_vname in vars.items():
+                res.rename_var(temp_vnames[vname], new_vname, inplace=True)
         if funcs is not None:
             raise NotImplementedError
         return res if not inplace else None
@@ -255,6 +267,12 @@ class ComputationFrame:
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
         res = self if inplace else self.copy()
+        if vname not in res.vs:
+            raise ValueError(f"Variable {vname} not found in the CF")
+        if vname == new_vname:
+            return res if not inplace else None
+        if new_vname in res.nodes:
+            raise ValueError(f"Node {new_vname} already exists in the CF")
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
         res.out[new_vname] = res.out[vname]
-- 
2.43.0


From 14012d32c8dbaf76334135f178c8a3ed5bc98505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 39/46] fix: intersections of ComputationFrames contain
 elements of no node

---
 mandala/cf.py    | 23 +++++++++++++++++------
 mandala/utils.py |  9 ++++++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index e5b4230..c518112 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -850,12 +850,23 @@ class ComputationFrame:
         out = get_adjacency_intersection(a.out, b.out)
         vs = get_setdict_intersection(a.vs, b.vs)
         fs = get_setdict_intersection(a.fs, b.fs)
-        refinv = get_setdict_intersection(a.refinv, b.refinv)
-        callinv = get_setdict_intersection(a.callinv, b.callinv)
-        creator = get_dict_intersection_over_keys(a.creator, b.creator)
-        consumers = get_setdict_intersection(a.consumers, b.consumers)
-        refs = get_dict_intersection_over_keys(a.refs, b.refs)
-        calls = get_dict_intersection_over_keys(a.calls, b.calls)
+        # the two frames may share elements, but in different nodes
+        ref_hids = get_nullable_union(*vs.values())
+        call_hids = get_nullable_union(*fs.values())
+        refs = {hid: a.refs[hid] for hid in ref_hids}
+        calls = {hid: a.calls[hid] for hid in call_hids}
+        refinv = {hid: {k for k, v in vs.items() if hid in v} for hid in ref_hids}
+        callinv = {hid: {k for k, v in fs.items() if hid in v} for hid in call_hids}
+        creator = {
+            hid: call_hid
+            for hid, call_hid in get_dict_intersection_over_keys(a.creator, b.creator).items()
+            if hid in ref_hids and call_hid in call_hids
+        }
+        consumers = {
+            hid: consumer_hids & call_hids
+            for hid, consumer_hids in get_setdict_intersection(a.consumers, b.consumers).items()
+            if hid in ref_hids
+        }
         res = ComputationFrame(
             storage=a.storage,
             inp=inp,
diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..3c9fd1e 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -133,7 +133,14 @@ def get_adjacency_union(
 def get_adjacency_intersection(
     a: Dict[str, Dict[str, Set[str]]], b: Dict[str, Dict[str, Set[str]]]
 ) -> Dict[str, Dict[str, Set[str]]]:
-    return {k: get_setdict_intersection(a[k], b[k]) for k in a.keys() & b.keys()}
+    return {
+        k: {
+            label: nodes
+            for label, nodes in get_setdict_intersection(a[k], b[k]).items()
+            if nodes
+        }
+        for k in a.keys() & b.keys()
+    }
 
 
 def get_nullable_union(*sets: Set[str]) -> Set[str]:
-- 
2.43.0


From c879599a11cec33b63e782652dcc97df136d92f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 40/46] fix: ComputationFrame.drop_unreachable keeps calls that
 lost their inputs

---
 mandala/cf.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index c518112..4bf3cf7 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2135,6 +2135,22 @@ class ComputationFrame:
         initial_state = (
             self.get_source_elts() if direction == "forward" else self.get_sink_elts()
         )
+        # a call all of whose inputs (outputs) along the edges of the graph are
+        # missing from their variables is not where a computation starts (ends)
+        adj = self.inp if direction == "forward" else self.out
+        for fname in self.fs:
+            initial_state[fname] = {
+                hid
+                for hid in initial_state[fname]
+                if not any(
+                    self.get_io_proj(hid, name) in adj[fname]
+                    for name in (
+                        self.calls[hid].inputs
+                        if direction == "forward"
+                        else self.calls[hid].outputs
+                    )
+                )
+            }
         to_keep = self.get_reachable_elts(
             initial_state=initial_state, direction=direction, how=how
         )
-- 
2.43.0


From 53b2a6fe4d912931f88e8f51ed4fb8f73ba9070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 41/46] fix: ComputationFrame.df ignores `values` for a single
 node

---
 mandala/cf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 4bf3cf7..817c8e4 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1425,8 +1425,11 @@ class ComputationFrame:
         if len(nodes) == 0:
             nodes = tuple(self.nodes)
         elif len(nodes) == 1:
-            values = list(self.get_var_values(nodes[0]))
-            return pd.DataFrame(values, columns=[nodes[0]])
+            node = nodes[0]
+            df = pd.DataFrame({node: sorted(self.values[node], key=lambda x: x.hid)})
+            if values == "refs":
+                return df
+            return self.eval_df(df, skip_cols=lazy_vars)
         restricted_cf = self.midstream(*nodes)
         if verbose:
             graph_desc = restricted_cf.get_graph_desc()
-- 
2.43.0


From ca85c856bc3d43901b38c95e8433efb9381517ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 42/46] fix: ComputationFrame.delete_calls_from_df ignores
 cells with several calls

---
 mandala/cf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 817c8e4..a054480 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2254,7 +2254,11 @@ class ComputationFrame:
         """
         hids = set()
         for col in df.columns:
-            hids |= {elt.hid for elt in df[col] if isinstance(elt, Call)}
+            for elt in df[col]:
+                if isinstance(elt, Call):
+                    hids.add(elt.hid)
+                elif isinstance(elt, CallCollection):
+                    hids |= {call.hid for call in elt.calls}
         self.storage.drop_calls(calls_or_hids=hids, delete_dependents=True)
 
     ############################################################################
-- 
2.43.0


From 6b269ff2fc48c5f7c23d9fc582519d3ed1570e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 43/46] fix: ComputationFrame.df joins unrelated rows on
 missing values

---
 mandala/cf.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index a054480..73ff7df 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1762,9 +1762,19 @@ class ComputationFrame:
             shared_cols = set(result.columns) & set(df.columns)
             if verbose:
                 print(f'   Merging history for the variable {varname} on columns: {shared_cols}')
-            result = pd.merge(
-                result, df, how=how, on=list(shared_cols), suffixes=("", "")
-            )
+            # rows without any value in the shared columns have nothing to be
+            # joined on (`merge` would consider missing values to be equal)
+            unmatched = []
+            for table in (result, df):
+                is_unmatched = table[list(shared_cols)].isnull().all(axis=1)
+                unmatched.append(table[is_unmatched])
+            matched = [result.drop(index=unmatched[0].index), df.drop(index=unmatched[1].index)]
+            if shared_cols:
+                result = pd.merge(*matched, how=how, on=list(shared_cols), suffixes=("", ""))
+            else:
+                result = pd.concat(matched) # both are empty
+            if how == "outer":
+                result = pd.concat([result] + unmatched, ignore_index=True)
         # go back to refs
         result = result.applymap(eval_hids)
         return self._sort_df(result)
-- 
2.43.0


From 42a95a246b114202a32eeb2ab0f4f7f87cb76575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 44/46] fix: ComputationFrame.isin loses calls connected by
 several edges

---
 mandala/cf.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 73ff7df..885865c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -592,21 +592,13 @@ class ComputationFrame:
         """
         res = {}
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.in_edges(node):
+                adj_elts = self.get_adj_elts_edge((src, dst, label), hids, "back")
+                res[src] = res.get(src, set()) | adj_elts
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.out_edges(node):
+                adj_elts = self.get_adj_elts_edge((src, dst, label), hids, "forward")
+                res[dst] = res.get(dst, set()) | adj_elts
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
-- 
2.43.0


From c176533d47ad9bbce0cb1029cb8fbdb6bba3b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 45/46] fix: a call found by content keeps foreign histories if
 another process saves it meanwhile

---
 mandala/storage.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 76da554..9fc22d1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -743,11 +743,15 @@ class Storage:
         code_state: Optional[CodeState] = None,
         versioner: Optional[Versioner] = None,
         must_version: bool = False,
+        output_calls: Optional[List[Call]] = None,
     ) -> Optional[Call]:
         """
         Look up the call to the given op. If the storage is versioned, the
         current code state is used to resolve the right version of the function
         to use.
+
+        If the call is new and was found by its content, the structural calls
+        for its outputs are added to `output_calls`.
         """
         if not must_version:
             semantic_version = None
@@ -791,7 +795,10 @@ class Storage:
             output_history_ids = op.get_output_history_ids(call_history_id=call_hid, output_names=list(op.get_ordered_outputs(output_dict=output_names_identity)))
             for k, v in call_prototype.outputs.items():
                 v.hid = output_history_ids[k]
-            # (the elements of collections have their own histories, too)
+                # the elements of collections have their own histories, too
+                call_prototype.outputs[k], struct_calls = self.destruct(v, tp=self.get_ref_tp(v))
+                if output_calls is not None:
+                    output_calls.extend(struct_calls)
             call_prototype.inputs = {k: inputs[k] for k in call_prototype.inputs}
             return call_prototype
         logger.debug(f"Could not find a call to {op.name} with hid {call_hid} or cid {call_cid}.")
@@ -931,6 +938,7 @@ class Storage:
 
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
+        output_calls = []
         call_option = self.lookup_call(
             op=op,
             pre_call_uid=pre_call_id,
@@ -939,6 +947,7 @@ class Storage:
             code_state = self.code_state if must_version_call else None,
             versioner=self.cached_versioner if must_version_call else None,
             must_version=must_version_call,
+            output_calls=output_calls,
         )
         tracer_option = (
             self.cached_versioner.make_tracer() if must_version_call and not op.__structural__ else None
@@ -949,13 +958,6 @@ class Storage:
             call_hid = call_option.hid
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
-            output_calls = []
-            if not self.calls.exists(call_hid):
-                # found by content: the elements of any collections in the
-                # outputs still carry the history of the call that was found
-                for k, v in main_call.outputs.items():
-                    main_call.outputs[k], output_calls_for_output = self.destruct(v, tp=self.get_ref_tp(v))
-                    output_calls.extend(output_calls_for_output)
             return main_call.outputs, main_call, input_calls + output_calls
         
         if not self._allow_new_calls and not op.__structural__:
-- 
2.43.0


From 50203b38906457470746fb1916a60d5fba2ee50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 46/46] fix: the content hash of frozensets depends on the
 process

---
 mandala/utils.py | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index 3c9fd1e..ab49826 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -1,5 +1,6 @@
 from .common_imports import *
 import joblib
+import joblib.hashing
 import io
 import inspect
 from inspect import Parameter
@@ -68,6 +69,49 @@ def _conservative_equality_check(safe_value: Any, unknown_value: Any) -> bool:
         return safe_value == unknown_value
 
 
+class _UnorderedParts:
+    """
+    Stands for an unordered collection in a content hash
+    """
+    def __init__(self, kind: str, parts: List[str]):
+        self.kind = kind
+        self.parts = sorted(parts)
+
+
+class _ContentHasher(joblib.hashing.NumpyHasher):
+    """
+    joblib makes sets and dicts hash independently of their order, but not
+    frozensets, nor sets and dicts of them ("smaller than" is not a total order
+    on frozensets); and the order depends on the process (PYTHONHASHSEED).
+    """
+    dispatch = joblib.hashing.NumpyHasher.dispatch.copy()
+
+    @staticmethod
+    def _has_frozenset(obj: Any) -> bool:
+        return isinstance(obj, frozenset) or (
+            isinstance(obj, tuple) and any(_ContentHasher._has_frozenset(x) for x in obj)
+        )
+
+    def save_frozenset(self, obj):
+        self.save(_UnorderedParts("frozenset", [_ContentHasher().hash(x) for x in obj]))
+    dispatch[frozenset] = save_frozenset
+
+    def save_set(self, obj):
+        if any(self._has_frozenset(x) for x in obj):
+            self.save(_UnorderedParts("set", [_ContentHasher().hash(x) for x in obj]))
+        else:
+            joblib.hashing.NumpyHasher.save_set(self, obj)
+    dispatch[set] = save_set
+
+    def _batch_setitems(self, items, *args):
+        items = list(items)
+        if any(self._has_frozenset(k) for k, _ in items):
+            items.sort(key=lambda item: _ContentHasher().hash(item[0]))
+            joblib.hashing.Pickler._batch_setitems(self, iter(items), *args)
+        else:
+            joblib.hashing.NumpyHasher._batch_setitems(self, items, *args)
+
+
 def get_content_hash(obj: Any) -> str:
     if hasattr(obj, "__get_mandala_dict__"):
         obj = obj.__get_mandala_dict__()
@@ -83,7 +127,8 @@ def get_content_hash(obj: Any) -> str:
             "values": obj.values,
             "index": obj.index,
         }
-    result = joblib.hash(obj)  # this hash is canonical wrt python collections
+    # this hash is canonical wrt python collections
+    result = _ContentHasher(hash_name="md5").hash(obj)
     if result is None:
         raise RuntimeError("joblib.hash returned None")
     return result
-- 
2.43.0

