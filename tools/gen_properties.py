"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
S='mandala/storage.py'; U='mandala/storage_utils.py'; M='mandala/model.py'; C='mandala/cf.py'
V='mandala/deps/versioner.py'; SV='mandala/deps/shallow_versions.py'; DV='mandala/deps/deep_versions.py'
T='mandala/deps/tracers/dec_impl.py'; DM='mandala/deps/model.py'; UT='mandala/utils.py'

add('C01','Memoized calls return what plain execution would return',
 "Calling an @op inside a storage block returns references which, once unwrapped, equal the values obtained by running the same program as plain Python, whether each call was executed, found in memory, found in the database by identity, or found by equal content computed along another route. Calls whose observed arguments differ (positional, keyword, default, variadic, list/dict-typed, multi-output) never share a result. Arguments marked as ignored never influence which result is returned.",
 ['programs','inputs','histories','fault_sequences'],
 "all programs of @op calls over the supported argument/return shapes, all interleavings of blocks, noop sections, cache clears/preloads, process restarts, failed saves and crashes",
 "the tests call a handful of ops in one in-memory session; they never restart a process between the computing and the reading call, never reach the database-side content lookup, and never combine cache states, structures and restarts",
 [S,M,U,UT],
 [("history/content hash of calls and outputs", M+": Op.get_call_history_id / get_call_content_id / get_output_history_ids"),
  ("lookup by identity then by content, relabelling history ids", S+": Storage.lookup_call"),
  ("argument parsing", S+": Storage.parse_args"),("structural construct/destruct", S+": Storage.construct/destruct"),
  ("cached + persistent call lookup", U+": CachedCallStorage")],
 [("calls table","one row per (call, input/output name)",U),("atoms/shapes tables","value bytes by content id; reference structure by history id",S)],
 ["values returned by Storage.unwrap / attach", "plain-Python reference interpreter"])
add('C02','A computation known to the storage is never executed again',
 "Once a call has completed in a session, or was saved by any earlier finished block or process, calling the same op on equal arguments does not run the op's body again until that call is deliberately dropped. This holds across process restarts, cache clears and preloads, for arguments passed as raw values or as references with equal content, and for calls differing only in ignored or new-default arguments.",
 ['programs','histories','crash_points','fault_sequences'],
 "all histories of calls, blocks, restarts, cache operations, and crashes placed after a finished block",
 "the tests count executions only within one process with a warm cache; the database-side content lookup and the reuse after restart, clear or crash are never exercised",
 [S,U,M],
 [("existence checks against cache then database",U+": CachedCallStorage.exists / exists_content / get_data_content"),
  ("lookup before execution",S+": Storage.lookup_call / call_internal"),("ignored and new-default arguments",S+": Storage.parse_args")],
 [("calls table","what is known to have been computed",U)],
 ["execution counter inside each op body"])
add('C03','A finished block survives any later crash or power loss',
 "When a storage block has been left without an error, every call made in it, with all its input and output values, large values kept in overflow files included, can be read back after the process is killed, or the machine loses power, at any later instant. Reopening the storage after such a crash succeeds without repair.",
 ['crash_points','histories','fault_sequences'],
 "all instants (every write, sync, rename or statement boundary of every later operation) for the crash; unsynced data may be lost, torn or reordered",
 "no test kills a process or drops unsynced writes; durability is only ever observed from the process that wrote",
 [S,U],
 [("commit on exit of the outermost block",S+": Storage.__exit__ / commit"),("transaction wrapper",U+": transaction"),
  ("SQLite journal mode chosen at creation",U+": DBAdapter.__init__"),("overflow file writes",U+": JoblibDictStorage.set")],
 [("database file + write-ahead log","durable state",U),("overflow directory","durable state of large values",U)],
 ["fresh process on the surviving disk image"])
add('C04','A save is all-or-nothing and leaves a self-contained store',
 "Whatever point a save is cut off at (crash, power loss, full disk, I/O error, lock failure, interrupt), the store seen by the next process contains either everything that save was to add or nothing of it. Every call visible in the store is complete: all of its inputs and outputs, their structure, its op and every value they need can be loaded, and each loaded value hashes to the content id it is stored under.",
 ['crash_points','fault_sequences','histories'],
 "all cut-off points of all saves, single and multi process, with and without overflow files",
 "the tests never interrupt a save; a partially written batch or a call whose values are missing can only arise from a fault between two writes",
 [S,U],
 [("one transaction for atoms, shapes, ops and calls",S+": Storage.commit"),("order of writes and write-once overflow files",U+": SQLiteDictStorage.set / JoblibDictStorage.set"),
  ("rollback",U+": transaction")],
 [("atoms, shapes, ops, calls tables","must stay mutually consistent",S)],
 ["consistency audit of the store by a fresh process after every fault"])
add('C05','A failed save loses no work',
 "If saving fails while the process lives on (database locked, disk full, I/O error, interrupt), every completed call remains available to that process without re-execution, and the next save that succeeds makes all of it durable, including what the failed save had been about to write. The failed save is reported to the caller, and discarding unsaved work requires explicit permission.",
 ['fault_sequences','histories'],
 "all failure points inside a save, any number of consecutive failures, arbitrary further work in between",
 "no test makes a save fail, so the bookkeeping of what is still unsaved after a failure is never observed",
 [S,U],
 [("dirty sets",U+": CachedDictStorage.commit / CachedCallStorage.commit"),("commit transaction",S+": Storage.commit"),("refusal to clear dirty caches",U+": CachedDictStorage.clear / CachedCallStorage.clear")],
 [("dirty_keys / dirty_hids","work not yet durable",U)],
 ["results after fault-free retry, execution counters, fresh process after the retry"])
add('C06','Failures inside a block leave the session sane',
 "If an op body, a nested block, entering a block or leaving a block raises (including interrupts), the calls completed before it are kept and saved when the block is left, the failing call leaves no trace, and the error reaches the caller. Afterwards the session is in exactly the mode it was in outside that block: calls outside blocks are not memoized, later blocks memoize and save normally, and nested noop or mode switches restore the enclosing mode.",
 ['histories','fault_sequences','programs'],
 "all nestings of run/noop blocks of one or several storages, with an exception or interrupt at any op body, block entry, or block exit",
 "tests raise no exception inside a block and never fail while entering or leaving one",
 [S,M],
 [("mode stack",S+": Storage.__enter__/__exit__/__call__, noop"),("global current context",M+": Context"),("commit on exit",S+": Storage.__exit__")],
 [("_mode_stack, _next_mode, Context.current_context","session mode",S)],
 ["Storage.mode, in_context, behaviour of probe calls after the fault"])
add('C07','Processes sharing one database do not harm each other',
 "When several processes use the same database at once, in any interleaving, no process's save fails or is lost because another process computed or saved the same or other calls, and after all have saved the store holds the union of their work. A process never observes part of another process's save, and results saved by one are found by another's later lookups.",
 ['schedules','programs','fault_sequences'],
 "all interleavings at database-operation granularity of two or three processes with overlapping programs, with crashes of any of them",
 "all tests are single-process; two writers on one file never meet",
 [S,U],
 [("BEGIN IMMEDIATE + retry",U+": transaction"),("upserts of values",U+": SQLiteDictStorage.set"),("insertion of calls",U+": SQLiteCallStorage.save"),("lookups fall through to the database",U+": CachedCallStorage.exists")],
 [("shared database file","the only shared state",U)],
 ["audit by a fresh process after all clients finished; errors surfacing in clients"])
add('C08','Lock contention and transient I/O errors end in bounded time',
 "While another process holds the database lock for a while, or the disk fails transiently, every storage operation either completes once the condition ends or raises an error; it never hangs, never reports success without effect, and finishes within the documented retry budget of simulated time. After an error the same storage object, in-memory or on disk, serves later operations normally as soon as the fault is gone.",
 ['fault_sequences','schedules'],
 "all lengths and placements of lock holds and error bursts over all storage operations",
 "tests never meet a lock or an I/O error, and the retry loop sleeps for real minutes so it cannot be unit-tested on a real clock",
 [U,S],
 [("retry loop with exponential back-off",U+": transaction")],
 [("connection transaction state","must be clean after a failed attempt",U)],
 ["simulated clock, outcome of each operation, health probe afterwards"])
add('C09','Dropping calls removes exactly those calls',
 "Dropping a set of calls removes them, and exactly with dependents requested also everything computed from them, from both memory and disk, whether or not they had been saved yet; every other call stays available and unchanged. A dropped call is executed again when next called and then recorded again, a crash or error during the drop leaves it either fully done or not done on disk, and later saves never fail or resurrect dropped calls.",
 ['histories','programs','crash_points','fault_sequences'],
 "all sets of calls of all computation graphs, saved or unsaved, dropped at any point of a session, with faults inside the drop",
 "the tests drop whole saved graphs in a fault-free session; unsaved calls, partially saved dependents and interrupted drops are unreachable for them",
 [S,U,C],
 [("drop from cache and database in one transaction",S+": Storage.drop_calls"),("dependents closure",U+": get_dependents"),("cache drop",U+": InMemCallStorage.drop / CachedCallStorage.drop"),("frame-driven deletion",C+": ComputationFrame.delete_calls")],
 [("calls cache, dirty_hids, calls table","must agree after a drop",U)],
 ["execution counters, set of recorded calls, fresh process"])
add('C10','Cleaning up never removes anything still needed',
 "After cleaning up unused references, every reference and value reachable from a recorded call, including the elements of recorded lists and dicts however they were obtained, is still loadable with its value, and nothing that no call reaches remains. Cleanup does not change the result of, or re-execute, any recorded call, and a crash inside it never makes a reachable value unloadable.",
 ['histories','programs','crash_points'],
 "all histories of calls, drops and cleanups, with list/dict structures shared between calls, overflow files, and crashes inside cleanup",
 "the tests clean up stores holding flat atoms after dropping everything; shared or relabelled structures and interrupted cleanups never occur",
 [S,U],
 [("orphan detection",S+": Storage.get_orphans / get_unreferenced_cids"),("drop of shapes then atoms",S+": Storage.cleanup_refs"),("file removal",U+": SQLiteDictStorage.drop / JoblibDictStorage.drop")],
 [("shapes, atoms, overflow files","garbage collected by reachability",S)],
 ["reachability audit by a fresh process before and after"])
add('C11','Provenance queries report exactly what happened',
 "For every recorded reference, the reported creator, consumers, dependencies and dependents are exactly those of the calls really made: at most one creator, the right argument and output names and history ids, and no cycles. The answer is the same in the recording process, after cache clears or preloads, and in a new process.",
 ['programs','histories','crash_points'],
 "all computation graphs with shared inputs, equal contents along different routes, and list/dict structures, observed from any session state",
 "tests check a few provenance facts on fixed graphs in one session",
 [S,U,M],
 [("rows of the calls table",U+": SQLiteCallStorage.save/mget_data"),("provenance queries",U+": get_creator_hids/get_consumer_hids/get_dependencies/get_dependents"),("history relabelling",S+": Storage.lookup_call"),("creator uniqueness",S+": Storage.get_ref_creator")],
 [("calls table","edges of the dataflow graph",U)],
 ["reference dataflow graph kept by the simulator"])
add('C12','Cache management never changes answers or loses work',
 "Clearing, preloading, or partially filling any cache, and reading values in any order, never changes the result of a call, never causes re-execution of a recorded call, and never loses unsaved work unless the caller explicitly allowed it. Reading values does not by itself make the storage report unsaved changes, and clearing is refused exactly when unsaved work exists.",
 ['histories','programs','fault_sequences'],
 "all sequences of cache operations interleaved with calls, reads, saves, failed saves and restarts",
 "tests clear caches once at fixed points; combinations of preload, read, clear and save are not sampled",
 [S,U],
 [("cache and dirty sets",U+": CachedDictStorage / CachedCallStorage / InMemCallStorage"),("cache API",S+": clear_cache, preload*, commit")],
 [("cache, dirty_keys, dirty_hids","derived state only",U)],
 ["twin execution with and without cache operations; execution counters"])
add('C13','Stored values cannot be altered through live objects',
 "Nothing a caller or an op body does to objects it passed in, received, unwrapped or attached changes a value already recorded by the storage: later reads in the same or another process return the value as it was when recorded, and its content id keeps describing it. Loading or attaching one reference never changes what another reference or the storage itself yields. (The in-memory object of the very reference a caller mutates, and an argument that an op body mutates in the call that first records it, follow the mutation.)",
 ['programs','histories'],
 "all orders of passing, returning, unwrapping, attaching and in-place mutation of nested mutable objects, interleaved with saves, cache clears and restarts",
 "tests never mutate an object after handing it over; aliasing shows up only for specific orders of mutation and reads",
 [S,M,UT],
 [("values serialized when recorded",S+": Storage.save_ref"),("deserialized on read",S+": load_ref / _attach_atom / _unwrap_atom"),("detached shapes",M+": Ref.detached / ListRef.shape")],
 [("atoms cache","serialized bytes",S),("shapes cache","must hold detached references only",S)],
 ["model keeps deep copies at record time"])
add('C14','Large values in overflow files behave like any other value',
 "A value above the overflow threshold is stored in a file and from then on every operation (read, reuse, restart, preload, drop, cleanup, concurrent use) treats it as it treats a value in the database. A write, crash, power loss or full disk in the middle of storing such a value never leaves a file that later yields a wrong, partial or unreadable value, and removing values removes no file that is still needed.",
 ['crash_points','fault_sequences','histories','configurations'],
 "all thresholds, value sizes and orders of operations, with a fault at any open, write, sync, rename or remove of an overflow file",
 "tests use overflow storage without faults, with a single writer and without reopening after an interrupted write",
 [U,S],
 [("write-once files",U+": JoblibDictStorage"),("threshold dispatch and fall-through reads",U+": SQLiteDictStorage.set/get/exists/drop/keys")],
 [("overflow directory","<content id>.joblib files",U)],
 ["simulated file system below the overflow directory; audit by a fresh process"])
add('C15','Versioned storage never serves stale results',
 "In a versioned storage, whatever history of edits to ops, helper functions, methods and tracked globals has been synced, the value returned for a call equals what the current code computes, unless the user explicitly declared a change it depends on non-semantic. This includes dependencies reached only on some inputs, through nested ops, helpers, methods, comprehensions, lambdas and generators, in other modules, and holds across restarts. (Dependencies are ops, @track-ed functions and classes, and global variables read by name; one process uses the storage at a time.)",
 ['histories','programs','inputs'],
 "all histories of code edits, reverts, user answers, calls and restarts over generated dependency graphs",
 "tests replay a few fixed edit scripts in a single process with a mocked user",
 ['mandala/deps/versioner.py',DV,SV,T,DM,S],
 [("dynamic tracing",T+": DecTracer / TrackedDict"),("version lookup by semantic hash of the support",V+": Versioner.lookup_call"),("code state sync on block entry",S+": Storage.__enter__/sync_code"),("commit DAGs",SV+": DAG.sync")],
 [("versions, component DAGs, call version table","persisted with the storage",V)],
 ["plain execution of the current code"])
add('C16','Unaffected versioned results are reused',
 "A versioned call is not executed again when every dependency it actually used has, per the recorded history, the same meaning as when it ran: after edits to unrelated code, after changes declared non-semantic, after reverting an edit, and after a restart. Restoring an earlier state of the code makes exactly the results of that state available again.",
 ['histories','programs'],
 "all histories of edits, reverts, answers and restarts over generated dependency graphs",
 "tests check reuse on a few fixed scripts; reverts combined with restarts and partial dependency sets are not sampled",
 ['mandala/deps/versioner.py',SV,DV,S],
 [("content-addressed commits with semantic hashes",SV+": DAG"),("dependency sets per call",DV+": Version"),("lookup",V+": Versioner.lookup_call")],
 [("versions and call version table","persisted",V)],
 ["execution counters in op bodies"])
add('C17','Syncing code with the storage is atomic and durable',
 "If the user aborts while code changes are being reconciled on entry to a versioned block, the recorded code history is as before and the next entry asks again; if the entry fails or the process dies, the changes are afterwards reconciled entirely or not at all. If the block is left normally, the reconciliation and the calls are recorded together and survive a crash. After any fault, every recorded versioned call refers to a version the storage knows, and dropping a version removes exactly its calls and what depends on them.",
 ['crash_points','fault_sequences','histories'],
 "all crash points and errors in sync, in op execution and in saves; all user answers including abort; drop of any version",
 "tests never abort, crash or fail during a sync, so atomicity of the code history with the calls is not observed",
 [S,V,SV],
 [("sync on a copy of the DAGs",V+": Versioner.sync_codebase"),("versioner saved with the calls",S+": Storage.commit"),("version removal",S+": Storage.drop_version")],
 [("sources table","pickled versioner",S)],
 ["fresh process after each fault; question log of the simulated user"])
add('C18','Computation frames show exactly the recorded computations',
 "A frame built from an op, references, variables, or an earlier frame, and expanded backward, forward or fully, contains exactly the recorded calls and references that its definition reaches in the computation graph (forward from the elements no call of the frame consumes, backward from those no call of the frame creates), each connected by edges as recorded, whatever history of sessions, restarts, failures, drops and equal-content calls produced the store. Tables evaluated from an acyclic frame contain the true values, one row per joint computation history of the given variables and functions, and the same frame gives the same table in every session.",
 ['histories','programs'],
 "all stores reachable by generated programs with structures, multi-output ops, drops and restarts; all sources of expansion",
 "tests build frames from fixed stores; only structural self-checks, not equality with the recorded graph, are asserted on generated ones",
 [C,S,U],
 [("frame construction",C+": from_op/from_refs/from_vars"),("expansion",C+": expand_back/expand_forward/expand_all"),("tables",C+": df/eval/get_joint_history_df")],
 [("vs, fs, creator, consumers","instance data of the frame",C)],
 ["reference dataflow graph and reference values"])
add('C19','Frame operations are pure, well-formed set algebra',
 "Every frame operation (selection, up/down/midstream, union, intersection, difference, merge, drop, rename, move, copy, cleanup, refinement) yields a frame whose nodes, references, calls and connections are the set-theoretic result of the operation on its inputs, with every reverse lookup consistent with them, and leaves its inputs, its arguments and the store unchanged unless asked to work in place; an operation that is refused or fails leaves them unchanged too. Deleting the calls of a frame removes exactly them and what was computed from them from the store, in one step that a crash cannot split.",
 ['histories','programs','inputs'],
 "all sequences of frame operations on frames over generated stores, interleaved with store changes and restarts",
 "tests apply single operations to fixed frames",
 [C],
 [("set operations",C+": union/intersection/difference, select_nodes/select_subsets"),("reachability",C+": upstream/downstream/midstream"),("copy",C+": copy"),("deletion",C+": delete_calls")],
 [("frame graph and instance sets","value semantics",C)],
 ["snapshots of inputs before/after; set model"])
add('C20','Identities do not depend on the process that computes them',
 "The content and history identities of values and calls are the same in every process, whatever its hash randomisation, the order in which the program made its calls, or what is cached, so that what one process saved every other process recognises instead of computing it again; equal values built in different insertion orders (sets, frozensets, dicts, also nested) have one identity, and stored values hash to their content identity in every process.",
 ['configurations','inputs','programs'],
 "all hash seeds and insertion orders of sets/dicts/dataframes/nested values within supported types, across simulated restarts",
 "tests run in one process with one fixed hash seed",
 [UT,M,S],
 [("content hash",UT+": get_content_hash"),("structural identities",M+": __make_list__/__make_dict__"),("call identities",M+": Op.get_call_history_id/get_call_content_id")],
 [],
 ["digest of recorded identities per process"])
add('C21','Content hashing separates different values',
 "Two values that differ in type-relevant content get different content identities (no accidental collision between supported types such as numbers, strings, containers, arrays and frames).",
 ['inputs'],
 "all pairs of supported values",
 "tests hash a few values",
 [UT,M],
 [("content hash",UT+": get_content_hash"),("value pointer identity",M+": wrap_atom")],
 [], ["pure function of its input"])
add('C22','Graph helpers return correct orders and components',
 "Topological orders respect every edge, strongly connected components partition the nodes correctly, and edges-on-paths are exactly those lying on some path, for every directed graph.",
 ['inputs'],
 "all finite directed graphs",
 "tests use a few graphs",
 [UT],
 [("graph algorithms",UT+": topological_sort / find_strongly_connected_components / almost_topological_sort / get_edges_in_paths")],
 [], ["pure function of its input"])
add('C23','Rendered diagrams and diffs depict the data they are given',
 "The diagrams, tables and code diffs produced for display contain exactly the nodes, edges and lines of the structure they are given.",
 ['inputs'],
 "all frames and code histories",
 "rendering is not asserted by tests",
 ['mandala/viz.py','mandala/deps/viz.py',C],
 [("dot generation",'mandala/viz.py'),("diff rendering",'mandala/viz.py: _get_colorized_diff')],
 [], ["pure function of its input"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
