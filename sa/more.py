"""Properties of the row path, the log, and the server (registered after the tree ones)."""
import apply
import ckpt
import ckpt2
import logs
import rcu
import replay
import rows
import serve
import tree
from props import prop, ABS, writers, TREE_ASSUME, TREE_FILES

ROWFILES = ["kvrow.hh", "query_masstree.cc", "kvthread.hh"]
ROW_ASSUME = ["the cursor operations leave the node locked between find and finish (decided by the tree lock property)",
              "row objects do not change while their node is locked"]


def rowjob(mode):
    return {"name": "rows", "tus": rows.TUS, "spec": rows.SPEC_ROWS, "roots": [r"query::run_(put|replace|remove)"], "mons": ["rows.RowMon:" + mode]}


def onego(mode):
    return {"name": "onego", "tus": serve.TUS, "spec": serve.SPEC_ONEGO, "roots": ["onego"], "mons": ["serve.OneGoMon:" + mode]}


def loops(*modes):
    return {"name": "serve", "tus": serve.TUS, "spec": serve.SPEC_SERVE, "roots": ["(tcp|udp)_threadfunc"], "mons": ["serve.ServeMon:" + m for m in modes]}


prop("C08", "A replaced row is released exactly once, and only after readers are done",
     "When a put, replace or remove takes a row out of the tree it hands exactly that row, exactly once, to deferred (RCU) reclamation while the key's node is locked; it never frees a row at once, "
     "never releases the row that stays in the tree, and never unlocks the node while the tree still refers to a released row. No replaced row is leaked.",
     ["schedules", "inputs"], "every path of put, replace and remove, for every old state of the key (absent, live row, removal marker)",
     "a row freed too early is only noticed if a reader holds it at that moment and the memory is reused; a leak is never noticed by the tests",
     ROWFILES, [("row replacement", "kvrow.hh apply_put/apply_replace/apply_remove"), ("deferred release", "value_*.hh deallocate_rcu*")],
     "The three row write operations, each flattened with its helpers; obligations are every row creation, release and slot store on every path.",
     "released set and slot content per path: released row == old row of the locked slot, released once, through a deallocate_rcu form; at unlock the slot does not hold it; a stored-over row is released.",
     [rowjob("rcu")], ("rows released", "rows created", "operations finished", "exits"),
     "Decides the call protocol of row memory; that deallocate_rcu itself defers long enough is a separate property.", ABS + "; ownership typestate", assumptions=ROW_ASSUME)

prop("C09", "Writes to a key are logged in the order in which they took effect",
     "A logged write takes its thread's log lock while the key's node is locked, before its epoch and timestamp are fixed and before the row changes, and keeps it until its record is written. "
     "So for one key the order of log records, timestamps and effects agree, and a modification record names the timestamp of the value it modified.",
     ["schedules", "crash points"], "every path of put, replace and remove on a thread with a log",
     "two writes to one key must race, and the server must then crash, before a wrong order is visible",
     ROWFILES + ["log.hh"], [("log lock taken under the node lock", "kvrow.hh apply_*"), ("epoch under the log lock", "kvrow.hh"), ("released by the recorder", "log.cc record")],
     "The three row write operations on all paths, with and without a log.",
     "node lock, then log lock, then epoch := global log epoch and timestamp, then row change; log lock still held at return iff something changed; base timestamp == old row's iff the row was modified in place of being created.",
     [rowjob("log")], ("log lock acquisitions", "epoch assignments", "timestamps assigned", "row changes", "exits"),
     "Decides lock nesting and order on all paths.", ABS + "; lock-nesting typestate", assumptions=ROW_ASSUME)

prop("C10", "Every acknowledged write is logged exactly once, as executed",
     "For each request the server executes on a logging thread, an effective put, replace or remove is handed to the log exactly once before it is acknowledged, with the command, key, value, times and log of that very operation, "
     "and with a key and value that are still alive; requests that change nothing are not logged.",
     ["inputs", "crash points"], "every request and every path through its execution",
     "a record that differs from the executed write is only visible after a crash and recovery",
     ["mtd.cc"], [("request execution", "mtd.cc onego")],
     "onego on all paths: provenance of every string and pointer it passes to the tree operation and to the log record is tracked back to the request slot it came from.",
     "tree operation and record agree on key slot, value and command; times come from the same query; no string is used after the request slot owning it was overwritten; at return, log present and row changed => recorded once.",
     [onego("log")], ("requests executed", "log records requested", "exits"),
     "Decides the hand-over between execution and log.", ABS + "; provenance and string-lifetime analysis")

prop("C11", "An epoch is declared durable only after its records are on disk",
     "A log declares an epoch flushed only after the buffer with everything up to that epoch was written completely and synced successfully, or when it holds nothing unwritten and is quiescent. "
     "Log state shared between threads is used only under the log's lock, and a buffer being written out is no longer the one new records go to.",
     ["crash points", "schedules"], "every iteration of the logging thread, whatever other threads append meanwhile",
     "a premature flush mark is only visible if the machine fails in that window",
     ["log.cc"], [("log flusher", "log.cc loginfo::run")],
     "The logging thread's loop, to a fixpoint.",
     "typestate drained -> written completely -> synced and checked -> epoch published; the epoch published is the one read under the lock when the buffer was taken; access to log state => lock held.",
     [{"name": "flush", "tus": logs.LOGTUS, "spec": logs.SPEC_FLUSH, "roots": ["loginfo::run"], "mons": ["logs.FlushMon"]}],
     ("log lock acquisitions", "accesses to log state", "buffers taken for writing", "buffer writes", "syncs", "flushed-epoch updates"),
     "Decides the flusher's protocol; write() and fsync() are trusted.", ABS + "; flush typestate")

prop("C12", "A log record is complete, in order, and inside the buffer",
     "Recording a write appends, under the log's lock, exactly one record with the write's own key, value, timestamp and base timestamp, preceded by the epoch and wake-up records it needs to be replayed in the right epoch; "
     "everything written was checked to fit the buffer; the log position advances by exactly what was written; a writer that waits for space leaves no trace on the wait queue.",
     ["inputs", "schedules"], "every key and value length, every log state, every wait for space",
     "a missing epoch record or an overflow by a few bytes needs a particular buffer fill level or quiescence state",
     ["log.cc", "log.hh"], [("record", "log.cc loginfo::record"), ("wait queue", "log.cc")],
     "loginfo::record on all paths, with linear arithmetic over buffer position, record sizes and key and value lengths.",
     "sum of sizes written after a room check <= size checked; position' == position + size; epoch/wake records precede the key record whenever the log's epoch/wake epoch differ; record fields == operation's.",
     [{"name": "record", "tus": logs.LOGTUS, "spec": logs.SPEC_RECORD, "roots": ["loginfo::record"], "dem": r"Str, lcdf::Str\)", "mons": ["logs.RecordMon"]}],
     ("log lock releases", "records written", "room checks", "wait queue insertions", "exits"),
     "Decides the string-valued recorder; the Json-valued overload only converts and forwards.", ABS + "; linear bounds and record typestate")

prop("C13", "Timestamps of a key never go backwards, across removals too",
     "Each write gets a timestamp taken while its key's node is locked and above the timestamp of the row it replaces; for a new key, above the node's removal mark. A removal raises that mark above its own timestamp, "
     "and when a node is split, collapsed or unlinked its mark goes to every node that takes over part of its key range. So the values one key ever had are ordered by timestamp, which is what replay relies on.",
     ["histories", "schedules"], "every path of put, replace and remove; every history of a key",
     "needs a removal and re-insertion of one key by threads with different clocks, then a replay",
     ROWFILES + TREE_FILES, [("timestamps", "kvrow.hh assign_timestamp, kvthread.hh update_timestamp"), ("removal marks", "kvrow.hh apply_remove, observe_phantoms"),
                             ("marks across splits and removals", "masstree_split.hh, masstree_remove.hh")],
     "The three row write operations on all paths, and all tree write operations for what happens to the marks when nodes come and go.",
     "row created => its timestamp is the one assigned under the lock, assigned with the old row's timestamp as lower bound (existing key) or after observing the node's mark (new key); key removed => mark > timestamp. "
     "Leaf leaves the list => its mark was merged into the leaf that inherits its keys; new leaf published => it carries the mark of the leaf it was split from.",
     [rowjob("ts")] + writers("tree2.PhantomMon"),
     ("timestamps assigned", "phantom observations", "phantom epoch updates", "rows created", "removal marks passed on", "leaves taken out", "new leaves published"),
     "Decides where timestamps come from; the modular comparison itself is trusted.", ABS + "; value-provenance typestate", assumptions=ROW_ASSUME)

prop("C14", "An answer tells what happened to the key, or what it holds",
     "Put and replace store the new row and report Inserted exactly if the key had no live value before, Updated otherwise; remove reports exactly whether the key had a live value. "
     "A get answers with columns of the key's row exactly if the key has a live value, and with no value otherwise; a removal marker left by log replay counts as no value. "
     "A partial put never drops the columns it does not name. The reply to each request carries the request's command plus one and that result; a request the server does not understand changes nothing and gets an error.",
     ["inputs", "histories"], "every request and every prior state of its key",
     "the tests use few commands and never a removal marker or a malformed command",
     ROWFILES + ["mtd.cc"], [("result codes", "kvrow.hh run_*"), ("replies", "mtd.cc onego")],
     "The row write operations, the point lookup and onego, all paths.",
     "return value is determined by (found, marker) of the locked slot; the slot holds the created row at unlock; reply to get: cut to two fields, columns appended iff found and not marker; reply[1] == command + 1, reply[2] == result, operation kind == command.",
     [rowjob("res"), {"name": "get", "tus": rows.TUS, "spec": rows.SPEC_GET, "roots": ["query::run_get"], "mons": ["rows.GetMon"]}, onego("proto")],
     ("result codes", "operations finished", "lookups", "rows returned", "requests executed", "exits"),
     "Decides result and reply codes on all paths.", ABS + "; value-provenance typestate", assumptions=ROW_ASSUME)

prop("C15", "Each request is executed once and answered once, on its own connection",
     "The TCP and UDP service loops execute each complete request once and send one reply for it to where it came from; no thread waits for input or closes a connection while a reply is unsent. "
     "Only bytes that were received are interpreted as the request, only complete requests are executed, and a closed connection is never used again.",
     ["inputs", "schedules"], "every sequence of requests, partial requests, errors and disconnects",
     "needs truncated datagrams, pipelined requests or disconnects at particular points",
     ["mtd.cc"], [("TCP loop", "mtd.cc tcp_threadfunc"), ("UDP loop", "mtd.cc udp_threadfunc")],
     "Both loops to a fixpoint; request, reply and connection typestates.",
     "request: received -> checked complete -> executed -> answered; reply owed => flushed or connection queued before waiting; parsed length <= received length; close => deregistered, then no use.",
     [loops("reply", "input")], ("waits for input", "requests parsed", "requests executed", "replies built", "connections closed"),
     "Decides the loops' protocol; buffer contents of a connection are a separate property.", ABS + "; request/connection typestate")

prop("C16", "Requests run, and their replies are built, inside an RCU section",
     "Every request is executed inside an RCU read section of its thread that lasts until the reply, which may point into row memory, has been built; sections are balanced, and no thread waits for input inside one.",
     ["schedules"], "every request on every path of both service loops",
     "a reply built too late reads freed memory only if another thread removes the row and reclaims it in that window",
     ["mtd.cc", "kvthread.hh"], [("RCU sections", "mtd.cc tcp_threadfunc/udp_threadfunc")],
     "Both service loops to a fixpoint.",
     "rcu_start before execute, rcu_stop after the reply is serialised, none pending at a wait.",
     [loops("rcu")], ("RCU sections", "requests executed", "replies built", "waits for input"),
     "Decides section placement; the reclamation rule itself is a separate property.", ABS + "; RCU-section typestate")

prop("C17", "The linked list of leaves stays complete, in order and connected",
     "A leaf is put into or taken out of its layer's linked list only under the mark that stops concurrent list changes at that place, and both directions are updated: the left leaf's right link and the right leaf's left link. "
     "A leaf that is taken out keeps its own links valid, so a scan or search standing on it can go on; no link ever refers to a leaf that is not (or not yet) in the list.",
     ["schedules"], "every split, empty-leaf removal and layer clean-up, whatever other threads do to the neighbours",
     "a wrong link loses a whole leaf from scans, or sends one in circles, only after neighbouring leaves split or empty at the same time",
     TREE_FILES + ["btree_leaflink.hh"], [("link and unlink", "btree_leaflink.hh"), ("split", "masstree_split.hh make_split"), ("empty-leaf removal", "masstree_remove.hh remove_leaf")],
     "All tree write operations, flattened, to a fixpoint; per node the mark bit and both links are tracked symbolically.",
     "link store requires the mark (or ownership of a fresh leaf); insertion sets new.prev, new.next, next.prev, left.next in an order in which each is valid when visible; removal connects prev and next to each other; mark removed exactly once.",
     writers("tree2.LinkMon"), ("links marked", "left links changed", "right links changed", "leaves taken out of the list", "leaves inserted in the list", "removed leaves released"),
     "Decides the local protocol on all paths; that local steps give a globally ordered list follows from the lock and mark rules.", ABS + "; link typestate", assumptions=TREE_ASSUME)

prop("C18", "Removed nodes and key suffixes are reclaimed once, late, and unreachable",
     "A node that was reachable is freed only through deferred reclamation, exactly once, after it was marked deleted and every link to it from the tree (its parent's child slot or its layer's entry) was replaced. "
     "The same holds for key-suffix storage that is replaced. No removed node is leaked, none is used after the removing operation let go of it, and none is removed that has not been seen, under its lock, to hold no entry any more.",
     ["schedules"], "every path of every tree write operation and layer clean-up",
     "an early or double free needs a reader inside the node at that moment; a leak needs long churn to be seen",
     TREE_FILES, [("node reclamation", "masstree_struct.hh deallocate_rcu"), ("collapse and redirect", "masstree_remove.hh remove_leaf, collapse, redirect"), ("suffix bags", "masstree_struct.hh assign_ksuf")],
     "All tree write operations, flattened, to a fixpoint; per node: published, deleted, linked, released.",
     "typestate reachable -> empty -> unlinked and deleted -> handed to deferred reclamation once; at return every node taken out has been handed over.",
     writers("tree2.ReclaimMon"), ("nodes handed to reclamation", "suffix bags released", "parent links replaced", "layer roots replaced", "removed nodes released", "exits"),
     "Decides the call protocol; how long deferred reclamation waits is a separate property.", ABS + "; ownership typestate", assumptions=TREE_ASSUME)

RCUFILES = ["kvthread.hh", "kvthread.cc", "mtd.cc"]


def rcujob(name, spec, roots, mon):
    return {"name": name, "tus": rcu.PROBE, "spec": spec, "roots": roots, "mons": [mon]}


prop("C19", "Deferred reclamation waits for every reader, and forgets nothing",
     "Memory and callbacks handed to deferred (RCU) reclamation are freed or run exactly once, only after every thread that was inside a read section at that time has left it. "
     "A thread inside a section always publishes the epoch it entered in; the active epoch never passes a reader; nothing handed over is dropped or freed twice, however long the lists grow.",
     ["schedules", "histories"], "every history of releases, epochs and read sections; every fill level of the limbo lists",
     "an early free needs a reader paused across an epoch change; the batch limit, group refill and partial-clean paths need thousands of releases in one epoch",
     RCUFILES, [("limbo lists", "kvthread.hh limbo_group, kvthread.cc hard_rcu_quiesce/clean_until"), ("read sections", "kvthread.hh rcu_start/rcu_stop"),
                ("active epoch", "kvthread.hh min_active_epoch, mtd.cc epochinc")],
     "The recording, cleaning and section functions of the RCU core on all paths, list contents tracked element by element; and every function of the server that writes an epoch variable.",
     "freed => its epoch mark was compared: active epoch - mark >= 1; element passed <=> freed or mark; partial clean leaves the right mark at the head; recorded behind a mark equal to the global epoch, with room; "
     "min <= global epoch read before the readers, and <= each reader's epoch; active epoch := min only.",
     [rcujob("rcuclean", rcu.SPEC_CLEAN, ["threadinfo::hard_rcu_quiesce"], "rcu.CleanMon"),
      rcujob("rcurec", rcu.SPEC_REC, [r"threadinfo::(pool_)?deallocate_rcu", "threadinfo::rcu_register"], "rcu.RecordMon"),
      rcujob("rcusect", rcu.SPEC_SECT, [r"threadinfo::rcu_(start|stop|quiesce)"], "rcu.SectMon"),
      rcujob("rcusect", rcu.SPEC_SECT, ["threadinfo::min_active_epoch"], "rcu.MinMon"),
      {"func": "rcu.epochs"}],
     ("objects freed", "epoch comparisons", "limbo elements passed", "limbo groups relinked", "objects recorded", "epoch marks recorded", "recorded under an existing mark",
      "sections started", "sections ended", "reader epochs looked at", "global epoch updates", "active epoch updates"),
     "Decides the reclamation rule on all paths given the invariant that a non-empty group starts with an epoch mark, which is itself checked; the memory order of epoch loads and stores is taken as x86-TSO.",
     ABS + "; limbo-list typestate, epoch inequality inference",
     assumptions=["a thread's limbo list is used by that thread only", "at most one epoch update runs at a time (signal handler of the main thread)"])

prop("C20", "Pool memory is handed out once and returns to its own pool",
     "A block taken from a thread's memory pool is handed to one user only, goes back exactly once, to the pool of exactly its own size class whether freed at once or later, "
     "and never to the general allocator; memory from the general allocator never enters a pool, and callbacks are run, not freed.",
     ["inputs", "histories"], "every block size the pools hold and every way a block is released",
     "a block in the wrong pool corrupts memory only when a later allocation of the other size uses it",
     ["kvthread.hh", "mtcounters.hh"] + TREE_FILES, [("pools", "kvthread.hh pool_allocate/pool_deallocate/pool_deallocate_rcu/free_rcu"), ("memory tags", "mtcounters.hh")],
     "The pool operations on all paths; the size-class expressions of allocation and release, extracted symbolically and compared for every size; every allocation call site's tag.",
     "pop: head := head->next, returns head; push: block->next := head, head := block, once; class(allocate, sz) == class(release, sz) for all sz; tag decides pool, free() or callback; a tag is used with one allocator family.",
     [rcujob("pool", rcu.SPEC_POOL, [r"threadinfo::(pool_allocate|pool_deallocate|free_rcu)"], "rcu.PoolMon"), {"func": "rcu.sizes"}, {"func": "rcu.families"}],
     ("blocks handed out", "blocks given back", "blocks freed", "callbacks run", "size class computations", "sizes compared", "allocation call sites"),
     "Decides the pools' own protocol, and that callers use one family per tag; that callers pass equal sizes is decided for tree nodes only.",
     ABS + "; exhaustive evaluation of extracted size terms")

LOGFILES = ["log.cc", "log.hh"]
LOG_ASSUME = ["a log file holds what the kernel was told to write; disk corruption inside a record is out of scope (records carry no checksum)"]

prop("C21", "What is written to a log record is what recovery reads back",
     "The reader of log records takes every field (command, key, value, timestamp, base timestamp, epoch) from where the writer of that kind of record puts it, "
     "reads no byte beyond the log, accepts no record that does not fit into the log or whose parts do not fit into it, and always moves forward by the record's own length.",
     ["inputs", "crash points"], "every record kind, every key and value length, every byte string a torn log may end with",
     "tests do not crash the server; a torn or malformed tail reaches only the recovery code",
     LOGFILES, [("record writers", "log.cc logrec_*::store"), ("record reader", "log.cc logrecord::extract")],
     "The three record writers and the reader on all paths; each byte range read or written is an obligation against the record structs' layout.",
     "writer: each header field, key and value stored once at its layout offset, size returned == bytes written; reader: offset read <= end proved by linear bounds, value pointer == key end, next position == start + size, size >= header.",
     [{"name": "recstore", "tus": replay.TUS, "spec": replay.SPEC_STORE, "roots": [r"logrec_.*::store"], "mons": ["replay.StoreMon"]},
      {"name": "recextract", "tus": replay.TUS, "spec": replay.SPEC_EXTRACT, "roots": [r"logrecord::extract"], "mons": ["replay.ExtractMon"]}],
     ("record writers", "log bytes read", "epoch records accepted", "data records accepted", "malformed records", "exits"), "Decides the record format on both sides against one layout.", ABS + "; linear bounds, layout agreement", assumptions=LOG_ASSUME)

prop("C22", "Replay applies exactly the records of its window, then cuts the log safely",
     "Replaying a log runs every complete key record whose epoch lies in [checkpoint start, replay end), in log order, and no other. The log is then cut down to that window: "
     "the new contents are complete and synced before they replace the old log, nothing of the window is lost, and a failure aborts instead of continuing with a damaged log.",
     ["crash points", "inputs"], "every log contents and window; every failing system call; a crash between any two calls",
     "needs a crash during or after recovery, and logs whose epochs straddle the window",
     LOGFILES, [("replay", "log.cc logreplay::replayandclean1"), ("cut", "log.cc replay_truncate, replay_copy")],
     "logreplay::replayandclean1 with its helpers, all paths, to a fixpoint over any number of records.",
     "per record: run <=> key record and epoch in window; kept range = from the first epoch record at or after the window start to the first at or after its end (or the last complete record); "
     "truncate or copy that range, check, fsync, close, then rename over the old log.",
     [{"name": "logreplay", "tus": replay.TUS, "spec": replay.SPEC_REPLAY, "roots": [r"logreplay::replayandclean1"], "mons": ["replay.ReplayMon"]}],
     ("records read", "records applied", "files opened", "log cut or copied", "log syncs", "logs replaced", "exits"),
     "Decides the replay loop and the order of system calls; directory sync after rename is not demanded (the code does not claim it).", ABS + "; window and file-state typestate", assumptions=LOG_ASSUME)

prop("C23", "Recovery replays the epochs for which all logs are complete, in lock step",
     "Recovery loads the checkpoint, then summarises every log, then finds missed wake-ups, then replays, each phase only after all threads finished the one before and while no request runs. "
     "It replays from the checkpoint's start to the earliest end of a log that did not quiesce or missed wake-up, and restarts at a later epoch. Summaries reflect every record of a log.",
     ["crash points", "schedules", "histories"], "any number of logs with any epochs, quiesce and wake records; any thread timing",
     "a wrong window drops acknowledged writes, or revives half-logged epochs, only for particular crash times of several logs",
     LOGFILES + ["mtd.cc"], [("recovery", "mtd.cc recover"), ("hand-shake", "mtd.cc recphase, waituntilphase, inactive"), ("log summary", "log.cc logreplay::info, min_post_quiescent_wake_epoch"), ("log thread", "log.cc logreplay::replay")],
     "recover() and the log threads' side of the hand-shake on all paths; each pass over the log summaries is checked to be an inductive maximum, minimum or upper bound over all logs.",
     "phase order; shared phase state under its lock and announced; last epoch = max over logs and checkpoint; end <= last epoch of each non-quiescent log and each missed wake; start = checkpoint start; next epoch = end + 1; summary fields per record kind.",
     [{"name": "loginfo", "tus": replay.TUS, "spec": replay.SPEC_INFO, "roots": [r"logreplay::(info|min_post_quiescent_wake_epoch)"], "mons": ["replay.LogScanMon"]},
      {"name": "logphase", "tus": replay.TUS, "spec": replay.SPEC_PHASE, "roots": [r"logreplay::replay"], "mons": ["replay.PhaseMon"]},
      {"name": "recphase", "tus": replay.REC_TUS, "spec": replay.SPEC_PHASE, "roots": [r"waituntilphase|inactive|recphase"], "mons": ["replay.CondMon"]},
      {"name": "recover", "tus": replay.REC_TUS, "spec": replay.SPEC_RECOVER, "roots": [r"recover"], "mons": ["replay.RecoverMon"]}],
     ("log bytes read", "records passed", "phases waited for", "summaries reported", "phases reported back", "logs replayed", "phase state accesses", "phase waits", "phase announcements",
      "recovery phases", "log summaries used", "passes over the logs", "first epochs set", "exits"),
     "Decides phase order, hand-shake and window computation on all paths; the server is assumed to have at least one log.", ABS + "; hand-shake typestate, inductive extremum inference over passes",
     assumptions=LOG_ASSUME + ["a server has at least one log"])

CKFILES = ["mtd.cc", "checkpoint.cc", "checkpoint.hh"]
CK_ASSUME = ["the server restarts with the same numbers of checkpoint threads and logs, and the same directories", "a part of a checkpoint is smaller than 2 GB"]


def ckjob(name, spec, roots, mon):
    return {"name": name, "tus": ckpt2.TUS, "spec": spec, "roots": roots, "mons": [mon]}


prop("C24", "A committed checkpoint holds every write that is not replayed from the logs",
     "A checkpoint contains, for every key, the effects of all requests of epochs before its first epoch (replay starts there). The key ranges of its threads cover all keys without overlap, "
     "every live row of a range is saved exactly once and no marker is, and it is committed only after all parts are written and every log is flushed beyond its last epoch.",
     ["schedules", "crash points", "inputs"], "every timing of requests, checkpoint threads and logs; any number of threads and keys",
     "a request caught between fixing its epoch and changing the tree, or a range limit key, is lost only if the server crashes after that checkpoint commits",
     CKFILES, [("coordinator and workers", "mtd.cc conc_checkpointer"), ("one row", "checkpoint.cc ckstate::visit_value"), ("record", "mtd.cc prepare_checkpoint"), ("flushed epochs", "mtd.cc max_flushed_epoch")],
     "The checkpoint thread function (coordinator and worker) on all paths, with loops over threads and logs checked as passes over all elements; the scan callback; the commit record; the minimum over the logs.",
     "first epoch read, then every log's lock passed, then generation, ranges [pivot i, pivot i+1) for all i, go, own part, all others ready, record; commit only if min over logs of flushed epoch > last epoch; row saved <=> in range and no marker.",
     [{"name": "ckptmain", "tus": ckpt.TUS, "spec": ckpt.SPEC_MAIN, "roots": ["conc_checkpointer"], "mons": ["ckpt.CkMain"]},
      ckjob("ckptvisit", ckpt.SPEC_VISIT, ["ckstate::visit_value"], "ckpt2.VisitMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["prepare_checkpoint"], "ckpt2.PrepMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["max_flushed_epoch"], "ckpt2.FlushMon")],
     ("generations started", "key ranges handed out", "logs waited for", "pivots chosen", "checkpoint files", "checkpoints completed", "commits", "thread states changed", "waits",
      "fields written", "scan steps", "records", "logs asked", "results"),
     "Decides the protocol and the callback; that the scan itself meets every key is the scan property's matter, and how balanced the ranges are is not decided.",
     ABS + "; passes over arrays (inductive marks), lock and hand-shake typestate", assumptions=CK_ASSUME)

prop("C25", "Checkpoint files are complete and on disk before commit, and read back whole",
     "A part file consists of a header with the generation and the number of rows, followed by exactly these rows, each as key, timestamp and value; it is synced before it counts as written. "
     "Commit replaces the commit record atomically and only then deletes the last checkpoint. Recovery reads every row of the part of the committed generation, from the name it was written to, or stops.",
     ["crash points", "inputs"], "every row set, every failing or partial system call, a crash between any two calls",
     "tests never crash the server or fail a system call; a lost sync or a short write shows only after a power failure",
     CKFILES + ["file.cc", "file.hh"], [("writing", "mtd.cc conc_filecheckpoint, writecheckpoint"), ("commit", "mtd.cc commit_checkpoint, file.cc atomic_write_file_contents"), ("reading", "mtd.cc recovercheckpoint, read_checkpoint, checkpoint.hh ckstate::insert")],
     "Each of these functions on all paths, including the write loop with any sequence of partial results; the file-name expressions of writer, reader and deletion are compared.",
     "header first, size == rows counted by this scan; checked write, fsync == 0, close == 0; temporary file complete before rename; unlink only generation - 1 after commit; `size` insertions in field order; generation compared before going on.",
     [ckjob("ckptfile", ckpt.SPEC_FILE, ["conc_filecheckpoint"], "ckpt2.PartMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["recovercheckpoint"], "ckpt2.RecoverMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["commit_checkpoint"], "ckpt2.CommitMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["sync_write_file_contents"], "ckpt2.SyncMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["atomic_write_file_contents"], "ckpt2.AtomicMon"),
      ckjob("ckptfile", ckpt.SPEC_FILE, ["read_checkpoint"], "ckpt2.ReadMon"),
      ckjob("ckptvisit", ckpt.SPEC_VISIT, [r"ckstate::insert"], "ckpt2.InsertMon"),
      {"func": "ckpt2.io"}, {"func": "ckpt2.filenames"}],
     ("scans", "writes", "parts finished", "parts read", "commits", "deletions", "files opened", "files written", "renames", "rows inserted", "fields read", "insertions", "system calls", "file names"),
     "Decides contents, order of system calls and error handling; directory sync after rename is not demanded (the code does not claim it).",
     ABS + "; file-state typestate, format agreement, inductive loop sums", assumptions=CK_ASSUME)


prop("C26", "A node's version word tells readers of every change made under its lock",
     "Only one thread at a time holds a node's lock. Whoever reads a node between a stable version and a successful re-check saw no insertion, split or deletion in between: marks are visible until unlock, "
     "unlock advances the counter of what was marked, the checks compare all of it, and unlocking loses neither the deleted mark nor the node's kind.",
     ["schedules", "inputs"], "every value of the 32-bit word, every interleaving of lock holders and readers at the granularity of single word accesses",
     "a lost counter step or an ignored bit needs a reader to be preempted exactly around a writer's critical section; tests hit this by luck only",
     ["nodeversion.hh", "compiler.hh"], [("lock, marks, unlock", "nodeversion.hh nodeversion::lock, mark_*, unlock"), ("checks", "nodeversion.hh stable, has_changed, has_split")],
     "Every instantiated function of nodeversion on all its paths; each word stored, compared or returned is followed bit by bit (constant, bit i of a word read, counter step from bit k).",
     "lock: compare-and-swap e -> e|L with e unlocked, result e|L; marks: exactly their bit, fence after; unlock: fence, then one store with lock and marks 0, deleted, kind (and root, unless split) kept, "
     "counter field of >= 16 bits advanced when marked; has_changed and has_split: 'unchanged' only if all counter and state bits agree; stable: the word read, with both marks 0, fence after.",
     [{"func": "word.word"}],
     ("lock operations", "mark operations", "unlock cases", "comparisons", "stable reads", "tests", "copies"),
     "Decides the word's protocol for all bit patterns; counter wrap-around (2^19 splits or more during one read) is accepted. Weak memory below the compiler is out of scope (the code's fences are x86 compiler barriers).",
     "bit-level provenance analysis (abstract interpretation) of LLVM IR", assumptions=["x86-TSO; fences are compiler barriers", "the word is accessed through nodeversion only (its field is private)"])


prop("C27", "A leaf's order word names every slot exactly once after any update",
     "Starting from the empty or the sorted word, every insertion, removal, exchange, rotation and size change leaves a word in which each slot number occurs exactly once, free or in use: "
     "an insertion puts the slot it returns at the index asked for and keeps the order of the others, a removal takes out exactly the slot at its index and keeps it among the free ones.",
     ["inputs", "histories"], "every permutation, size, index and node width from 3 to 15",
     "15! orders times sizes and indexes; a wrong mask shows only for particular sizes and indexes, typically a full node",
     ["kpermuter.hh"], [("updates", "kpermuter.hh kpermuter::insert_from_back, insert_selected, remove, remove_to_back, exchange, rotate, set_size"), ("initial words", "kpermuter.hh make_empty, make_sorted"), ("reads", "kpermuter.hh operator[], back, size, value_from")],
     "Every operation on all paths; its result term is read nibble by nibble as 'position k of the old word' for each size and index, with the old slots left symbolic.",
     "new positions are a permutation of the old ones; size n -> n + 1, n - 1 or as given; positions below the index unchanged, those above moved by one, the inserted or removed slot where documented; initial words name 0..W-1 once, free slots ascending from the back.",
     [{"func": "perm.perm"}],
     ("updates", "initial words", "reads"),
     "Decides the order-word operations for all permutations (induction over updates: a permutation is mapped to a permutation); exchange_values, which only tests use, is left out. Callers' index arguments are assumed within the documented ranges.",
     "bit-level provenance analysis (abstract interpretation) of LLVM IR", assumptions=["callers respect the documented index ranges"])


prop("C28", "Key slices and lengths order and identify keys exactly like their bytes",
     "A key's slice is the number whose bytes, highest first, are its next eight bytes, zero filled; so it stays through shifting to the next layer and back, and is written back unchanged. "
     "Comparing keys by slice, then by length with all lengths above eight alike, orders them as byte strings; a stored suffix matches exactly the key with these bytes.",
     ["inputs"], "every byte content; lengths up to two slices and one byte (beyond eight only the suffix comparison, a memcmp, looks at the length)",
     "zero bytes at the end of a key, lengths around eight and bytes above 127 in any combination; a wrong bound shows only for few of them",
     ["string_slice.hh", "masstree_key.hh", "masstree_struct.hh", "compiler.hh"],
     [("slices", "string_slice.hh string_slice::make*, unparse_comparable, equals_sloppy"), ("keys", "masstree_key.hh Masstree::key"), ("slots", "masstree_struct.hh leaf::compare_key, ksuf_matches, internode::compare_key")],
     "Every operation for each length, shift count and buffer size of the range, with all bytes left symbolic: each byte stored, compared or returned is followed to the byte it came from.",
     "slice byte 7 - j is string byte j, or 0 beyond the end; string, length and slice agree after every key operation; comparison results against the table (slice relation) x (lengths); an equality depends on exactly the bytes of both strings.",
     [{"func": "keys.table"}, {"func": "keys.nodes"}],
     ("cases", "functions"),
     "Decides the operations for all byte contents at these lengths; lengths beyond that only change counts handed to memcpy and memcmp. Little-endian 64-bit layout, as configured.",
     "byte-provenance analysis (abstract interpretation with exact case analysis) of LLVM IR",
     assumptions=["as documented, the bytes just around a key may be read", "keys do not overlap the buffers they are written to"])


prop("C29", "Searching a node finds the key's slot, or where it belongs",
     "For a node whose keys are in ascending order, the lower-bound search returns the slot holding the key and its index if there is one, and otherwise the index before which all keys are smaller and "
     "from which on all are larger; the upper-bound search returns the first index with a larger key. Both the linear and the binary search look only at indexes in use, whatever the node's size.",
     ["inputs"], "every node size up to 16, every key set and key, all four searches, over leaves (with an order word) and internal nodes",
     "an off-by-one at one end shows only for particular node sizes and positions", ["ksearch.hh"],
     [("searches", "ksearch.hh key_upper_bound_by, key_lower_bound_by, key_find_upper_bound_by, key_find_lower_bound_by")],
     "Each search, for nodes with and without an order word, as a loop with the inductive facts 'all below t smaller', 'all from t larger'.",
     "every comparison is at an index in [l, r); a result is an index t with both facts, or the index and slot of a comparison that was equal.",
     [{"func": "ksearch.search"}],
     ("comparisons", "results", "searches"),
     "Decides the searches for an abstract comparison; that the node's keys are in order under that comparison is C28's and the tree properties' matter.",
     "inductive loop facts (abstract interpretation)", assumptions=["the comparison is a total order and the node's keys are distinct and ascending"])


prop("C30", "Replaying a record gives the row its timestamp asks for, in any order",
     "Replaying one log record changes only the record's own key, by timestamp and not by arrival: a record is skipped exactly if the key already holds something as new; a put, replace or remove drops every older version of the key and nothing newer; "
     "a removal leaves a removal marker; a modification is applied only to the version it was made on, and until that version turns up it is kept as a delta marker with its base's timestamp in front of the older versions. "
     "Once a base arrives, the delta markers that wait for it are merged into it in order. Versions taken out are freed once and not used afterwards, none is lost, and no record can stop the server.",
     ["crash points", "histories", "inputs"], "every record kind, every chain of delta markers and versions its key may have, every order in which the logs of several threads are replayed",
     "needs a crash and logs of several threads replayed in an order other than the original one; the tests never replay a log",
     ["log.cc", "log.hh", "kvproto.hh"], [("record application", "log.cc logrecord::run, logrecord::apply"), ("delta markers", "log.hh row_delta_marker"), ("removal markers", "kvproto.hh row_is_marker")],
     "logrecord::run, flattened, to a fixpoint: the chain of versions is tracked as symbolic slots and rows (what each slot holds, each row's timestamp, marker kind, base timestamp and link), so every chain length is covered.",
     "search passes a row only if it is a delta marker newer than the record; record skipped => a row found there is not older; row dropped => older, record not a modification, and its successor relinked or dropped too; "
     "new row: value, changes and timestamp are the record's; update => base timestamp matches; delta marker stored => header complete and base ruled out; merge => base timestamps match; at unlock no mergeable delta marker is left, and owed frees are done.",
     [{"name": "apply", "tus": apply.TUS, "spec": apply.SPEC, "roots": ["logrecord::run"], "mons": ["apply.ApplyMon"]}],
     ("rows looked at", "rows unlinked", "rows freed", "rows created", "rows linked", "delta markers merged", "records finished", "exits"),
     "Decides what one record does to its key's chain; what update() does with columns is not covered.", ABS + "; symbolic list with ownership typestate",
     assumptions=["versions of a key are chained by falling timestamp (each record keeps it so)", "base timestamps name full rows, which have even timestamps"])


def treejob(name, root, mon, extra=""):
    return {"name": name, "tus": tree.TUS, "spec": "root %s\n" % root + extra + tree.SPEC_TREE + tree.SPEC_DESCENT, "roots": [root], "mons": [mon]}


prop("C31", "A writer's search ends at a locked, live, current leaf",
     "When a writer's search returns, it holds exactly one node, the leaf it hands back. That leaf was not deleted when it was found and is not what is left of a removed layer; under its lock its version and its permutation are "
     "the ones the search was made with; the permutation was read before the keys. A link to a deeper layer is followed only after the leaf it was read from is known not to have changed, with the key moved on to that layer's part, "
     "and a search that starts over at the top starts with the whole key.",
     ["schedules", "inputs"], "every path through the search, for every interleaving with splits, removals, and layers created or removed meanwhile",
     "the search must run into a node in the few instructions in which another thread deletes it or its layer; otherwise every check in it can be left out without effect",
     ["masstree_get.hh", "masstree_struct.hh", "masstree_key.hh"],
     [("search with lock", "masstree_get.hh tcursor::find_locked"), ("key positions", "masstree_key.hh shift_by, unshift_all")],
     "tcursor::find_locked, flattened, to a fixpoint over its retry loops; the descents are events that give a leaf and its version.",
     "at return: held set == {cursor's leaf}; version and permutation equal those of the search; deletion tested on the version of the descent; layer state tested under the lock; order permutation, fence, keys. "
     "Link of a layer used lock-free => version check of its leaf in between. Descent at a layer link <=> key moved.",
     [treejob("find", r"Masstree::tcursor::find_locked", "live.FindMon")],
     ("lock-free descents", "deletion checks", "version re-checks", "permutation re-checks", "descents with a positioned key", "exits"),
     "Decides the search itself on all paths; that its result is then used for the right slot is C03's matter.", ABS + "; validation typestate", assumptions=TREE_ASSUME)

prop("C32", "A layer is removed only while it is seen empty, and its entry with it",
     "Cleaning up an emptied layer marks a leaf as a removed layer, or replaces an inner node by its only child, only after seeing under that node's own lock that it still is the root of the layer and still is empty (or has a single child), "
     "and only for an entry in use that is a layer link for the key looked for, in a leaf that is locked. The entry is removed only if its layer was taken away in the same step; otherwise the tree stays as it is.",
     ["schedules"], "every path of the deferred clean-up, whatever was inserted, split or removed in the layer since it was scheduled",
     "a key must be inserted into the layer between the check and the lock, long after the removal that emptied it; losing it shows only if that very key is looked up",
     ["masstree_remove.hh", "masstree_struct.hh"],
     [("layer clean-up", "masstree_remove.hh tcursor::gc_layer, gc_layer_rcu_callback")],
     "gc_layer_rcu_callback::operator(), flattened with the search, the clean-up and the removal of the entry.",
     "mark as removed layer, lift of a child: under the lock, root test true and size test zero on that path; entry: index below the size, kind byte a layer, slice equal; removal of an entry only after a mark on the same path.",
     [treejob("gc", r"Masstree::gc_layer_rcu_callback::operator\(\)", "live.EmptyMon")],
     ("layers taken away", "inner nodes bypassed", "root re-checks", "entries removed", "exits"),
     "Decides the clean-up on all paths; what happens to readers still inside the layer is C06's, C08's and C18's matter.", ABS + "; check-then-act typestate", assumptions=TREE_ASSUME)

prop("C33", "Writers wait for node locks in one direction only",
     "A thread that holds the lock of a node waits only for the lock of a node above it in the same layer (reached by the parent link of a node it holds), for the top of a layer below an entry of a leaf it holds, or for a node it has just made. "
     "Any other lock it takes while holding one it only tries to take, and goes on without it. So threads never wait for each other in a circle.",
     ["schedules"], "every lock taken while another is held, on every path of every tree write operation and of the layer clean-up",
     "a deadlock needs two threads to take two locks in opposite order within a few instructions; then everything stops",
     TREE_FILES, [("parent locking", "masstree_struct.hh locked_parent"), ("layer clean-up", "masstree_remove.hh gc_layer"), ("fresh nodes", "masstree_split.hh, masstree_insert.hh")],
     "put, replace, remove, layer clean-up, checkpoint-restore insert and (thorough) log replay, each flattened, to a fixpoint.",
     "at each waiting acquisition with a non-empty held set: the node is the value of the parent link or of a layer link of a held node, or fresh; a try_lock is unrestricted.",
     writers("live.OrderMon"), ("waits while holding a lock", "waits without holding a lock", "exits"),
     "Decides the direction of every nested wait; spinning on version words and on leaf-link marks is not a node lock and is not covered.", ABS + "; lock-order typestate", assumptions=TREE_ASSUME)

prop("C34", "A descent ends at the leaf responsible for the key",
     "Looking for a key's leaf, a thread starts at a node it has seen to be the root of the layer, goes down only through a child that it found, and whose version it took, before it saw the parent unchanged, and hands back a leaf together with "
     "a version of that very leaf. When an inner node changes under it, it goes on from there only if the node did not split or still covers the key. From a leaf that has split it moves right only to a leaf that does not start beyond the key, "
     "and stops only at one whose right neighbour starts beyond the key, that has none, or that was deleted. So as of the version handed back the leaf is the one responsible for the key.",
     ["schedules", "inputs"], "every path of the descent and of the walk along the leaves, for every interleaving with splits, removals and new roots",
     "a split of exactly the node being passed must happen between two of its loads; a key that is then looked for in the wrong leaf is reported missing once, or inserted twice",
     ["masstree_struct.hh"], [("descent", "masstree_struct.hh node_base::reach_leaf"), ("walk along the leaves", "masstree_struct.hh leaf::advance_to_key"), ("last key", "masstree_struct.hh stable_last_key_compare")],
     "reach_leaf, advance_to_key and both forms of stable_last_key_compare, flattened, to a fixpoint over their retry loops; the walk may assume that the leaf it starts at was responsible as of the version it is given.",
     "facts 'n responsible as of v' come only from: root test on v; parent responsible as of w, child read at the searched position since w, child's v taken, then parent seen unchanged since w; no split between v and an earlier such version; "
     "comparison with the last key <= 0; key not below the leaf's first slice and below its neighbour's, or no neighbour. At return the fact must be there for exactly (leaf, version). Children, parents and neighbours are tested for null, neighbour links stripped of their mark. "
     "Last key: position from one size or permutation, read since a version then seen unchanged.",
     [{"func": "descent.descend"}],
     ("versions taken", "roots confirmed", "inner nodes searched", "child links followed", "leaves returned", "descent functions"),
     "Decides that the leaf is the responsible one; that the descent ends at all (progress) and the backward walk of reverse scans are not decided.", ABS + "; optimistic-descent typestate",
     assumptions=["the position search in a node is right for one state of the node (C29)", "a version word that did not change means the node did not change (C06, C27)"])
