"""Registry: what each property means, which functions are analysed for it and
by which monitor.  gen.py derives properties.jsonl and MANIFEST.json from it."""
import importlib

import tree
import readers

PROPS = {}
_mods = {}


def _obj(name):
    m, c = name.split(".")
    if m not in _mods:
        _mods[m] = importlib.import_module(m)
    return getattr(_mods[m], c)


def monitor(name):
    """'module.Class' or 'module.Class:arg'"""
    a = name.split(":")
    return _obj(a[0])(*a[1:])


def function(name):
    return _obj(name)


def prop(pid, title, statement, over, quant, why, files, mech, covers, rule, jobs, need, note, technique,
         state=None, observe=None, assumptions=(), level="other"):
    PROPS[pid] = {
        "title": title, "statement": statement, "over": over, "quant": quant, "why": why, "files": files, "mech": mech,
        "covers": covers, "rule": rule, "jobs": jobs, "need": need, "note": note, "technique": technique,
        "state": state, "observe": observe, "assumptions": list(assumptions), "level": level}


ABS = ("abstract interpretation (disjunctive typestate + symbolic values, no solver) over the flattened, type-annotated LLVM IR "
       "that clang produces from the current sources")

WR_SPEC = "".join("root %s\n" % r for r in tree.WRITERS) + tree.SPEC_TREE + tree.SPEC_DESCENT
QUICK_ROOTS = [r"query::run_put", r"query::run_replace", r"query::run_remove", r"Masstree::gc_layer_rcu_callback::operator\(\)", r"ckstate::insert"]


def writers(mon, replay="thorough"):
    roots = list(QUICK_ROOTS)
    roots.append((r"logrecord::run", replay))
    return [{"name": "tree", "tus": tree.TUS, "spec": WR_SPEC, "roots": roots, "mons": [mon]}]


TREE_ASSUME = ["the C++ memory model is taken as sequentially consistent at lock, unlock, fence and atomic operations (x86-TSO)",
               "callees kept as events (version word, permutation and suffix-bag primitives) satisfy their own contracts, decided by other properties"]
TREE_FILES = ["masstree.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_tcursor.hh", "masstree_struct.hh", "query.hh", "log.cc"]

prop("C01", "Tree write operations leave no node locked and never self-deadlock",
     "Every insert, update, removal, layer clean-up and log-replay operation on the tree releases every node lock it acquired, exactly once, on every path on which it returns. "
     "It never tries to acquire a lock it already holds and never releases one it does not hold.",
     ["schedules", "inputs"], "every path of every tree write operation, whatever other threads do to the nodes in between",
     "a leaked or doubly released lock needs a particular race or tree shape (a split that propagates, an emptied layer); the tests run a handful of interleavings",
     TREE_FILES,
     [("tree cursor lock/unlock", "masstree_get.hh, masstree_tcursor.hh"), ("hand-over-hand split", "masstree_split.hh make_split"), ("empty-leaf removal and node collapse", "masstree_remove.hh")],
     "All paths of put, replace, remove, layer garbage collection, checkpoint-restore insert and (thorough) log replay, each flattened with everything it calls, are followed to a fixpoint; "
     "the typestate is the set of nodes whose lock is held, tracked by aliasing of symbolic node addresses.",
     "At each return the held set is empty; a lock is only taken on a node not in it and an unlock only applies to a member of it.",
     writers("tree.LockMon", "quick"), ("lock acquisitions", "lock releases", "exits"),
     "Decides lock balance on all paths for all lock-taking tree operations; does not decide lock-order deadlock (see the parent-order property).",
     ABS + "; lock-set typestate", assumptions=TREE_ASSUME)

prop("C02", "A tree node is only modified by the thread that owns its lock",
     "Every field of a node that other threads can reach is written only while the writing thread holds that node's lock, or holds the lock of the parent when the field is the node's parent link. "
     "A node another thread cannot reach yet may be written freely.",
     ["schedules", "inputs"], "every store to a node on every path of every tree write operation",
     "an unlocked store is harmless in almost every interleaving, so a test passes with it",
     TREE_FILES,
     [("write under the node lock", "masstree_insert.hh, masstree_split.hh, masstree_remove.hh"), ("parent links protected by the parent", "masstree_struct.hh locked_parent")],
     "Every store into a leaf or internal node reachable from other threads, on all paths of the write operations, is an obligation: the lock set must contain its owner.",
     "store to node field => node in held lock set, or node still private to this thread, or field is the parent link and the parent is locked.",
     writers("tree.OwnMon"), ("node field writes", "parent link writes", "node state marks"),
     "Lock-set ownership of every node write (Eraser-style, but over all paths).", ABS + "; ownership / escape analysis", assumptions=TREE_ASSUME)

prop("C03", "Writers re-validate what they read before locking",
     "A write operation that locates a node without holding its lock changes it only after it has locked it and re-checked that the node still is the one responsible for the key: it was not deleted, split past the key, or refilled since it was located. "
     "If the check fails it starts over or moves on; it never changes a node on the basis of a stale search.",
     ["schedules", "inputs"], "every path from an unlocked search to the first modification of the found node",
     "a stale search needs a concurrent split or removal inside a window of a few instructions",
     TREE_FILES,
     [("find_locked version and permutation re-check", "masstree_get.hh"), ("parent re-check after lock", "masstree_struct.hh locked_parent")],
     "Obligations: each node modification must be dominated, on every path, by lock + version re-check (or a permutation re-check and deletion test) of the same node since its unlocked read.",
     "between the unlocked descent that produced a node and the first change to it there is a lock and a comparison with the version the descent returned; parent links are re-read under the lock.",
     writers("tree.ValMon"), ("lock-free descents", "version re-checks", "node changes", "parent re-checks"),
     "Decides presence and ordering of the re-validation on all paths, not the arithmetic of the comparison (see the version-word property).", ABS + "; validation typestate", assumptions=TREE_ASSUME)

READ = [{"name": "read", "tus": tree.TUS, "spec": "root Masstree::unlocked_tcursor::find_unlocked\n" + readers.SPEC_READ,
         "roots": [r"Masstree::unlocked_tcursor::find_unlocked"], "mons": ["readers.ReadMon"]}]
SCAN = [{"name": "scanstep", "tus": tree.TUS, "spec": "root Masstree::scanstackelt::find_.*\n" + readers.SPEC_READ,
         "roots": [r"Masstree::scanstackelt::find_(initial|next|retry)"], "mons": ["readers.ScanStepMon"]},
        {"name": "scanloop", "tus": tree.TUS, "spec": "root Masstree::basic_table::scan\nkeep Masstree::scanstackelt::find_.*\n" + readers.SPEC_READ,
         "roots": [r"Masstree::basic_table::scan"], "mons": ["readers.ScanLoopMon"]}]

prop("C04", "A lock-free lookup returns only values it validated",
     "A point lookup, which takes no lock, returns a found or not-found answer only if everything it read from the node was read under one version of that node which is re-checked, and found unchanged, after the last read. "
     "It never answers from a node that was already deleted when it was read.",
     ["schedules", "inputs"], "every interleaving of a lookup with concurrent inserts, splits and removals",
     "torn reads need a writer inside the window between two loads; a test cannot place it there for every pair of loads",
     ["masstree_get.hh", "masstree_struct.hh", "masstree_tcursor.hh"],
     [("optimistic read validation", "masstree_get.hh find_unlocked")],
     "Every load from a node made by the lookup, on all paths to each return.",
     "at a return no node read is outstanding: each one is followed by a has-changed test, on the version taken before it, whose outcome was 'unchanged', and that version was tested not to be deleted.",
     READ, ("descents", "node reads", "version re-checks", "deletion checks", "exits"),
     "Decides validation on all paths; the version word's own arithmetic is a separate property.", ABS + "; seqlock-reader typestate", assumptions=TREE_ASSUME)

prop("C05", "A range scan hands out only entries it validated",
     "A range scan, forward or backward, hands its caller an entry, or descends into a nested layer, only if everything read from the leaf for that entry was read under one version of the leaf that is re-checked and found unchanged afterwards. "
     "Whenever it resumes on a leaf it does so from a stable version of that leaf and positions taken under that version. "
     "When it descends into a nested layer it first records, in this order, the root of the layer it is in and the leaf it is on, and when that layer is exhausted it resumes on exactly that leaf in exactly that layer.",
     ["schedules", "inputs"], "every interleaving of a scan with concurrent inserts, splits and removals; every scan step",
     "the scan tests run with little concurrency and cannot place a split between two loads of a step",
     ["masstree_scan.hh"],
     [("scan step validation", "masstree_scan.hh find_initial/find_next/find_retry"), ("scan driver state machine", "masstree_scan.hh scan")],
     "Every load from a leaf in each scan step, on all paths, for forward and reverse scans; every hand-over to the visitor in each instantiated scan driver.",
     "a step that reports an entry or a layer has no unvalidated read outstanding; (leaf, version, permutation) of the cursor belong together whenever a step starts or ends; the visitor is called only directly after a step that reported an entry; a descent pushes the layer root, then the leaf, before the cursor's root moves, and going back up pops the leaf, then the root.",
     SCAN, ("node reads", "version re-checks", "deletion checks", "entries or layers handed over", "entries handed out", "scan steps"),
     "Decides validation and cursor consistency; does not decide completeness of the key range.", ABS + "; seqlock-reader typestate", assumptions=TREE_ASSUME)

prop("C06", "Structural changes are announced to lock-free readers",
     "Whenever a write operation reuses a slot, moves entries, splits, empties or deletes a node in a way that could make a concurrent lock-free reader see a mixture of old and new contents, the node's version is marked first, so that the reader's re-check fails. "
     "A split is marked as a split, and a removed node as deleted, before the lock is released.",
     ["schedules", "inputs"], "every structural change on every path of every tree write operation",
     "a missing mark shows only if a reader is between two specific loads of that node at that moment",
     TREE_FILES,
     [("insert/split/delete marks", "masstree_insert.hh finish_insert, masstree_split.hh, masstree_remove.hh"), ("modification state", "masstree_struct.hh")],
     "Every structural store to a shared node on all paths is an obligation to have marked the node in the way its kind of change requires.",
     "slot reuse after a removal => insert mark; entries moved to a sibling => split mark; inner-node key/child rewrite => insert or split mark; unlinking => delete mark; lower bound of a leaf never changes; a layer is announced deleted only when marked; a removal leaves the leaf in the removing state; an inner node that a layer link bypasses is marked as split.",
     writers("tree.MarkMon"), ("change marks", "permutation updates", "inner node changes", "splits completed", "right siblings linked"),
     "Decides that each kind of structural change is preceded by the mark that makes readers retry.", ABS + "; effect typestate", assumptions=TREE_ASSUME)

prop("C07", "New entries and nodes are complete before readers can reach them",
     "A new key, value or node is fully written before the store that makes it reachable for concurrent readers, with a fence in between, and nothing it consists of is written again afterwards except under the rules for shared nodes.",
     ["schedules", "inputs"], "every publication of a slot or node on every path of every tree write operation",
     "publication order is invisible to single-threaded tests and almost always to concurrent ones",
     TREE_FILES,
     [("permutation published last", "masstree_insert.hh finish_insert"), ("child link published last", "masstree_split.hh"), ("layer link", "masstree_insert.hh make_new_layer")],
     "Every store that makes a slot or a node reachable, on all paths.",
     "stores into the slot or node precede the publishing store and are separated from it by a fence; after it, no store to the slot's key, length or value without an intervening insert mark.",
     writers("tree.PubMon"), ("slot publications", "node publications"),
     "Decides write-before-publish ordering on all paths.", ABS + "; publication typestate", assumptions=TREE_ASSUME)

import more     # noqa: E402,F401  (further properties)
