"""Rules over the Masstree tree-update and lookup code."""
from engine import *

TUS = ["query_masstree.cc", "kvthread.cc", "log.cc", "mtd.cc", "checkpoint.cc"]

SPEC_TREE = r"""
keep nodeversion::(lock|unlock|try_lock|stable|stable_annotated|has_changed|has_split|simple_has_split|mark_.*|assign_version|is_root|deleted|isleaf|locked|inserting|splitting|version_value|unlocked_version_value)
keep threadinfo::(allocate|deallocate.*|pool_.*|rcu_.*|observe_phantoms|update_timestamp)
keep loginfo::(acquire|release|record|wait_for_space|wait_to_close)
keep (fence|acquire_fence|release_fence|relax_fence|compiler_barrier)
keep fail_.*
keep lcdf::Json.*
keep value_bag::.*
keep string_slice::.*
keep stringbag::(assign|stringbag|get)
keep kpermuter::(size|operator\[\]|back|value_from|make_.*|set_size|remove.*|rotate|exchange|insert.*)
keep key_.*_binary::.*
keep key_.*_linear::.*
keep Masstree::leaf::ksuf_.*
erase threadinfo::mark
erase prefetch
erase value_prefetcher::.*
erase Masstree::leaf::prefetch
erase Masstree::internode::prefetch
erase Masstree::leafvalue::prefetch
erase small_vector::.*
"""

# the lock-free descent is analysed on its own (it takes no lock, writes no
# node and returns a leaf with a stable version of it)
SPEC_DESCENT = r"""
keep Masstree::node_base::reach_leaf
keep Masstree::leaf::advance_to_key
"""

WRITERS = [r"query::run_put", r"query::run_replace", r"query::run_remove",
           r"Masstree::gc_layer_rcu_callback::operator\(\)", r"logrecord::run", r"ckstate::insert"]

PURE = (r"nodeversion::.*", r"string_slice::.*", r"key_.*::.*", r"Masstree::leaf::ksuf_.*",
        r"kpermuter::(size|back|operator.*|value_from|make.*)", r"threadinfo::.*", r"value_bag::.*")

NODE = re.compile(r"Masstree::(leaf|internode|node_base)\.(.*)")


def nv(q):
    i = q.find("nodeversion::")
    return q[i + 13:] if i >= 0 else None


def orphan(t):
    """t is mentioned by nothing but the monitor (no live value can reach it)"""
    r = rootof(t)
    return r.k == "sym" and r.a[0].__class__ is tuple and r.a[0][0] == "t"


def nodefield(addr):
    """(node, field) when addr lies in a tree node"""
    for l in labels(addr)[:2]:
        m = NODE.match(l)
        if m:
            return rootof(addr), m.group(2)
    return None


FENCES = {"fence", "acquire_fence", "release_fence", "compiler_barrier"}


class TreeMon(Monitor):
    """tracks locked and private (not yet reachable by others) objects;
    mon = (locks, priv, edges, x)"""
    pure = PURE
    x0 = frozenset()
    keepx = ()

    def init(self, eng, st):
        return (frozenset(), frozenset(), frozenset(), self.x0)

    def is_fresh(self, eng, st, b):
        return b in st.mon[1]

    def distinct(self, eng, st, a, b):
        """two nodes locked separately by this path are different nodes"""
        return a in st.mon[0] and b in st.mon[0]

    # subclasses
    def pre(self, eng, st, ins, kind, **kw):
        return None

    def post(self, eng, st, ins, kind, **kw):
        return None

    def on_lock(self, eng, st, ins, n, args):
        pass

    def on_unlock(self, eng, st, ins, n):
        pass

    def on_descent(self, eng, st, ins, n, v):
        """n is a leaf just found without locking, v its stable version"""

    def on_publish(self, eng, st, ins, v, addr):
        pass

    def setx(self, st, x):
        st.mon = st.mon[:3] + (x,)

    def event(self, eng, st, ins, kind, **kw):
        r = self.pre(eng, st, ins, kind, **kw)
        if r is not None:
            return r
        if kind == "call":
            q = kw["q"]
            m = nv(q)
            if m in ("lock", "unlock", "try_lock", "assign_version"):
                n = kw["args"][0]
                if rootof(n).k != "al":
                    r = getattr(self, "ev_" + m)(eng, st, ins, n, kw)
                    if r is not None:
                        return r
            elif q in ("threadinfo::pool_allocate", "threadinfo::allocate"):
                l, p, e, x = st.mon
                v = rootof(kw["val"])
                st.nn.add(v)
                st.mon = (l, p | {v}, e, x)
            elif q in ("Masstree::node_base::reach_leaf", "Masstree::leaf::advance_to_key"):
                a = kw["args"]
                v = mk("sym", ("ver",) + ins.key, 0, "v")
                if eng.tracked(a[2]):
                    eng.store(st, a[2], v, 4)
                    st.nn.add(kw["val"])
                    self.on_descent(eng, st, ins, kw["val"], v)
            elif q == "threadinfo::rcu_register":
                self.publish(eng, st, ins, rootof(kw["args"][1]), None)
        elif kind == "store":
            self.escape(eng, st, ins, kw["addr"], kw["val"])
        elif kind == "cmpxchg":
            self.escape(eng, st, ins, kw["addr"], kw["new"])
        return self.post(eng, st, ins, kind, **kw)

    def escape(self, eng, st, ins, addr, val):
        v = rootof(val)
        l, p, e, x = st.mon
        if v in p:
            r = rootof(addr)
            if label(addr).endswith(".parent_") and (r in l or v in l):
                # only followed by threads that lock r first: reachable once r is released
                if v not in l:
                    st.mon = (l, p, e | {(r, v)}, x)
                return
            if r.k == "al" or r is v:
                return
            if r in p:
                st.mon = (l, p, e | {(r, v)}, x)
            else:
                self.publish(eng, st, ins, v, addr)

    def publish(self, eng, st, ins, v, addr):
        l, p, e, x = st.mon
        if v not in p:
            return
        todo = [v]
        gone = set()
        while todo:
            y = todo.pop()
            if y in gone:
                continue
            gone.add(y)
            todo += [b for a, b in e if a is y]
        self.on_publish(eng, st, ins, frozenset(gone), addr)
        l, p, e, x = st.mon
        st.mon = (l, p - gone, frozenset(z for z in e if z[0] not in gone and z[1] not in gone), x)

    def ev_lock(self, eng, st, ins, n, kw):
        l = st.mon[0]
        eng.count("lock acquisitions", ins)
        if n in l:
            return self.double(eng, st, ins, n)
        for h in l:
            c = cmp_("eq", 64, h, n)
            if not isc(c):
                eng.assume(st, c, False)
        st.mon = (st.mon[0] | {n},) + st.mon[1:]
        return self.on_lock(eng, st, ins, n, kw["args"])

    def double(self, eng, st, ins, n):
        return False

    def notheld(self, eng, st, ins, n):
        return False

    def ev_unlock(self, eng, st, ins, n, kw):
        eng.count("lock releases", ins)
        if n not in st.mon[0]:
            return self.notheld(eng, st, ins, n)
        self.on_unlock(eng, st, ins, n)
        st.mon = (st.mon[0] - {n},) + st.mon[1:]
        for a, b in sorted(st.mon[2], key=lambda z: z[1].n):
            if a is n and n not in st.mon[1]:
                self.publish(eng, st, ins, b, None)
        return None

    def ev_try_lock(self, eng, st, ins, n, kw):
        eng.count("lock acquisitions", ins)
        r = kw["val"]
        s2 = st.copy()
        out = []
        try:
            n1 = n
            for h in st.mon[0]:
                c = cmp_("eq", 64, h, n1)
                if not isc(c):
                    eng.assume(st, c, False)
            eng.assume(st, r, True)
            st.mon = (st.mon[0] | {n1},) + st.mon[1:]
            if self.on_lock(eng, st, ins, n1, kw["args"]) is None:
                out.append(st)
        except Infeasible:
            pass
        try:
            eng.assume(s2, r, False)
            out.append(s2)
        except Infeasible:
            pass
        return out

    def ev_assign_version(self, eng, st, ins, n, kw):
        src = st.org.get(kw["args"][1])
        eng.count("locked-version copies", ins)
        if src is not None and rootof(src) in st.mon[0] and src is rootof(src):
            st.mon = (st.mon[0] | {n},) + st.mon[1:]
            return self.on_lock(eng, st, ins, n, kw["args"])
        return None

    def merge(self, eng, st, ins):
        l, p, e, x = st.mon
        dead = frozenset(t for t in p if orphan(t))
        if dead:
            e = frozenset(z for z in e if z[0] not in dead and z[1] not in dead)
            p = p - dead
        x2 = self.trim(x)
        if dead or x2 != x:
            st.mon = (l, p, e, x2)
        return None

    def trim(self, x):
        """drop facts about objects nothing refers to any more"""
        if x.__class__ is frozenset:
            return frozenset(z for z in x if not (z.__class__ is tuple and any(y.__class__ is T and orphan(y) for y in z)))
        return x

    # facts of x that may be joined: those in `may` by union, others by intersection
    keyed = None
    may = ()

    def gmon(self, m):
        if self.keyed is None:
            return m
        return m[:3] + (frozenset(z for z in m[3] if z[0] in self.keyed),)

    def joinmon(self, a, b):
        x, y = a[3], b[3]
        return a[:3] + (frozenset(z for z in x | y if z[0] in self.may or z in x and z in y),)

    def weaker(self, a, b):
        if self.keyed is None or self.gmon(a) != self.gmon(b):
            return False
        x, y = a[3], b[3]
        return all(z in x for z in y if z[0] in self.may) and all(z in y for z in x if z[0] not in self.may)

    def shared(self, st, n):
        """n is reachable by other threads"""
        return n not in st.mon[1] and n.k != "al"


class LockMon(TreeMon):
    """every node lock taken is released on every way out, once"""
    def double(self, eng, st, ins, n):
        eng.report("double-lock", ins, "locks %s, which this path already holds: it waits for itself" % show(n), st)
        return False

    def notheld(self, eng, st, ins, n):
        eng.report("unlock-not-held", ins, "unlocks %s but holds only {%s}" % (show(n), ", ".join(map(show, st.mon[0]))), st)
        return False

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call" and kw["q"] in ("threadinfo::pool_allocate", "threadinfo::allocate"):
            return None     # privacy is irrelevant here
        if kind == "ret":
            eng.count("exits", ins)
            for n in st.mon[0]:
                eng.report("lock-leak", ins, "returns with %s still locked" % show(n), st)
        return super().event(eng, st, ins, kind, **kw)

    def merge(self, eng, st, ins):
        for n in st.mon[0]:
            if orphan(n):
                at = st.trail[0] if st.trail else ins
                eng.report("lock-leak", at, "no live value refers to a locked node any more: it is never unlocked", st)
                return False
        return None


class OwnMon(TreeMon):
    """shared tree nodes are written only by the thread that holds their lock"""
    EXEMPT = {"next_", "prev_", "parent_"}

    def writable(self, st, n):
        return n in st.mon[0] or n in st.mon[1] or n.k == "al"

    def pre(self, eng, st, ins, kind, **kw):
        if kind in ("store", "mem"):
            addr = kw["addr"] if kind == "store" else kw["dst"]
            f = nodefield(addr)
            if f is None:
                return None
            n, fld = f
            if n.k == "al":
                return None
            if fld.startswith("parent_"):
                eng.count("parent link writes", ins)
                if self.writable(st, n) or self.childof(st, n):
                    return None
                eng.report("unlocked-parent-write", ins, "sets the parent of %s, which is neither locked here, nor private, nor a child of a node locked here" % show(n), st)
                return False
            if fld.split("/")[0] in ("next_", "prev_"):
                return None
            eng.count("node field writes", ins)
            if not self.writable(st, n):
                eng.report("unlocked-write", ins, "writes %s of %s without holding its lock" % (fld, show(n)), st)
                return False
        elif kind == "call":
            m = nv(kw["q"])
            if m and m.startswith("mark_"):
                n = kw["args"][0]
                eng.count("node state marks", ins)
                if rootof(n).k != "al" and not self.writable(st, n):
                    eng.report("unlocked-mark", ins, "%s on %s without holding its lock" % (m, show(n)), st)
                    return False
        return None

    def childof(self, st, n):
        o = st.org.get(n)
        if o is None:
            return False
        f = nodefield(o)
        return bool(f and f[1].startswith("child_") and self.writable(st, f[0]))


class ValMon(TreeMon):
    """what was read before locking a node is re-validated before the node is changed.
    x holds: ('u',n) locked, not validated; ('st',n,v) v = stable version of n;
    ('rd',n) n read since that; ('stale',n); ('hc',r,n,v) r = has_changed(n,v);
    ('p0',n,s)/('p1',n,s) permutation read before/after locking; ('vok',n) version
    unchanged; ('pok',n) permutation unchanged; ('ir',r,n) r = is_root(n);
    ('pa',s,c) s = parent of c read after locking"""

    may = ("rd", "stale")
    keyed = ("u", "vok", "pok", "hc", "st", "p0", "p1", "stale")

    def on_lock(self, eng, st, ins, n, args):
        l, p, e, x = st.mon
        if n in p:
            return
        o = st.org.get(n)
        f = nodefield(o) if o is not None else None
        if f and f[1].startswith("child_") and f[0] in l and f[0] is not n:
            return      # child of a node locked here
        self.setx(st, x | {("u", n)})

    def on_descent(self, eng, st, ins, n, v):
        eng.count("lock-free descents", ins)
        self.stable(st, n, v)

    def stable(self, st, n, v):
        x = st.mon[3]
        y = {z for z in x if not (z[0] in ("st", "rd") and z[1] is n)}
        if ("rd", n) in x:
            y.add(("stale", n))
        y.add(("st", n, v))
        self.setx(st, frozenset(y))

    def on_unlock(self, eng, st, ins, n):
        x = st.mon[3]
        self.setx(st, frozenset(z for z in x if not (z[0] in ("u", "p1", "vok", "pok", "pa") and z[1] is n or z[0] == "hc" and z[2] is n)))

    def ok(self, st, n):
        x = st.mon[3]
        if ("vok", n) in x and ("pok", n) in x:
            x = frozenset(z for z in x if not (z[0] in ("u", "vok", "pok") and z[1] is n))
            self.setx(st, x)

    def done(self, st, n):
        self.setx(st, frozenset(z for z in st.mon[3] if not (z[0] in ("u", "vok", "pok") and z[1] is n)))

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "call":
            q = kw["q"]
            m = nv(q)
            if m in ("stable", "stable_annotated"):
                n = kw["args"][0]
                if rootof(n).k == "al":
                    return None
                self.stable(st, n, kw["val"])
            elif m == "has_changed":
                n, v = kw["args"][0], kw["args"][1]
                if n in st.mon[0] and rootof(n).k != "al":
                    self.setx(st, x | {("hc", kw["val"], n, v)})
            elif m == "is_root":
                n = kw["args"][0]
                # (a parent can be the root of the tree without being this node's parent)
                if ("u", n) in x and not any(z[0] == "pa" and z[2] is n for z in x):
                    self.setx(st, x | {("ir", kw["val"], n)})
            elif m and m.startswith("mark_"):
                return self.change(eng, st, ins, kw["args"][0], m)
            elif m == "assign_version":
                return None
            else:
                for a in kw["args"]:
                    self.readby(st, a)
        elif kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                n, fld = f
                if fld.startswith("permutation_"):
                    y = {z for z in x if z != ("stale", n)}
                    y.add(("rd", n))
                    if n in st.mon[0]:
                        y.add(("p1", n, kw["val"]))
                    else:
                        y = {z for z in y if not (z[0] == "p0" and z[1] is n)}
                        y.add(("p0", n, kw["val"]))
                    self.setx(st, frozenset(y))
                elif fld.startswith("parent_"):
                    if n in st.mon[0]:
                        self.setx(st, x | {("pa", n, kw["val"])})
                elif fld.startswith("child_"):
                    # an inner node: positions in it are never kept across its lock
                    self.setx(st, frozenset(z for z in x if not (z[0] in ("st", "rd", "stale") and z[1] is n)))
                elif fld.startswith(("ikey0_", "keylenx_", "lv_")):
                    self.readby(st, n)
        elif kind in ("store", "mem"):
            f = nodefield(kw["addr"] if kind == "store" else kw["dst"])
            if f:
                return self.change(eng, st, ins, f[0], "a write to " + f[1].split("/")[0])
        return None

    def readby(self, st, a):
        n = rootof(a)
        x = st.mon[3]
        if any(z[0] == "st" and z[1] is n for z in x) and ("rd", n) not in x:
            self.setx(st, x | {("rd", n)})

    def change(self, eng, st, ins, n, what):
        n = rootof(n)
        if n.k == "al" or not self.shared(st, n):
            return None
        eng.count("node changes", ins)
        if ("u", n) in st.mon[3]:
            x = st.mon[3]
            why = "its version is not re-checked" if ("vok", n) not in x else "its permutation is not re-checked"
            eng.report("stale-position", ins, "%s of %s after locking it, but %s since it was read without the lock" % (what, show(n), why), st)
            return False
        return None

    def assume(self, eng, st, c, val):
        x = st.mon[3]
        if c.k == "sym":
            for z in x:
                if z[0] == "hc" and z[1] is c and not val:
                    n, v = z[2], z[3]
                    if any(y[0] == "st" and y[1] is n and y[2] is v for y in x) and ("stale", n) not in x:
                        eng.count("version re-checks", self.at(eng))
                        self.setx(st, st.mon[3] | {("vok", n)})
                        self.ok(st, n)
                elif z[0] == "ir" and z[1] is c and val:
                    eng.count("root re-checks", self.at(eng))
                    self.done(st, z[2])
        elif c.k == "eq" and val:
            a, b = c.a[1], c.a[2]
            for s, t in ((a, b), (b, a)):
                for z in x:
                    if z[0] == "p1" and z[2] is s and ("p0", z[1], t) in x:
                        eng.count("permutation re-checks", self.at(eng))
                        self.setx(st, st.mon[3] | {("pok", z[1])})
                        self.ok(st, z[1])
                    elif z[0] == "pa" and z[2] is s and ("u", t) in x and t in st.mon[0]:
                        eng.count("parent re-checks", self.at(eng))
                        self.done(st, t)
        return None

    @staticmethod
    def at(eng):
        return eng.cur

    def trim(self, x):
        y = super().trim(x)
        return frozenset(z for z in y if not (z[0] in ("hc", "ir") and z[1].k == "c"))


class MarkMon(TreeMon):
    """lock-free readers are told about every change they could not otherwise see:
    the node is marked as being changed (so that its version moves) before it is
    changed.  x holds ('d',n,kind) marked since locked; ('ms',n,t) modification state
    of n; ('lk',n) a new right sibling of leaf n is linked; ('mv',n) entries of n were
    copied to a new node; ('b',n) n is leftmost or the key equals its bound;
    ('po',a,op) operation applied to the local permutation a; ('mf',n) moved out
    leaf entries; ('fin',n) n was marked deleted/split before release; ('rm',n) an entry of n was
    removed; ('kid',c,n) c is a child of n; ('by',n) a layer link now leads to n's child"""

    may = ("lk", "mv", "po", "mf", "rm", "by", "kid")
    keyed = ("d", "ms", "lk", "b")

    PERM = re.compile(r"kpermuter::(remove|remove_to_back|set_size|insert_from_back|insert_selected|exchange|rotate)")

    def on_unlock(self, eng, st, ins, n):
        x = st.mon[3]
        r = rootof(n)
        for k, what in (("mv", "an inner node whose entries were copied to a new sibling"), ("lk", "a leaf that got a new right sibling")):
            if (k, r) in x:
                eng.count("splits completed", ins)
                if ("d", r, "s") not in x and self.shared(st, r):
                    eng.report("split-not-marked", ins, "releases %s without marking it as split: readers that descended to it do not look right" % what, st)
        if ("rm", r) in x and ("fin", r) not in x and self.ms(eng, st, r) != 1 and self.shared(st, r):
            eng.report("removal-not-recorded", ins, "releases %s after removing an entry without leaving it in the removing state: the next insertion can reuse the slot unannounced" % show(r), st)
        if ("by", r) in x and ("d", r, "s") not in x:
            eng.report("bypass-not-marked", ins, "releases inner node %s, which its layer no longer leads to, without marking it: readers in it do not notice what happens below" % show(r), st)
        self.setx(st, frozenset(z for z in x if not (z[0] in ("d", "ms", "lk", "mv", "b", "mf", "rm", "by") and z[1] is r or z[0] == "kid" and z[2] is r)))

    def dirty(self, st, n):
        x = st.mon[3]
        return ("d", n, "i") in x or ("d", n, "s") in x

    def ms(self, eng, st, n):
        """0: known insert state, 1: known other, None"""
        for z in st.mon[3]:
            if z[0] == "ms" and z[1] is n:
                v = eng.truth(st, cmp_("eq", 8, z[2], FALSE))
                if v is not None:
                    return 0 if v else 1
        return None

    def add(self, st, *f):
        self.setx(st, st.mon[3] | set(f))

    def ev_assign_version(self, eng, st, ins, n, kw):
        r = super().ev_assign_version(eng, st, ins, n, kw)
        # the copied version carries the source's marks
        src = st.org.get(kw["args"][1])
        if src is not None and n in st.mon[0]:
            s = rootof(src)
            self.add(st, *[("d", n, z[2]) for z in st.mon[3] if z[0] == "d" and z[1] is s])
        return r

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "call":
            q = kw["q"]
            m = nv(q)
            if m and m.startswith("mark_"):
                n = rootof(kw["args"][0])
                if n.k == "al":
                    return None
                eng.count("change marks", ins)
                if m == "mark_insert":
                    self.add(st, ("d", n, "i"))
                elif m in ("mark_split", "mark_deleted"):
                    self.add(st, ("d", n, "s"), ("fin", n))
                elif m == "mark_change":
                    self.add(st, ("d", n, "i"))
            elif self.PERM.fullmatch(q):
                a = rootof(kw["args"][0])
                self.add(st, ("po", a, q.split("::")[1]))
        elif kind == "load":
            f = nodefield(kw["addr"])
            if f and f[1].startswith("modstate_"):
                self.setx(st, frozenset(z for z in x if not (z[0] == "ms" and z[1] is f[0])) | {("ms", f[0], kw["val"])})
            elif f and f[1].startswith("child_") and f[0] in st.mon[0]:
                self.add(st, ("kid", kw["val"], f[0]))
        elif kind == "store":
            return self.write(eng, st, ins, kw["addr"], kw["val"])
        elif kind == "mem":
            return self.copy(eng, st, ins, kw)
        return None

    def copy(self, eng, st, ins, kw):
        s, d = nodefield(kw["src"]), nodefield(kw["dst"])
        x = st.mon[3]
        if s and d and s[0] is not d[0] and self.isinner(kw["src"]) and self.shared(st, s[0]) and not self.shared(st, d[0]):
            self.add(st, ("mv", s[0]))
        if d and self.isinner(kw["dst"]) and d[0].k != "al" and self.shared(st, d[0]):
            eng.count("inner node changes", ins)
            if not self.dirty(st, d[0]):
                eng.report("unmarked-change", ins, "shifts entries of inner node %s, which is not marked as changing: readers keep using its old version" % show(d[0]), st)
                return False
        return None

    @staticmethod
    def isinner(a):
        return any(l.startswith("Masstree::internode.") for l in labels(a)[:2])

    def write(self, eng, st, ins, addr, val):
        r = rootof(addr)
        x = st.mon[3]
        if r.k == "al":
            if not labels(addr)[1:] and (not labels(addr) or labels(addr)[0].startswith("kpermuter.")):
                y = frozenset(z for z in x if not (z[0] == "po" and z[1] is r))
                if y != x:
                    self.setx(st, y)
            return None
        f = nodefield(addr)
        if not f:
            return None
        n, fld = f
        fld = fld.split("/")[0]
        if not self.shared(st, n):
            return None
        if self.isinner(addr):
            if fld not in ("child_", "nkeys_"):
                return None
            eng.count("inner node changes", ins)
            if not self.dirty(st, n):
                eng.report("unmarked-change", ins, "changes %s of inner node %s, which is not marked as changing: readers keep using its old version" % (fld, show(n)), st)
                return False
            if fld == "nkeys_" and ("mv", n) in x and ("d", n, "s") not in x:
                eng.report("split-not-marked", ins, "shrinks inner node %s after copying entries to a new sibling, but it is not marked as split" % show(n), st)
                return False
            return None
        if fld == "modstate_":
            eng.count("modification-state changes", ins)
            if not (isc(val) and val.a[0] == 2) and not self.dirty(st, n) and n in st.mon[0]:
                eng.report("unmarked-state-change", ins, "switches %s between inserting and removing without marking it as changing: a reader can pair a slot's old key with its new value" % show(n), st)
                return False
            y = {("ms", n, val)}
            if isc(val) and val.a[0] == 2:
                y.add(("fin", n))
            self.setx(st, frozenset(z for z in x if not (z[0] == "ms" and z[1] is n)) | y)
        elif fld in ("ikey0_", "keylenx_"):
            eng.count("leaf slot writes", ins)
            if isc(val) and val.a[0] == -128 and fld == "keylenx_":
                if ("d", n, "i") not in x and ("d", n, "s") not in x:
                    eng.report("unmarked-layer", ins, "turns a slot of %s into a subtree link without marking it as changing: a reader can take the subtree for a value" % show(n), st)
                    return False
                return None
            if self.dirty(st, n):
                return None
            if self.ms(eng, st, n) != 0:
                eng.report("unmarked-slot-reuse", ins, "writes a slot of %s, which may be in the removing state, without marking it as changing: a reader of the removed entry sees the new key" % show(n), st)
                return False
            if fld == "ikey0_":
                c = cmp_("eq", 64, addr.a[1], FALSE) if addr.k == "idx" else TRUE if addr.k == "ptr" else None
                if c is not None and eng.truth(st, c) is not False and ("b", n) not in x:
                    eng.report("bound-overwritten", ins, "may overwrite slot 0 of %s, which holds the leaf's lower bound, though the leaf has a left sibling" % show(n), st)
                    return False
        elif fld == "lv_":
            v = rootof(val)
            self.add(st, *[("by", z[2]) for z in x if z[0] == "kid" and z[1] is v])
            if v in st.mon[1] and self.isnode(st, v):
                eng.count("subtree links", ins)
                if not self.dirty(st, n):
                    eng.report("unmarked-layer", ins, "stores a subtree into a slot of %s that still holds a value, without marking it as changing: a reader can take the subtree for a value" % show(n), st)
                    return False
        elif fld == "permutation_":
            eng.count("permutation updates", ins)
            o = st.org.get(val)
            ops = {z[2] for z in x if z[0] == "po" and o is not None and z[1] is rootof(o)}
            if ops & {"remove", "remove_to_back"} and n in st.mon[0]:
                self.add(st, ("rm", n))
            if ops & {"remove", "remove_to_back"} and not self.dirty(st, n) and self.ms(eng, st, n) == 0:
                eng.report("unmarked-remove", ins, "removes an entry from %s while it is in the inserting state: the slot can be reused without readers noticing" % show(n), st)
                return False
            if ops & {"remove", "remove_to_back"} and not self.dirty(st, n) and self.ms(eng, st, n) is None:
                eng.report("unmarked-remove", ins, "removes an entry from %s without looking at its modification state" % show(n), st)
                return False
            if ("lk", n) in x and ("d", n, "s") not in x:
                eng.report("split-not-marked", ins, "takes moved entries out of %s before marking it as split: readers there miss them" % show(n), st)
                return False
            if "set_size" in ops and ("lk", n) not in x:
                eng.report("strip-before-link", ins, "takes moved entries out of %s before its new right sibling is linked: they are unreachable meanwhile" % show(n), st)
                return False
        elif fld == "next_":
            v = rootof(val)
            if n in st.mon[0] and v is not n and v.k != "c" and self.newleaf(st, v):
                eng.count("right siblings linked", ins)
                self.add(st, ("lk", n))
        return None

    def newleaf(self, st, v):
        return v in self.wasprivate or self.isnode(st, v)

    def merge(self, eng, st, ins):
        x = st.mon[3]
        y = set()
        for z in x:
            if z[0] == "ms" and not isc(z[2]):
                v = eng.truth(st, cmp_("eq", 8, z[2], FALSE))
                z = None if v is None and orphan(z[2]) else z if v is None else (z[0], z[1], FALSE if v else TRUE)
            if z:
                y.add(z)
        y = frozenset(y)
        if y != x:
            self.setx(st, y)
        return super().merge(eng, st, ins)

    def isnode(self, st, v):
        return any(z[0] == "nd" and z[1] is v for z in st.mon[3])

    def event(self, eng, st, ins, kind, **kw):
        self.wasprivate = st.mon[1]
        r = super().event(eng, st, ins, kind, **kw)
        if kind == "call" and kw["q"] == "threadinfo::pool_allocate":
            self.add(st, ("nd", rootof(kw["val"])))
        return r

    def assume(self, eng, st, c, val):
        if c.k == "eq" and val:
            a, b = c.a[1], c.a[2]
            for s, t in ((a, b), (b, a)):
                o = st.org.get(s)
                if o is None:
                    continue
                f = nodefield(o)
                if f and f[0] in st.mon[0]:
                    if f[1].startswith("prev_") and isc(t) and t.a[0] == 0:
                        self.add(st, ("b", f[0]))
                    elif f[1].startswith("ikey0_") and o.k == "ptr":
                        self.add(st, ("b", f[0]))
        return None


class PubMon(TreeMon):
    """what a lock-free reader can reach is complete first: the stores that fill a
    slot or a new node are ordered before the store that makes it reachable.
    x holds ('w',o) o has stores not yet ordered; ('d',n) n marked as changing"""

    may = ("w",)
    keyed = ("d",)
    SLOT = ("ikey0_", "keylenx_", "lv_", "iksuf_")
    ORDER = ("lock", "unlock", "try_lock", "mark_insert", "mark_split", "mark_deleted", "mark_deleted_tree", "mark_root", "mark_nonroot",
             "mark_change", "has_changed", "has_split", "stable", "stable_annotated")

    def order(self, st):
        x = st.mon[3]
        if any(z[0] == "w" for z in x):
            self.setx(st, frozenset(z for z in x if z[0] != "w"))

    def on_unlock(self, eng, st, ins, n):
        self.setx(st, frozenset(z for z in st.mon[3] if not (z[0] == "d" and z[1] is rootof(n))))

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            q = kw["q"]
            m = nv(q)
            if m and m.startswith("mark_") and m in ("mark_insert", "mark_split", "mark_deleted", "mark_change"):
                n = rootof(kw["args"][0])
                if n.k != "al":
                    self.setx(st, st.mon[3] | {("d", n)})
            if q in FENCES or m in self.ORDER and rootof(kw["args"][0]).k != "al":
                self.order(st)
            if q in ("stringbag::assign", "stringbag::stringbag"):
                n = rootof(kw["args"][0])
                if n.k != "al":
                    self.setx(st, st.mon[3] | {("w", n)})
        elif kind in ("fence", "asm"):
            self.order(st)
        elif kind == "cmpxchg":
            self.order(st)
        r = None
        if kind in ("store", "mem"):
            r = self.write(eng, st, ins, kw["addr"] if kind == "store" else kw["dst"], kw.get("val"))
            if r is False:
                return False
        r = super().event(eng, st, ins, kind, **kw)
        if kind == "call" and nv(kw["q"]) == "assign_version":
            src = st.org.get(kw["args"][1])
            if src is not None and ("d", rootof(src)) in st.mon[3]:
                self.setx(st, st.mon[3] | {("d", kw["args"][0])})
        return r

    def write(self, eng, st, ins, addr, val):
        n = rootof(addr)
        if n.k in ("al", "g"):
            return None
        f = nodefield(addr)
        x = st.mon[3]
        if f and self.shared(st, n):
            fld = f[1].split("/")[0]
            if fld == "permutation_":
                eng.count("slot publications", ins)
                if ("w", n) in x and ("d", n) not in x:
                    eng.report("publish-before-write", ins, "stores the permutation of %s while stores that fill its slots may still be reordered after it: a reader can find a slot that is not filled" % show(n), st)
                    return False
                return None
            if fld.startswith(self.SLOT):
                self.setx(st, x | {("w", n)})
            return None
        if not self.shared(st, n) and not (f and f[1].startswith(("next_", "prev_"))):
            self.setx(st, x | {("w", n)})
        return None

    def on_publish(self, eng, st, ins, gone, addr):
        if addr is None:
            return
        eng.count("node publications", ins)
        n = rootof(addr)
        f = nodefield(addr)
        if ("d", n) in st.mon[3] or f is None:
            return
        for g in gone:
            if ("w", g) in st.mon[3]:
                eng.report("publish-before-write", ins, "makes a new object reachable through %s of %s while the stores that fill it may still be reordered after it" % (f[1].split("/")[0], show(n)), st)
                return
