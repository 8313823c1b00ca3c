"""More rules over the tree-update code: removal marks, reclamation of nodes."""
from tree import *


LAYER_GONE = 2      # leaf::modstate_deleted_layer


def isleafaddr(a):
    return any(l.startswith("Masstree::leaf.") for l in labels(a)[:2])


class PhantomMon(TreeMon):
    """the removal mark of a leaf covers every key the leaf is responsible for: it is
    inherited by leaves split off or layered below it, and passed on to the leaf that
    takes over when a leaf goes away.
    x: ('ph',v,n) v was read from the mark of n, n locked or private; ('pc',v,p) likewise,
    p unlocked; ('ih',g) new leaf g got the mark of a locked leaf; ('lf',g) g is a new leaf;
    ('le',n) n is a leaf; ('del',n,how) n was marked deleted since it was locked;
    ('lt',v,n) v < mark of n; ('ge',n,p) mark of p >= mark of n; ('pv',v,n) v was read from
    prev_ of n after ge; ('cx',r,n,p) r tells whether p got the mark of n; ('done',n) the
    left neighbour of n, or the leaf above, has a mark >= that of n; ('un',n) the list no longer leads to n"""
    keyed = ("del", "done", "ge", "ih", "lf")
    may = ("un",)

    def add(self, st, *f):
        self.setx(st, st.mon[3] | set(f))

    def on_unlock(self, eng, st, ins, n):
        x = st.mon[3]
        n = rootof(n)
        for z in x:
            if z[0] == "del" and z[1] is n and (("le", n) in x or "layer" in z[2]):
                eng.count("leaves taken out", ins)
                if ("done", n) not in x:
                    eng.report("mark-not-passed-on", ins, "a leaf is %s and released, but the leaf that takes over its keys has not got its removal mark: a later insert can be dated before the removal" % z[2], st)
        self.setx(st, frozenset(z for z in x if not (z[0] in ("del", "done", "ge", "le") and z[1] is n or z[0] in ("ph", "lt") and z[2] is n)))

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                n, fld = f
                if isleafaddr(kw["addr"]) and not fld.startswith("parent_") and n in st.mon[0]:
                    self.add(st, ("le", n))
                if fld.startswith("phantom_epoch_"):
                    own = n in st.mon[0] or n in st.mon[1]
                    self.add(st, ("ph" if own else "pc", kw["val"], n))
                elif fld.startswith("prev_") and n in st.mon[0] and ("un", n) not in x:
                    if any(z[0] == "ge" and z[1] is n for z in x):
                        self.add(st, ("pv", kw["val"], n))
        elif kind == "store":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                return self.write(eng, st, ins, f[0], f[1].split("/")[0], kw["val"])
        elif kind == "cmpxchg":
            f = nodefield(kw["addr"])
            if f and f[1].startswith("phantom_epoch_"):
                return self.pass_on(eng, st, ins, f[0], kw["new"], kw["exp"], kw["old"])
        elif kind == "call":
            m = nv(kw["q"])
            if m == "mark_deleted":
                n = rootof(kw["args"][0])
                if n in st.mon[0]:
                    self.add(st, ("del", n, "removed"))
        return None

    def write(self, eng, st, ins, n, fld, v):
        x = st.mon[3]
        if fld == "prev_":
            o = st.org.get(v)
            f = nodefield(o) if o is not None else None
            if f and f[0] is not n and f[0] in st.mon[0] and f[1].startswith("prev_"):
                self.add(st, ("un", f[0]))
        if fld == "modstate_" and n in st.mon[1]:
            self.add(st, ("lf", n))
        elif fld == "modstate_" and isc(v) and v.a[0] == LAYER_GONE and n in st.mon[0]:
            self.add(st, ("del", n, "cleaned up with its layer"))
        elif fld == "phantom_epoch_":
            src = [z for z in x if z[0] in ("ph", "pc") and z[1] is v]
            if n in st.mon[1]:
                for z in src:
                    if z[0] == "ph" and (z[2] in st.mon[0] or ("ih", z[2]) in x):
                        self.add(st, ("ih", n))
            elif src and not any(z[2] is n for z in src):
                return self.pass_on(eng, st, ins, n, v, None, None)
        return None

    def pass_on(self, eng, st, ins, p, new, exp, res):
        """mark of p := mark of another leaf"""
        x = st.mon[3]
        eng.count("removal marks passed on", ins)
        srcs = [z[2] for z in x if z[0] == "ph" and z[1] is new and z[2] is not p]
        olds = [exp] if exp is not None else [z[1] for z in x if z[0] == "ph" and z[2] is p]
        if not any(("lt", o, s) in x for o in olds for s in srcs):
            eng.report("mark-lowered", ins, "replaces the removal mark of %s by one that has not been found to be later" % show(p), st)
            return False
        for s in srcs:
            if exp is None:
                self.ge(st, s, p)
            else:
                self.add(st, ("cx", res, s, p))      # may fail; known when tested
        return None

    def ge(self, st, s, p):
        self.add(st, ("ge", s, p))
        if p in st.mon[0] and s in st.mon[0]:
            self.add(st, ("done", s))

    def on_publish(self, eng, st, ins, gone, addr):
        x = st.mon[3]
        for g in gone:
            if ("lf", g) in x:
                eng.count("new leaves published", ins)
                if ("ih", g) not in x:
                    eng.report("mark-not-inherited", ins, "a new leaf becomes reachable without the removal mark of the leaf whose keys it takes over: a later insert can be dated before a removal", st)
                    return

    def assume(self, eng, st, c, val):
        x = st.mon[3]
        if c.k == "xv" and c.a[1] == (1,) and val:
            for z in x:
                if z[0] == "cx" and z[1] is c.a[0]:
                    self.ge(st, z[2], z[3])
        elif c.k == "slt" and c.a[0] == 64:
            a, b = c.a[1], c.a[2]
            if a.k == "sub" and isc(b) and b.a[0] == 0:
                self.order(st, a.a[1], a.a[2], val, not val)
            elif b.k == "sub" and isc(a) and a.a[0] == 0:
                self.order(st, b.a[2], b.a[1], val, not val)
        elif c.k == "eq" and val:
            a, b = c.a[1], c.a[2]
            for s, t in ((a, b), (b, a)):
                for z in x:
                    if z[0] == "pv" and z[1] is s and ("ge", z[2], t) in x:
                        eng.count("left neighbours re-checked", eng.cur)
                        self.add(st, ("done", z[2]))
        return None

    def order(self, st, a, b, lt, ge):
        """a < b (lt) or a >= b (ge), as marks"""
        x = st.mon[3]
        A = [z[2] for z in x if z[0] in ("ph", "pc") and z[1] is a]
        B = [z[2] for z in x if z[0] in ("ph", "pc") and z[1] is b]
        if lt:
            self.add(st, *[("lt", a, n) for n in B if n in st.mon[0]])
            for n in A:
                for m in B:
                    if n in st.mon[0] and n is not m:
                        self.ge(st, n, m)
        if ge:
            for n in A:
                for m in B:
                    if m in st.mon[0] and n is not m:
                        self.ge(st, m, n)


class LinkMon(TreeMon):
    """the list of leaves stays linked both ways while leaves are split and removed.
    A link A->E is owned by who marks it: next_ of A goes from E to E+1.
    x: ('cx',r,A,E) r tells whether A->E was marked; ('mk',A,E) marked by this thread;
    ('nl',v,A) v was read from next_ of A; ('pw',X,v) prev_ of X := v; ('nw',X,v) next_ of
    new leaf X := v; ('rdy',v,A) new leaf v is complete and its right neighbour leads back to
    it, so A may lead to it; ('en',n) n has no right neighbour; ('lf',n) n is a leaf;
    ('dl',n) leaf n marked deleted; ('ul',n) n was taken out of the list"""
    keyed = ("mk", "dl", "ul", "pw", "nw", "en", "rdy")

    def add(self, st, *f):
        self.setx(st, st.mon[3] | set(f))

    def drop(self, st, p):
        self.setx(st, frozenset(z for z in st.mon[3] if not p(z)))

    def trim(self, x):
        # the mark on a link outlives the last use of the node it leads to
        k = {("mk", z[1], None) for z in x if z[0] == "mk" and z[2] is not None and orphan(z[2]) and not orphan(z[1])}
        return super().trim(x) | frozenset(k)

    def ready(self, eng, st):
        """which new leaves may now be linked in"""
        x = st.mon[3]
        for z in x:
            if z[0] == "pw" and z[1] in st.mon[1]:
                v, n = z[1], z[2]
                for y in x:
                    if y[0] == "nw" and y[1] is v:
                        m = self.owned(st, n)
                        if m is not None and m[2] is y[2] and (self.null(eng, st, y[2]) or ("pw", y[2], v) in x) \
                                or self.endof(eng, st, n) and self.null(eng, st, y[2]):
                            self.add(st, ("rdy", v, n))

    def null(self, eng, st, v):
        return eng.truth(st, cmp_("eq", 64, v, NULL)) is True

    def endof(self, eng, st, n):
        """n is locked and was found to have no right neighbour"""
        return n in st.mon[0] and any(z[0] == "nl" and z[2] is n and self.null(eng, st, z[1]) for z in st.mon[3]) or ("en", n) in st.mon[3]

    def owned(self, st, n):
        for z in st.mon[3]:
            if z[0] == "mk" and z[1] is n:
                return z
        return None

    def on_unlock(self, eng, st, ins, n):
        x = st.mon[3]
        n = rootof(n)
        if ("dl", n) in x:
            eng.count("removed leaves released", ins)
            if ("ul", n) not in x:
                eng.report("not-unlinked", ins, "a removed leaf is released while it is still linked in the leaf list: scans keep visiting it", st)
        elif self.owned(st, n) is not None:
            eng.report("link-left-marked", ins, "releases %s with its right link still marked: nobody can ever split or unlink there again" % show(n), st)
        self.drop(st, lambda z: z[0] in ("dl", "ul", "mk", "en", "nl") and z[1 if z[0] != "nl" else 2] is n)

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al" and f[1].startswith("next_") and f[0] in st.mon[0]:
                self.drop(st, lambda z: z[0] == "nl" and z[2] is f[0])
                self.add(st, ("nl", kw["val"], f[0]))
        elif kind == "cmpxchg":
            f = nodefield(kw["addr"])
            if f and f[1].startswith("next_"):
                return self.mark(eng, st, ins, f[0], kw["exp"], kw["new"], kw["old"])
        elif kind == "store":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                fld = f[1].split("/")[0]
                if fld == "prev_":
                    return self.prev(eng, st, ins, f[0], kw["val"])
                if fld == "next_":
                    return self.next(eng, st, ins, f[0], kw["val"])
        elif kind == "call":
            if nv(kw["q"]) == "mark_deleted":
                n = rootof(kw["args"][0])
                if n in st.mon[0] and any(z[0] == "lf" and z[1] is n for z in x):
                    self.add(st, ("dl", n))
        elif kind == "ret":
            for z in x:
                if z[0] == "mk" and ("ul", z[1]) not in x:
                    eng.report("link-left-marked", ins, "returns with the right link of %s still marked: nobody can ever split or unlink there again" % show(z[1]), st)
        return None

    def on_descent(self, eng, st, ins, n, v):
        self.add(st, ("lf", n))

    def mark(self, eng, st, ins, a, exp, new, res):
        eng.count("links marked", ins)
        if not (new.k == "ptr" and new.a[0] is rootof(new) and new.a[0] is exp and new.a[1] == 1):
            eng.report("link-changed", ins, "exchanges the right link of %s for something other than its marked form" % show(a), st)
            return False
        e = rootof(exp)
        if e in st.mon[0] and e is not a and e not in st.mon[1]:
            if self.owned(st, e) is None and not self.endof(eng, st, e):
                eng.report("link-order", ins, "takes the link to %s before the link from it: two neighbours removed at once lose one of the links" % show(e), st)
                return False
        self.add(st, ("cx", res, a, e))
        return None

    def prev(self, eng, st, ins, n, v):
        x = st.mon[3]
        if n not in st.mon[1]:
            eng.count("left links changed", ins)
            if not any(z[0] == "mk" and z[2] is n for z in x):
                eng.report("link-not-owned", ins, "sets the left link of %s without owning the link that leads to it" % show(n), st)
                return False
        self.drop(st, lambda z: z[0] == "pw" and z[1] is n or z[0] == "rdy" and z[1] is n)
        self.add(st, ("pw", n, rootof(v)))
        self.ready(eng, st)
        return None

    def next(self, eng, st, ins, n, v):
        x = st.mon[3]
        if n in st.mon[1]:
            self.drop(st, lambda z: z[0] in ("nw", "rdy") and z[1] is n)
            self.add(st, ("nw", n, v))
            self.ready(eng, st)
            return None
        eng.count("right links changed", ins)
        m = self.owned(st, n)
        if m is None and not self.endof(eng, st, n):
            eng.report("link-not-owned", ins, "sets the right link of %s without having marked it first: a concurrent split or removal of the neighbour is undone" % show(n), st)
            return False
        old = m[2] if m is not None else None       # None: there was none
        if v in st.mon[1]:
            # a new leaf between n and old
            if ("pw", v, n) not in x:
                eng.report("new-leaf-unlinked", ins, "links a new leaf whose left link does not lead back to %s" % show(n), st)
                return False
            if ("rdy", v, n) not in x:
                eng.report("new-leaf-unlinked", ins, "links a new leaf after %s before it leads on to, and is led back to by, the leaf that followed: the rest of the list, or the new leaf, is lost" % show(n), st)
                return False
            eng.count("leaves inserted in the list", ins)
        elif old is not None:
            # old is taken out
            mo = self.owned(st, old)
            if old not in st.mon[0]:
                eng.report("unlink-not-locked", ins, "takes %s out of the leaf list without holding its lock" % show(old), st)
                return False
            ok = mo[2] is v if mo is not None else self.endof(eng, st, old) and self.null(eng, st, v)
            if not ok:
                eng.report("unlink-wrong-neighbour", ins, "takes %s out of the leaf list but leads on to something other than its (marked) right neighbour" % show(old), st)
                return False
            if mo is not None and not self.null(eng, st, v) and ("pw", v, n) not in x:
                eng.report("stale-left-link", ins, "takes a leaf out of the list before its right neighbour leads back past it: reverse scans and removals follow a dead link", st)
                return False
            eng.count("leaves taken out of the list", ins)
            self.add(st, ("ul", old))
        self.drop(st, lambda z: z[0] == "mk" and z[1] is n)
        return None

    def assume(self, eng, st, c, val):
        x = st.mon[3]
        if c.k == "xv" and c.a[1] == (1,) and val:
            for z in x:
                if z[0] == "cx" and z[1] is c.a[0]:
                    self.add(st, ("mk", z[2], z[3]))
                    self.ready(eng, st)
        elif c.k == "eq" and val:
            a, b = c.a[1], c.a[2]
            for s, t in ((a, b), (b, a)):
                if isc(t) and t.a[0] == 0:
                    for z in x:
                        if z[0] == "nl" and z[1] is s and z[2] in st.mon[0]:
                            self.add(st, ("en", z[2]))
                            self.ready(eng, st)
        return None


class ReclaimMon(TreeMon):
    """a node taken out of the tree is reclaimed exactly once, deferred, after it was marked
    so that nobody keeps using it, and nothing in the tree leads to it any more.
    x: ('del',n) n was marked deleted; ('dly',n) n was marked as an emptied layer; ('ret',n)
    n was handed to deferred reclamation; ('off',n) the parent's link to n was replaced while
    n was locked; ('rp',n) the lifted node n points to its replacement; ('lv',n) the slot
    that led to n was overwritten; ('pend',) the slot of an emptied layer is still there;
    ('ord',v,n) v is the order word of n, ('cnt',v,n) the number of its entries, ('em',n) it has none;
    ('sfx',v,A,n) v was read from the suffix link A of n; ('sfo',n) the suffix link of n was
    overwritten since; ('sfr',n) the suffix bag of n was released but n still refers to it"""
    keyed = ("del", "dly", "ret", "off", "rp", "lv", "pend", "sfr", "em")

    def add(self, st, *f):
        self.setx(st, st.mon[3] | set(f))

    def assume(self, eng, st, c, val):
        if c.k == "eq" and isc(c.a[2]) and c.a[2].a[0] == 0 and val:
            t = c.a[1]
            while t.k in ("zext", "sext", "trunc"):
                t = t.a[0]
            self.add(st, *[("em", z[2]) for z in st.mon[3] if z[0] == "cnt" and z[1] in (t, c.a[1])])
        return None

    def has(self, st, k, n):
        return (k, n) in st.mon[3]

    def on_unlock(self, eng, st, ins, n):
        x = st.mon[3]
        n = rootof(n)
        if ("del", n) in x and ("off", n) not in x and self.shared(st, n):
            eng.count("removed nodes released", ins)
            eng.report("still-linked", ins, "releases a node that was removed and handed to reclamation while its parent may still lead to it", st)
        elif ("del", n) in x:
            eng.count("removed nodes released", ins)
        if ("pend",) in x and ("dly", n) not in x:
            eng.report("still-linked", ins, "an emptied layer was handed to reclamation but the slot that leads to it stays in the leaf", st)
        if ("sfr", n) in x:
            eng.report("still-linked", ins, "a suffix bag was handed to reclamation but the leaf still refers to it", st)
        self.setx(st, frozenset(z for z in x if not (z[0] in ("off", "sfr", "sfo", "sfx", "em", "cnt", "ord") and n in z)))

    def retire(self, eng, st, ins, n):
        x = st.mon[3]
        eng.count("nodes handed to reclamation", ins)
        if ("ret", n) in x:
            eng.report("reclaimed-twice", ins, "hands %s to reclamation a second time" % show(n), st)
            return False
        if n in st.mon[1] or n.k == "al":
            return None
        if ("del", n) in x or ("dly", n) in x:
            pass
        elif ("rp", n) in x and ("lv", n) in x:
            pass
        elif ("rp", n) in x:
            eng.report("still-linked", ins, "hands the former root of a layer to reclamation though the slot that led to it was not changed", st)
            return False
        else:
            eng.report("reclaimed-live", ins, "hands %s to reclamation, which was neither marked deleted nor replaced: operations that wait for it, or come back to it, keep using it" % show(n), st)
            return False
        self.add(st, ("ret", n))
        return None

    def leak(self, eng, st, ins, dead):
        x = st.mon[3]
        for z in x:
            if z[0] in ("del", "dly") and ("ret", z[1]) not in x and (dead is None or z[1] in dead):
                eng.report("not-reclaimed", ins, "a node is taken out of the tree but never handed to reclamation: its memory is lost", st)
                return

    def merge(self, eng, st, ins):
        x = st.mon[3]
        dead = frozenset(z[1] for z in x if z[0] in ("del", "dly") and orphan(z[1]))
        if dead:
            self.leak(eng, st, st.trail[0] if st.trail else ins, dead)
        return super().merge(eng, st, ins)

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "call":
            q = kw["q"]
            m = nv(q)
            a = kw["args"]
            if m == "mark_deleted":
                n = rootof(a[0])
                if n.k != "al":
                    self.add(st, ("del", n))
                    if ("em", n) not in x and n not in st.mon[1]:
                        eng.report("removed-nonempty", ins, "removes %s without having seen, under its lock, that it holds no entry any more" % show(n), st)
                        return False
            elif q == "kpermuter::size":
                c = st.cells.get(baseoff(a[0])) if rootof(a[0]).k == "al" else None
                if c:
                    self.add(st, *[("cnt", kw["val"], z[2]) for z in x if z[0] == "ord" and z[1] is c[0]])
                elif nodefield(a[0]) and rootof(a[0]) in st.mon[0]:
                    self.add(st, ("cnt", kw["val"], rootof(a[0])))
            elif q == "threadinfo::pool_deallocate_rcu":
                return self.retire(eng, st, ins, a[1])
            elif q in ("threadinfo::pool_deallocate", "threadinfo::deallocate", "threadinfo::deallocate_rcu"):
                return self.free(eng, st, ins, a[1], q)
        elif kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                fld = f[1].split("/")[0]
                if fld == "ksuf_":
                    self.add(st, ("sfx", kw["val"], kw["addr"], f[0]))
                elif fld in ("nkeys_", "permutation_") and f[0] in st.mon[0]:
                    self.add(st, ("cnt" if fld == "nkeys_" else "ord", kw["val"], f[0]))
        elif kind == "store":
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                return self.write(eng, st, ins, f[0], f[1].split("/")[0], kw["val"], kw["addr"])
        elif kind == "mem":
            f = nodefield(kw["dst"])
            if f and f[1].startswith("child_"):
                return self.write(eng, st, ins, f[0], "child_", None, kw["dst"])
        elif kind == "ret":
            eng.count("exits", ins)
            self.leak(eng, st, ins, None)
        return None

    def free(self, eng, st, ins, v, q):
        """anything but deferred reclamation of a node"""
        x = st.mon[3]
        r = rootof(v)
        for z in x:
            if z[0] == "sfx" and z[1] is r:
                eng.count("suffix bags released", ins)
                n = z[3]
                if n in st.mon[1]:
                    return None
                if q != "threadinfo::deallocate_rcu":
                    eng.report("freed-at-once", ins, "frees the suffix bag of %s at once: lock-free readers may be comparing against it" % show(n), st)
                    return False
                if not (any(y[0] == "sfo" and y[1] is n for y in x) or ("del", n) in x or ("dly", n) in x):
                    self.add(st, ("sfr", n))
                return None
        if q == "threadinfo::pool_deallocate" and r not in st.mon[1]:
            eng.report("freed-at-once", ins, "frees %s at once although other threads could reach it" % show(r), st)
            return False
        return None

    def write(self, eng, st, ins, n, fld, v, addr):
        x = st.mon[3]
        if fld in ("permutation_", "nkeys_"):
            x = frozenset(z for z in x if not (z[0] == "em" and z[1] is n or z[0] in ("ord", "cnt") and z[2] is n))
            self.setx(st, x)
            if v is not None and n in st.mon[0]:
                self.add(st, ("ord" if fld == "permutation_" else "cnt", v, n))
            x = st.mon[3]
        if v is not None and fld in ("child_", "lv_", "next_", "prev_", "parent_"):
            r = rootof(v)
            if ("ret", r) in x and ("ret", n) not in x and n not in st.mon[1]:
                eng.report("relinked", ins, "makes %s lead to a node that was handed to reclamation" % show(n), st)
                return False
        if fld == "child_" and n in st.mon[0]:
            g = [("off", z[1]) for z in x if z[0] == "del" and z[1] in st.mon[0] and z[1] is not n and (v is None or rootof(v) is not z[1])]
            if g:
                eng.count("parent links replaced", ins)
                self.add(st, *g)
        elif fld == "parent_" and n in st.mon[0] and v is not None:
            o = st.org.get(v)
            f = nodefield(o) if o is not None else None
            if f and f[0] is n and f[1].startswith("child_"):
                eng.count("layer roots replaced", ins)
                self.add(st, ("rp", n))
        elif fld == "lv_" and n in st.mon[0]:
            self.add(st, *[("lv", m) for m in st.mon[0] if m is not n and v is not None and m is not rootof(v)])
        elif fld == "modstate_" and isc(v) and v.a[0] == LAYER_GONE:
            self.add(st, ("dly", n), ("pend",))
        elif fld == "permutation_" and n in st.mon[0]:
            if ("dly", n) not in x:
                self.setx(st, x - {("pend",)})
        elif fld == "ksuf_":
            self.setx(st, frozenset(z for z in st.mon[3] if not (z[0] == "sfr" and z[1] is n)) | {("sfo", n)})
        return None
