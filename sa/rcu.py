"""Rules over the RCU core: epochs, limbo lists, deferred reclamation."""
import os
from engine import *
from readers import field
from bounds import lin, ladd, const
from serve import Facts

TUS = ["mtd.cc", "kvthread.cc"]
SPEC_CLEAN = r"""
root threadinfo::hard_rcu_quiesce
keep threadinfo::free_rcu
erase threadinfo::mark
"""
SPEC_REC = r"""
root threadinfo::(pool_)?deallocate_rcu
root threadinfo::rcu_register
keep threadinfo::refill_rcu
erase threadinfo::mark
"""
SPEC_SECT = r"""
root threadinfo::rcu_start
root threadinfo::rcu_stop
root threadinfo::rcu_quiesce
root threadinfo::min_active_epoch
keep threadinfo::hard_rcu_quiesce
"""
AE = "active_epoch"
GE = "globalepoch"


def gname(a):
    """name of the global an address designates"""
    r = baseoff(a)[0]
    while r.k == "idx":
        r = r.a[0]
    return r.a[0] if r.k == "g" else None


def same(x, y):
    return not {k: v for k, v in ladd(lin(x), lin(y), -1).items() if v}


def elem(addr, o_e, esz):
    """(group, index form, offset in the element) of an address inside e_[]"""
    b, o = baseoff(addr)
    ix = {"": 0}
    while b.k == "idx":
        if b.a[2] % esz:
            return None
        ix = ladd(ix, lin(b.a[1]), b.a[2] // esz)
        o2 = 0
        b, o2 = baseoff(b.a[0])
        o += o2
    if o < o_e:
        return None
    ix[""] += (o - o_e) // esz
    return b, ix, (o - o_e) % esz


class Limbo(Facts):
    def offs(self, eng):
        pr = eng.fn.prog
        self.g = {k: field(pr, "limbo_group", k) for k in ("head_", "tail_", "epoch_", "next_", "e_")}
        self.t = {k: field(pr, "threadinfo", k) for k in ("limbo_head_", "limbo_tail_", "gc_epoch_", "perform_gc_epoch_", "next_")}
        s = pr.structs.get("limbo_group::limbo_element")
        if None in self.g.values() or None in self.t.values() or s is None:
            raise LookupError("members of the limbo list not found")
        self.esz = s["size"]
        self.eu = field(pr, "limbo_group::limbo_element", "u_")
        self.gsz = pr.structs["limbo_group"]["size"]
        self.cap = (self.gsz - self.g["e_"]) // self.esz

    def elem(self, a):
        if not any(l.startswith("limbo_group.e_") for l in labels(a)):
            return None
        return elem(a, self.g["e_"], self.esz)

    def gfield(self, a):
        """(group, member) for an address of a plain member of a limbo group"""
        b, o = baseoff(a)
        if b.k != "sym" or b.a[2] != "p":
            return None
        for k, v in self.g.items():
            if v == o and k != "e_":
                return b, k
        return None

    def tfield(self, eng, a):
        b, o = baseoff(a)
        if b is baseoff(eng.argt[0])[0]:
            for k, v in self.t.items():
                if v == o:
                    return k
        return None

    def cell(self, st, b, k, offs):
        c = st.cells.get(baseoff(ptr(b, offs[k])))
        return c[0] if c else None


class CleanMon(Limbo):
    """freed: only objects recorded in an epoch before the active one; each object of the
    limbo list is freed once and none is dropped"""
    pure = (r"threadinfo::free_rcu",)
    width = 8
    owns = ""

    def init(self, eng, st):
        self.offs(eng)
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            if gname(a) == AE:
                eng.count("active epoch read", ins)
                self.put(st, "ae", v)
                return None
            e = self.elem(a)
            if e:
                g, ix, o = e
                if o == self.eu and self.get(st, "pass", g):
                    self.drop(st, "ok")
                    self.put(st, "cur", g, v)
        elif kind == "store":
            return self.st(eng, st, ins, kw["addr"], kw["val"], kw["old"])
        elif kind == "call" and kw["q"].endswith("::free_rcu"):
            return self.free(eng, st, ins, kw["args"])
        elif kind == "ret":
            if self.get(st, "freed"):
                eng.report("freed-kept", ins, "an object just freed stays in the limbo list (it is freed again later)", st)
            if not self.get(st, "ae"):
                eng.report("no-epoch", ins, "reclamation decides without reading the active epoch", st)
            if self.get(st, "newmk"):
                eng.report("mark-epoch", ins, "a freed slot becomes an epoch mark without an epoch", st)
            if self.get(st, "adv"):
                eng.report("unmarked", ins, "the objects left in a limbo group are not preceded by their epoch mark", st)
            if self.get(st, "lost"):
                eng.report("groups-lost", ins, "the limbo groups after the tail are no longer linked to the list", st)
            eng.count("exits", ins)
        return None

    def epochok(self, st, c, v):
        """cond c == v implies: active epoch - current mark >= 1 (as signed difference)"""
        ae, cur = self.get(st, "ae"), self.get(st, "cur")
        if not ae or not cur or c.k != "slt":
            return False
        x, y = lin(c.a[1]), lin(c.a[2])
        # not (x < y): x - y >= 0 ; x < y: y - x - 1 >= 0
        f = ladd(x, y, -1) if not v else ladd(y, x, -1)
        if v:
            f[""] -= 1
        k = const(ladd(ladd(f, lin(ae[1]), -1), lin(cur[2]), 1))      # f - (ae - cur)
        return k is not None and k <= -1

    def free(self, eng, st, ins, args):
        eng.count("objects freed", ins)
        this, p, tag = args[0], args[1], args[2]
        while tag.k in ("trunc", "zext"):
            tag = tag.a[0]
        ao, to = st.org.get(p), st.org.get(tag)
        e = self.elem(ao) if ao is not None else None
        if not e or e[2] != 0:
            eng.report("free-what", ins, "an object not taken from the limbo list is freed: %s" % show(p), st)
            return None
        f = self.elem(to) if to is not None else None
        if not f or f[0] is not e[0] or f[1] != e[1] or f[2] != self.eu:
            eng.report("free-tag", ins, "an object is freed with a tag that is not its own", st)
        c = self.get(st, "cur", e[0])
        # the first element of a group is an epoch mark (kept by what follows)
        if not c:
            h = self.cell(st, e[0], "head_", self.g)
            raise Infeasible()
        if not self.get(st, "ok"):
            eng.report("free-early", ins, "an object is freed although its epoch is not known to lie before the active epoch", st)
        if self.get(st, "freed"):
            eng.report("freed-kept", ins, "an object just freed stays in the limbo list (it is freed again later)", st)
        self.put(st, "freed", e[0], frozenset(e[1].items()))
        # a callback may record more objects
        for k in list(st.cells):
            if k[0].k == "sym" and k[1] in (self.g["tail_"], self.g["epoch_"], self.g["next_"]) or k[0].k == "idx" or k[0] is eng.argt[0] and k[1] == self.t["limbo_tail_"]:
                del st.cells[k]
        return None

    def st(self, eng, st, ins, a, v, old):
        e = self.elem(a)
        if e:
            g, ix, o = e
            fr = self.get(st, "freed", g)
            if o == 0:
                if v is NULL or isc(v) and v.a[0] == 0:
                    if not fr or fr[2] != frozenset(ix.items()):
                        eng.report("dropped", ins, "an object in the limbo list is forgotten without being freed", st)
                    self.drop(st, "freed")
                    self.put(st, "newmk", g, fr[2] if fr else None)
                    eng.count("freed slots turned into epoch marks", ins)
                else:
                    eng.report("limbo-store", ins, "reclamation overwrites an object in the limbo list", st)
            elif o == self.eu:
                m, c = self.get(st, "newmk", g), self.get(st, "cur", g)
                if not m or m[2] != frozenset(ix.items()):
                    eng.report("limbo-store", ins, "reclamation overwrites an element of the limbo list", st)
                elif not c or not same(v, c[2]):
                    eng.report("mark-epoch", ins, "the objects left in the group get an epoch mark other than their own", st)
                else:
                    self.drop(st, "newmk", "adv")
            return None
        gf = self.gfield(a)
        if gf:
            g, k = gf
            if k == "head_":
                return self.head(eng, st, ins, g, old, v)
            if k == "tail_":
                if not (isc(v) and v.a[0] == 0 and self.reset(eng, st, g, k, old)):
                    eng.report("dropped", ins, "objects in the limbo list are forgotten without being freed", st)
                return None
            if k == "next_":
                t = self.cell(st, eng.argt[0], "limbo_tail_", self.t)
                if t is not None and g is t:
                    if not any(z[0] == "nx" and z[1] is g for z in st.mon):
                        self.put(st, "lost", g)
                    eng.count("limbo groups relinked", ins)
                else:
                    ad = st.org.get(v)
                    x = self.gfield(ad) if ad is not None else None
                    if x and x[1] == "next_":
                        self.put(st, "nx", x[0])
                return None
        if self.tfield(eng, a) == "limbo_head_":
            if old is not None and v is not old:
                h, t = self.cell(st, old, "head_", self.g), self.cell(st, old, "tail_", self.g)
                nx = self.cell(st, old, "next_", self.g)
                emp = h is not None and t is not None and (h is t or eng.truth(st, cmp_("eq", 32, h, t)) is True)
                self.drop(st, "cur", "ok", "pass", "rst")
                if not emp:
                    eng.report("dropped", ins, "the list moves past a limbo group that still holds objects", st)
        return None

    def reset(self, eng, st, g, k, old):
        """an empty group may be reset to the start"""
        if self.get(st, "rst", g):
            self.drop(st, "rst")
            return True
        h = old if k == "head_" else self.cell(st, g, "head_", self.g)
        t = old if k == "tail_" else self.cell(st, g, "tail_", self.g)
        if h is not None and t is not None and (h is t or eng.truth(st, cmp_("eq", 32, h, t)) is True):
            self.put(st, "rst", g)
            self.drop(st, "adv")
            return True
        return False

    def head(self, eng, st, ins, g, old, v):
        if self.get(st, "newmk", g):
            eng.report("mark-epoch", ins, "a freed slot becomes an epoch mark without an epoch", st)
            self.drop(st, "newmk")
        fr = self.get(st, "freed", g)
        if isc(v) and v.a[0] == 0:
            if not self.reset(eng, st, g, "head_", old):
                eng.report("dropped", ins, "a limbo group that still holds objects is reset", st)
            return None
        if old is None or const(ladd(lin(v), lin(old), -1)) != 1:
            eng.report("dropped", ins, "the limbo list advances by something other than one element", st)
        elif fr:
            if dict(fr[2]) != {k: x for k, x in lin(old).items() if x or k == ""}:
                eng.report("dropped", ins, "the limbo list advances past an element other than the one freed", st)
        else:
            # passing an epoch mark: its object pointer is null
            pa = ptr(idxp(ptr(g, self.g["e_"]), old, self.esz), 0)
            ok = False
            for val, ad in st.org.items():
                e = self.elem(ad)
                if e and e[0] is g and e[2] == 0 and const(ladd(e[1], lin(old), -1)) == 0:
                    ok = ok or val is NULL or eng.truth(st, cmp_("eq", 64, val, NULL)) is True
            c = self.get(st, "pass", g)
            if not ok and not c:
                eng.report("dropped", ins, "an object in the limbo list is skipped without being freed", st)
        self.drop(st, "freed")
        self.put(st, "adv", g)
        eng.count("limbo elements passed", ins)
        return None

    def assume(self, eng, st, cond, val):
        if self.epochok(st, cond, val):
            self.put(st, "ok")
            eng.count("epoch comparisons", eng.cur)
        # object pointer of the current element found null: an epoch mark
        if cond.k == "eq" and val:
            for x, y in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
                ad = st.org.get(x)
                if (y is NULL or isc(y) and y.a[0] == 0) and ad is not None:
                    e = self.elem(ad)
                    if e and e[2] == 0:
                        self.put(st, "pass", e[0])
                        self.drop(st, "adv")
        if cond.k == "eq" and not val:
            self.drop(st, "pass")


class RecordMon(Limbo):
    """an object handed to deferred reclamation is recorded once, as itself, behind a mark
    with the current epoch, in a group with room for it"""
    pure = (r"threadinfo::mark",)
    width = 8
    owns = ""
    aborts = True

    def init(self, eng, st):
        self.offs(eng)
        self.obj = eng.argt[1]
        return frozenset()

    def eq(self, eng, st, x, y, b=32):
        return x is not None and y is not None and (x is y or same(x, y) or eng.truth(st, cmp_("eq", b, x, y)) is True)

    def ne(self, eng, st, x, y, b=64):
        return x is not None and y is not None and eng.truth(st, cmp_("eq", b, x, y)) is False

    def cellany(self, eng, st, g, k):
        return self.cell(st, g, k, self.g)

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            if gname(kw["addr"]) == GE:
                self.put(st, "ge", kw["val"])
            t = self.tfield(eng, kw["addr"])
            if t == "limbo_tail_":
                self.put(st, "grp", kw["val"])
        elif kind == "call" and kw["q"].endswith("refill_rcu"):
            # the fresh group is empty (decided for refill_rcu by its own assertion and the cleaner)
            if self.get(st, "elt"):
                eng.report("lost", ins, "the group is changed while an object is being recorded", st)
            self.put(st, "room")
            self.drop(st, "grp")
            eng.havoc(st, eng.argt[0])
        elif kind == "store":
            return self.st(eng, st, ins, kw["addr"], kw["val"], kw["old"])
        elif kind == "ret":
            return self.ret(eng, st, ins)
        elif kind == "abort" and self.get(st, "grp") and not self.get(st, "room"):
            eng.report("room", ins, "the limbo group may have no room for the object and its epoch mark", st)
        return None

    def assume(self, eng, st, cond, val):
        # tail_ + 2 <= capacity
        g = self.get(st, "grp")
        if g and cond.k in ("ult", "slt"):
            t = self.cell(st, g[1], "tail_", self.g)
            if t is None:
                return
            x, y = lin(cond.a[1]), lin(cond.a[2])
            f = ladd(x, y, -1) if not val else ladd(y, x, -1)
            if val:
                f[""] -= 1
            # f >= 0; want  cap - 2 - tail >= 0
            k = const(ladd(f, lin(t), 1))
            if k is not None and k <= self.cap - 2:
                self.put(st, "room")
                eng.count("room checks", eng.cur)

    def st(self, eng, st, ins, a, v, old):
        e = self.elem(a)
        if e:
            g, ix, o = e
            if not self.get(st, "room"):
                eng.report("room", ins, "an object is recorded in a limbo group not known to have room for it and its epoch mark", st)
            t0 = self.cell(st, g, "tail_", self.g)
            z = self.get(st, "t0", g)
            if not z:
                if t0 is None:
                    eng.report("where", ins, "an object is recorded at an unknown place", st)
                    return None
                self.put(st, "t0", g, t0)
                z = self.get(st, "t0", g)
            i = const(ladd(ix, lin(z[2]), -1))
            if i not in (0, 1):
                eng.report("where", ins, "an object is not recorded at the end of the limbo group", st)
                return None
            if o == 0:
                self.add(st, "p", i, v)
            elif o == self.eu:
                self.add(st, "u", i, v)
            return None
        b, o = baseoff(a)
        if b.k == "sym" and o == self.g["epoch_"] and b.a[2] == "p":
            self.put(st, "ep", v)
        return None

    def ret(self, eng, st, ins):
        eng.count("exits", ins)
        p = {z[1]: z[2] for z in st.mon if z[0] == "p"}
        u_ = {z[1]: z[2] for z in st.mon if z[0] == "u"}
        t0 = self.get(st, "t0")
        if not t0 or not p:
            eng.report("lost", ins, "the object is not recorded for reclamation", st)
            return None
        g = t0[1]
        tl = self.cell(st, g, "tail_", self.g)
        n = const(ladd(lin(tl), lin(t0[2]), -1)) if tl is not None else None
        if n is None or set(p) != set(range(n)) or set(u_) != set(p):
            eng.report("lost", ins, "the limbo group's length does not match what was recorded", st)
            return None
        last = n - 1
        if p[last] is not self.obj:
            eng.report("lost", ins, "something other than the released object is recorded", st)
        eng.count("objects recorded", ins)
        if last == 1:
            ge = self.get(st, "ge")
            ep = self.get(st, "ep")
            if not (p[0] is NULL or isc(p[0]) and p[0].a[0] == 0):
                eng.report("mark", ins, "two objects are recorded for one release", st)
            elif not ge or not same(u_[0], ge[1]):
                eng.report("mark", ins, "the epoch mark is not the current global epoch", st)
            elif not ep or not same(ep[1], ge[1]):
                eng.report("mark", ins, "the group's current epoch differs from the mark just recorded", st)
            eng.count("epoch marks recorded", ins)
        else:
            h, t = self.cell(st, g, "head_", self.g), t0[2]
            ge, ep = self.get(st, "ge"), self.cell(st, g, "epoch_", self.g)
            if not self.ne(eng, st, h, t, 32) or not ge or ep is None or not (self.eq(eng, st, ep, ge[1], 64)):
                eng.report("mark", ins, "an object is recorded without an epoch mark although the group is empty or its last mark is of another epoch", st)
            else:
                eng.count("recorded under an existing mark", ins)
        # tag as passed (plus the size class for pool memory)
        return None


class SectMon(Limbo):
    """read sections publish the epoch they started in and clear it when they end"""
    pure = (r"threadinfo::hard_rcu_quiesce",)

    def init(self, eng, st):
        self.offs(eng)
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load" and gname(kw["addr"]) == GE:
            self.put(st, "ge", kw["val"])
        elif kind == "ret":
            eng.count("exits", ins)
            k = eng.fn.q.split("::")[-1]
            c = self.cell(st, eng.argt[0], "gc_epoch_", self.t)
            ge = self.get(st, "ge")
            if k == "rcu_stop":
                if c is None or not (isc(c) and c.a[0] == 0):
                    eng.report("section-end", ins, "the section ends but the thread still counts as a reader", st)
                eng.count("sections ended", ins)
            else:
                if not ge or c is None or not (c is ge[1] or eng.truth(st, cmp_("eq", 64, c, ge[1])) is True):
                    eng.report("section-start", ins, "the section starts but the thread does not publish the current epoch", st)
                eng.count("sections started", ins)
        elif kind == "store":
            b, o = baseoff(kw["addr"])
            if b is eng.argt[0] and o == self.t["gc_epoch_"]:
                v = kw["val"]
                ge = self.get(st, "ge")
                if not (isc(v) and v.a[0] == 0 or ge and v is ge[1]):
                    eng.report("section-start", ins, "a thread publishes an epoch other than the current one", st)
                if isc(v) and v.a[0] == 0 and eng.fn.q.endswith("rcu_start"):
                    eng.report("section-start", ins, "a thread stops counting as a reader where a section starts", st)
        return None


class MinMon(Limbo):
    """the active epoch is at most the global epoch read first and every reader's epoch"""
    def init(self, eng, st):
        self.offs2(eng)
        return frozenset()

    def offs2(self, eng):
        pr = eng.fn.prog
        self.t = {k: field(pr, "threadinfo", k) for k in ("gc_epoch_", "next_")}
        if None in self.t.values():
            raise LookupError("threadinfo members not found")

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            n = gname(a)
            if n == GE:
                if self.get(st, "at"):
                    eng.report("min-late", ins, "the global epoch is read after readers were looked at", st)
                self.put(st, "ae", v)
                return None
            if n and "allthreads" in n:
                self.drop(st, "at")
                self.put(st, "nx", v)
                return None
            b, o = baseoff(a)
            at = self.get(st, "at")
            if o == self.t["gc_epoch_"] and self.get(st, "nx", b):
                self.pending(eng, st, ins)
                self.put(st, "at", b)
                self.drop(st, "nx")
                self.put(st, "te", v)
                eng.count("reader epochs looked at", ins)
            elif at and b is at[1] and o == self.t["gc_epoch_"]:
                self.put(st, "te", v)
            elif at and b is at[1] and o == self.t["next_"]:
                self.add(st, "nx", v)
        elif kind == "ret":
            self.pending(eng, st, ins)
            ae = self.get(st, "ae")
            if not ae or kw["val"] is not ae[1]:
                eng.report("min-value", ins, "the result is not the least of the global epoch and the readers' epochs", st)
            if not self.get(st, "end"):
                eng.report("min-all", ins, "not every thread's epoch is looked at", st)
            eng.count("exits", ins)
        return None

    def pending(self, eng, st, ins):
        if self.get(st, "te"):
            eng.report("min-value", ins, "a reader's epoch is not compared with the result", st)
            self.drop(st, "te")

    def assume(self, eng, st, cond, val):
        te, ae = self.get(st, "te"), self.get(st, "ae")
        if cond.k == "eq" and val:
            for x, y in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
                if y is NULL or isc(y) and y.a[0] == 0:
                    if self.get(st, "nx", x):
                        self.put(st, "end")
                    if te and x is te[1]:
                        self.drop(st, "te")
        if cond.k == "slt" and te and ae:
            x, y = lin(cond.a[1]), lin(cond.a[2])
            f = ladd(x, y, -1) if not val else ladd(y, x, -1)
            if val:
                f[""] -= 1
            k = const(ladd(ladd(f, lin(ae[1]), -1), lin(te[1]), 1))     # f = ae - te + k
            if k is not None and k <= 0:        # te <= ae
                self.put(st, "ae", te[1])
                self.drop(st, "te")
                return
            k = const(ladd(ladd(f, lin(te[1]), -1), lin(ae[1]), 1))
            if k is not None and k <= 0:        # ae <= te
                self.drop(st, "te")


SPEC_POOL = r"""
root threadinfo::(pool_allocate|pool_deallocate|free_rcu)
keep threadinfo::refill_pool
keep mrcu_callback::.*
keep threadinfo::use_pool
erase threadinfo::mark
"""


class PoolMon(Facts):
    """a block of pool memory is handed out once, and given back exactly once, to the pool
    of its own size class"""
    pure = (r"threadinfo::(use_pool|mark)",)

    def init(self, eng, st):
        pr = eng.fn.prog
        self.pool = field(pr, "threadinfo", "pool_")
        self.mask = pr.enum("memtag_pool_mask")
        if self.pool is None or self.mask is None:
            raise LookupError("threadinfo::pool_ or memtag_pool_mask not found")
        self.k = eng.fn.q.split("::")[-1]
        return frozenset()

    def slot(self, eng, a):
        """index form of pool_[...]"""
        b, o = baseoff(a)
        ix = {"": 0}
        while b.k == "idx":
            if b.a[2] != 8:
                return None
            ix = ladd(ix, lin(b.a[1]))
            b, o2 = baseoff(b.a[0])
            o += o2
        if b is not eng.argt[0] or not any(l.startswith("threadinfo.pool_") for l in labels(a)):
            return None
        ix[""] += (o - self.pool) // 8
        return frozenset(ladd(ix, {"": 0}).items())

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            s = self.slot(eng, kw["addr"])
            if s is not None:
                self.put(st, "hd", s, kw["val"])
        elif kind == "store":
            self.store(eng, st, ins, kw["addr"], kw["val"])
        elif kind == "call":
            k = kw["q"].split("::")[-1]
            if k == "free":
                eng.count("blocks freed", ins)
                if kw["args"][0] is not eng.argt[1]:
                    eng.report("pool-what", ins, "something other than the given block is freed", st)
                self.gave(eng, st, ins)
                if self.k == "free_rcu" and not self.get(st, "nopool"):
                    eng.report("pool-class", ins, "pool memory is given to free()", st)
            elif k == "refill_pool":
                self.drop(st, "hd")
        elif kind == "icall":
            eng.count("callbacks run", ins)
            self.gave(eng, st, ins)
            if not self.get(st, "cb"):
                eng.report("pool-class", ins, "a block is called as a callback although its tag does not say so", st)
        elif kind == "ret":
            eng.count("exits", ins)
            if self.k == "pool_allocate":
                z = self.get(st, "out")
                v = kw["val"]
                if not (z and z[1] is v) and not (v is NULL or isc(v) or eng.truth(st, cmp_("eq", 64, v, NULL)) is True):
                    eng.report("pool-what", ins, "a block is handed out but stays in its pool", st)
            elif not self.get(st, "gave"):
                eng.report("pool-lost", ins, "the block is not given back", st)
        return None

    def gave(self, eng, st, ins):
        if self.get(st, "gave"):
            eng.report("pool-twice", ins, "the block is given back twice", st)
        self.put(st, "gave")

    def store(self, eng, st, ins, a, v):
        s = self.slot(eng, a)
        hd = self.get(st, "hd")
        if s is None:
            b, o = baseoff(a)
            if b is eng.argt[1] and o == 0 and self.k != "pool_allocate":
                if hd and v is hd[2]:
                    self.put(st, "linked", hd[1])
                else:
                    eng.report("pool-link", ins, "the block's link is not the head of the pool", st)
            return
        if self.k == "pool_allocate":
            ad = st.org.get(v)
            if not hd or hd[1] != s or ad is None or baseoff(ad) != (hd[2], 0):
                eng.report("pool-link", ins, "the pool's new head is not the block after the one handed out", st)
            else:
                eng.count("blocks handed out", ins)
                self.put(st, "out", hd[2])
            return
        l = self.get(st, "linked")
        if v is not eng.argt[1] or not l or l[1] != s:
            eng.report("pool-link", ins, "the pool's new head is not the block given back, linked to the old head", st)
        self.gave(eng, st, ins)
        eng.count("blocks given back", ins)
        if self.k == "free_rcu":
            # index is (tag & mask) - 1
            d = {k: c for k, c in s if k != "" and c}
            c0 = dict(s).get("", 0)
            t = next(iter(d)) if len(d) == 1 else None
            if t is None or d[t] != 1 or c0 != -1 or t.k != "and" or not (t.a[1] is eng.argt[2] and isc(t.a[2]) and t.a[2].a[0] == self.mask):
                eng.report("pool-class", ins, "the block goes to a pool other than the one its tag names", st)
            if self.get(st, "cb") or self.get(st, "nopool"):
                eng.report("pool-class", ins, "a block that is not pool memory goes to a pool", st)

    def assume(self, eng, st, cond, val):
        if self.k != "free_rcu" or cond.k != "eq" or not val:
            return
        t = eng.argt[2]
        for x, y in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
            if isc(y) and x.k == "and" and x.a[1] is t and isc(x.a[2]) and x.a[2].a[0] == self.mask and y.a[0] == 0:
                self.put(st, "nopool")
            if x is t and isc(y) and y.a[0] & 0xffffffff == 0xffffffff:
                self.put(st, "cb")


PROBE = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "probes", "threadinfo.cc"), "kvthread.cc"]


def findings(eng, fn):
    return [{"rule": x.rule, "loc": x.loc, "fn": x.fn, "dem": fn.dem, "msg": x.msg, "trail": x.trail, "key": x.key} for x in eng.findings.values()]


def finding(fn, ins, rule, msg, key=None):
    return {"rule": rule, "loc": ins.loc if ins is not None else "%s:%s %s" % (fn.file, fn.line, fn.q), "fn": fn.q, "dem": fn.dem, "msg": msg, "trail": [], "key": key}


class SizeMon(RecordMon):
    """remembers the size class a pool operation uses"""
    def init(self, eng, st):
        self.k = eng.fn.q.split("::")[-1]
        self.pm = PoolMon()
        self.pm.init(eng, st)
        self.classes = set()
        self.site = None
        if self.k == "pool_deallocate_rcu":
            return RecordMon.init(self, eng, st)
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        if self.k == "pool_deallocate_rcu":
            if kind == "store":
                e = self.elem(kw["addr"])
                if e and e[2] == self.eu and any(eng.argt[3] in (t for t in lin(kw["val"])) for _ in (0,)):
                    self.classes.add(frozenset(ladd(lin(kw["val"]), lin(eng.argt[3]), -1).items()))
                    self.site = ins
        elif kind in ("load", "store"):
            s = self.pm.slot(eng, kw["addr"])
            if s is not None:
                d = dict(s)
                d[""] = d.get("", 0) + 1
                self.classes.add(frozenset(d.items()))
                self.site = ins

    def assume(self, eng, st, cond, val):
        pass


def evalform(form, arg, v):
    r = 0
    for t, c in form:
        if t == "":
            r += c
            continue
        x = evalterm(t, arg, v)
        if x is None:
            return None
        r += c * x
    return r


def evalterm(t, arg, v):
    """value of a term over one argument; None if it has other atoms"""
    if t is arg:
        return v
    if isc(t):
        return t.a[0]
    if t.k in ("zext", "sext", "trunc"):
        x = evalterm(t.a[0], arg, v)
        if x is None:
            return None
        sb, db = t.a[1], t.a[2]
        if t.k == "zext":
            return x & ((1 << sb) - 1)
        x &= (1 << min(sb, db)) - 1
        return x - (1 << min(sb, db)) if x >> (min(sb, db) - 1) & 1 else x
    if t.k == "ptr":
        x = evalterm(t.a[0], arg, v)
        return None if x is None else x + t.a[1]
    if t.k in BIN:
        x, y = evalterm(t.a[1], arg, v), evalterm(t.a[2], arg, v)
        if x is None or y is None:
            return None
        if t.k == "udiv" and y:
            return (x & ((1 << t.a[0]) - 1)) // (y & ((1 << t.a[0]) - 1))
        r = binop(t.k, t.a[0], C(x, t.a[0]), C(y, t.a[0]))
        return r.a[0] if isc(r) else None
    if t.k in ("eq", "ult", "slt"):
        x, y = evalterm(t.a[1], arg, v), evalterm(t.a[2], arg, v)
        if x is None or y is None:
            return None
        r = cmp_(t.k, t.a[0], C(x, t.a[0]), C(y, t.a[0]))
        return r.a[0] if isc(r) else None
    if t.k == "select":
        c = evalterm(t.a[0], arg, v)
        return None if c is None else evalterm(t.a[1] if c else t.a[2], arg, v)
    return None


def sizes(tier):
    """the size class a block returns to is the class it was taken from, for every size the pools hold"""
    import build
    import ir
    import engine
    path = build.export("poolsize", PROBE, SPEC_POOL + SPEC_REC)
    prog = ir.Program(path)
    maxn = prog.enum("pool_max_nlines")
    line = 64
    out = {"findings": [], "counts": {}}
    got = {}
    for k, f in enumerate(prog.raw):
        n = f["q"].split("::")[-1]
        if n in ("pool_allocate", "pool_deallocate", "pool_deallocate_rcu"):
            fn = prog.fn(k)
            m = SizeMon()
            e = engine.Engine(fn, m, width=8, maxtime=60)
            e.run()
            got[n] = (fn, m.site, m.classes, e.argt[1] if n == "pool_allocate" else e.argt[2])
    if set(got) != {"pool_allocate", "pool_deallocate", "pool_deallocate_rcu"}:
        raise LookupError("pool operations not found")
    top = (maxn or 20) * line
    vals = {}
    for n, (fn, site, cls, sz) in got.items():
        if not cls:
            raise LookupError("size class of %s not found" % n)
        out["counts"].setdefault("size class computations", []).append("%s:%d %s" % (fn.file, fn.line, fn.q))
        for c in cls:
            t = [evalform(c, sz, v) for v in range(1, top + 1)]
            if None in t:
                raise LookupError("size class of %s not understood: %s" % (n, [(show(a) if a else "", k) for a, k in c]))
            vals.setdefault(n, []).append(t)
    ref = vals["pool_allocate"][0]
    for n, ts in vals.items():
        for t in ts:
            for v in range(top):
                if t[v] != ref[v]:
                    out["findings"].append(finding(got[n][0], got[n][1], "pool-class", "a block of %d bytes is taken from size class %d but %s uses class %d" % (v + 1, ref[v], n, t[v]), key=n))
                    break
    for v in range(top):
        if ref[v] * line < v + 1 or ref[v] < 1:
            out["findings"].append(finding(got["pool_allocate"][0], got["pool_allocate"][1], "pool-class", "a block of %d bytes is taken from the pool of %d-byte blocks" % (v + 1, ref[v] * line), key="small"))
            break
    out["counts"]["sizes compared"] = ["%d sizes" % top]
    out["blocks"] = sum(len(g[0].blocks) for g in got.values())
    return out


class EpochMon(Facts):
    """the global epoch only grows; the active epoch is only ever the least reader epoch"""
    def init(self, eng, st):
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load" and gname(kw["addr"]) == GE:
            self.put(st, "ge", kw["val"])
        elif kind == "call" and kw["q"].endswith("::min_active_epoch"):
            self.put(st, "min", kw["val"])
        elif kind == "store":
            g = gname(kw["addr"])
            v = kw["val"]
            if g == GE:
                ge = self.get(st, "ge")
                d = const(ladd(lin(v), lin(ge[1]), -1)) if ge else None
                if d is None or not 0 < d < 1 << 20:
                    eng.report("epoch-back", ins, "the global epoch is set to something other than a later epoch", st)
                eng.count("global epoch updates", ins)
            elif g == AE:
                m = self.get(st, "min")
                if not m or m[1] is not v:
                    eng.report("active-epoch", ins, "the active epoch is set to something other than the least epoch a reader is in", st)
                eng.count("active epoch updates", ins)
        return None


EPOCHTUS = ["mtd.cc", "kvthread.cc", "log.cc", "checkpoint.cc", "query_masstree.cc", "file.cc", "misc.cc", "kvio.cc"]
def mentions(x, name):
    if isinstance(x, list):
        return len(x) >= 2 and x[0] == "g" and x[1] == name or any(mentions(y, name) for y in x)
    return False


def epochs(tier):
    """every function of the server that may change an epoch variable, or a thread's published epoch"""
    import re
    import build
    import ir
    import engine
    prog = ir.Program(build.export("allfns", EPOCHTUS, "root .*\nkeep .*\n"))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    cnt = out["counts"]
    roots = set()
    for k, f in enumerate(prog.raw):
        if f["q"].startswith("__cxx_global") or f["q"].startswith("_GLOBAL_"):
            continue
        for b in f["blocks"]:
            for x in b:
                for g in (GE, AE):
                    if any(mentions(a, g) for a in x.get("a", ())):
                        cnt.setdefault("uses of the epoch variables", set()).add("%s:%s %s" % (f.get("file"), f.get("line"), f["q"]))
                        if not (x["o"] == "load" or x["o"] == "call" and re.search(r"::(load|operator .*)$", x.get("q") or "")):
                            roots.add(f["q"])
    p2 = ir.Program(build.export("epochset", EPOCHTUS, "".join("root %s\n" % re.escape(r) for r in sorted(roots)) + "keep threadinfo::.*\n")) if roots else None
    for k, f in enumerate(p2.raw if p2 else ()):
        fn = p2.fn(k)
        e = engine.Engine(fn, EpochMon(), width=8, maxtime=100)
        e.run()
        out["findings"] += findings(e, fn)
        out["steps"] += e.steps
        out["blocks"] += len(fn.blocks)
        for c, s in e.counts.items():
            cnt.setdefault(c, set()).update(str(y) for y in s)
    cnt.update({c: sorted(s) for c, s in cnt.items()})
    return out


ALLOCTUS = EPOCHTUS + ["value_string.cc", "value_array.cc", "value_versioned_array.cc"]


def families(tier):
    """every memory tag is used with one allocator family, and its pool bits are clear"""
    import re
    import build
    import ir
    prog = ir.Program(build.export("allocfns", ALLOCTUS, "root .*\nkeep .*\n"))
    mask = prog.enum("memtag_pool_mask")
    if mask is None:
        raise LookupError("memtag_pool_mask not found")
    use = {}
    out = {"findings": [], "counts": {"allocation call sites": []}}
    for k, f in enumerate(prog.raw):
        fn = None
        for b, il in enumerate(f["blocks"]):
            for pos, x in enumerate(il):
                m = re.fullmatch(r"threadinfo::(pool_)?(allocate|deallocate|deallocate_rcu)", x.get("q") or "")
                if x["o"] != "call" or not m:
                    continue
                t = x["a"][-1]
                fn = fn or prog.fn(k)
                ins = fn.blocks[b][pos]
                out["counts"]["allocation call sites"].append("%s %s" % (ins.short(), x["q"]))
                if not (isinstance(t, list) and t[0] == "c"):
                    continue
                fam = bool(m.group(1))
                if t[1] & mask:
                    out["findings"].append(finding(fn, ins, "tag-bits", "the memory tag 0x%x carries pool bits of its own" % t[1]))
                use.setdefault(t[1], {}).setdefault(fam, []).append((fn, ins, m.group(2)))
    for tag, d in use.items():
        if len(d) == 2:
            few = min(d.values(), key=len)
            for fn, ins, op in few:
                out["findings"].append(finding(fn, ins, "tag-family", "memory with tag 0x%x comes from one allocator family and is released to the other" % tag))
    return out
