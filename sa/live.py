"""Finding the leaf to change, and taking away what is empty."""
from engine import *
from tree import LockMon, TreeMon, FENCES, nodefield, nv, orphan, PURE
from readers import field

CUR = "Masstree::tcursor"


class FindMon(TreeMon):
    """tcursor::find_locked hands back a leaf that is locked, live, and was searched as it
    still is.  x: ('st',n,v) v = version of n taken by the descent that found it; ('nv',n)
    taken again since; ('dl',r,n) r = was n deleted; ('live',n); ('ms',s,n) s = layer state
    of n, ('nl',n) it is not a removed layer; ('p0',n,s) permutation read before locking,
    ('pf',n) fence since then, ('p1',n,s) read under the lock; ('rk',n) keys of n read since
    the descent, ('rkx',n) not in the order permutation, fence, keys; ('hc',r,n,v), ('vok',n),
    ('pok',n); ('deep',s) s is a node of a deeper layer; ('sh',) the key was moved to a deeper layer's part, ('ks',s), ('kf',s) where it
    stands and starts; ('lvl',s,n) s = layer link of n, not validated since it was read"""
    may = ("rk", "rkx", "lvl", "deep")
    keyed = ("vok", "pok", "live", "nl", "lvl", "pf", "p0", "sh")

    def init(self, eng, st):
        pr = eng.fn.prog
        self.gone = pr.enum("modstate_deleted_layer")
        self.ks, self.kf = field(pr, "Masstree::key", "s_"), field(pr, "Masstree::key", "first_")
        if None in (self.gone, self.ks, self.kf):
            raise LookupError("layer states or key layout not found")
        return super().init(eng, st)

    def drop(self, st, n, kinds):
        self.setx(st, frozenset(z for z in st.mon[3] if not (z[0] in kinds and n in z[1:])))

    def add(self, st, *f):
        self.setx(st, st.mon[3] | set(f))

    def on_descent(self, eng, st, ins, n, v):
        eng.count("lock-free descents", ins)
        # facts about earlier candidates are of no use any more
        self.setx(st, frozenset({("st", n, v)}) | {z for z in st.mon[3] if z[0] in ("sh", "ks", "kf", "deep")})

    def on_unlock(self, eng, st, ins, n):
        self.drop(st, n, ("p1", "vok", "pok", "ms", "nl"))

    def trim(self, x):
        return frozenset(z for z in super().trim(x) if not (z[0] == "deep" and z[1].k == "c"))

    def follow(self, eng, st, ins, n):
        for z in st.mon[3]:
            if z[0] == "lvl" and z[1] is rootof(n):
                eng.report("unvalidated-layer", ins, "follows a layer link of %s that it read without the lock and did not validate since: it may be a value" % show(z[2]), st)
                return False
        return None

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "call":
            q, a = kw["q"], kw["args"]
            m = nv(q)
            if m in ("is_root", "lock", "try_lock", "stable", "stable_annotated") or q == "Masstree::node_base::reach_leaf":
                if rootof(a[0]).k != "al" and self.follow(eng, st, ins, a[0]) is False:
                    return False
            if q == "Masstree::node_base::reach_leaf":
                return self.descend(eng, st, ins, a)
            if m in ("stable", "stable_annotated"):
                n = rootof(a[0])
                if n.k != "al":
                    y = frozenset(z for z in x if not (z[0] in ("st", "p0", "pf", "vok", "pok", "live") and n in z[1:]))
                    self.setx(st, y)        # the leaf was found by an older version than this one
            elif m == "has_changed":
                n, v = rootof(a[0]), a[1]
                if n.k != "al":
                    self.add(st, ("hc", kw["val"], n, v))
            elif m == "deleted":
                n = rootof(a[0])
                if n.k == "al":
                    c = st.cells.get(baseoff(a[0]))
                    self.add(st, *[("dl", kw["val"], z[1]) for z in x if c and z[0] == "st" and z[2] is c[0]])
                elif n in st.mon[0]:
                    self.add(st, ("dl", kw["val"], n))
            elif q in FENCES:
                self.add(st, *[("pf", z[1]) for z in x if z[0] == "p0"])
            elif not m and q not in ("Masstree::node_base::reach_leaf", "Masstree::leaf::advance_to_key"):
                for t in a:
                    self.readby(st, rootof(t))
        elif kind == "load":
            if nodefield(kw["addr"]) and self.follow(eng, st, ins, kw["addr"]) is False:
                return False
            for l in labels(kw["addr"])[-2:]:
                if l.startswith("Masstree::key.s_") or l.startswith("Masstree::key.first_"):
                    self.add(st, ("ks" if "s_" in l else "kf", kw["val"]))
            f = nodefield(kw["addr"])
            if f and f[0].k != "al":
                n, fld = f[0], f[1]
                if fld.startswith("permutation_"):
                    if n in st.mon[0]:
                        self.add(st, ("p1", n, kw["val"]))
                    elif ("rk", n) not in x:
                        self.drop(st, n, ("p0", "pf"))
                        self.add(st, ("p0", n, kw["val"]))
                elif fld.startswith("modstate_"):
                    if n in st.mon[0]:
                        self.add(st, ("ms", kw["val"], n))
                elif fld.startswith(("ikey0_", "keylenx_", "lv_")):
                    self.readby(st, n)
                    if fld.startswith("lv_"):
                        self.add(st, ("deep", kw["val"]))
                        if n not in st.mon[0] and self.shared(st, n):
                            self.add(st, ("lvl", kw["val"], n))
                elif fld.startswith("parent_") and ("deep", n) in x:
                    self.add(st, ("deep", kw["val"]))
        elif kind == "store":
            if any(l.startswith("Masstree::key.s_") for l in labels(kw["addr"])[-2:]):
                same = any(z[0] == "kf" and z[1] is kw["val"] for z in x)
                self.setx(st, frozenset(z for z in x if z[0] not in ("sh", "ks")) | (set() if same else {("sh",)}))
        elif kind == "ret":
            return self.ret(eng, st, ins)
        return None

    def readby(self, st, n):
        x = st.mon[3]
        if ("rkx", n) in x or not any(z[0] == "st" and z[1] is n for z in x):
            return
        if not any(z[0] == "p0" and z[1] is n for z in x) or ("pf", n) not in x:
            self.add(st, ("rk", n), ("rkx", n))
        else:
            self.add(st, ("rk", n))

    def descend(self, eng, st, ins, a):
        """reach_leaf(root, key, ...): the key stands at the layer's part"""
        eng.count("descents with a positioned key", ins)
        o = st.org.get(rootof(a[0]))
        if o is not None and any(y.startswith(CUR + ".root_") for y in labels(o)):
            if ("sh",) in st.mon[3]:
                eng.report("key-position", ins, "starts again at the top with a key that may stand at a deeper layer's part", st)
                return False
        elif ("deep", rootof(a[0])) in st.mon[3] and ("sh",) not in st.mon[3]:
            eng.report("key-position", ins, "descends into a layer with a key that still stands at the part above", st)
            return False
        return None

    def ret(self, eng, st, ins):
        eng.count("exits", ins)
        x = st.mon[3]
        n = self.cur(eng, st)
        if len(st.mon[0]) != 1 or n is None or rootof(n) not in st.mon[0]:
            eng.report("wrong-leaf", ins, "hands back a leaf other than the one it locked", st)
            return False
        n = rootof(n)
        for k, why in (("vok", "its version is not re-checked under the lock"), ("pok", "its permutation is not re-checked under the lock")):
            if (k, n) not in x:
                eng.report("stale-leaf", ins, "hands back a leaf though %s" % why, st)
                return False
        if ("live", n) not in x:
            eng.report("deleted-leaf", ins, "hands back a leaf that may have been deleted before it was found", st)
            return False
        if ("nl", n) not in x:
            eng.report("dead-layer", ins, "hands back a leaf that may be what is left of a removed layer", st)
            return False
        if ("rkx", n) in x:
            eng.report("search-order", ins, "searches the keys of the leaf before reading the permutation it compares later, or without a fence after it", st)
            return False
        return None

    def cur(self, eng, st):
        o = field(eng.fn.prog, CUR, "n_")
        c = st.cells.get(baseoff(ptr(eng.argt[0], o))) if o is not None else None
        return c[0] if c else None

    def assume(self, eng, st, c, val):
        x = st.mon[3]
        if c.k == "sym":
            for z in x:
                if z[0] == "hc" and z[1] is c and not val and ("st", z[2], z[3]) in x:
                    n = z[2]
                    y = frozenset(y for y in st.mon[3] if not (y[0] == "lvl" and y[2] is n))
                    if n in st.mon[0]:
                        eng.count("version re-checks", eng.cur)
                        y |= {("vok", n)}
                    self.setx(st, y)
                elif z[0] == "dl" and z[1] is c and not val:
                    eng.count("deletion checks", eng.cur)
                    self.add(st, ("live", z[2]))
        elif c.k == "eq":
            for s, t in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                if isc(t):
                    u = s.a[0] if s.k in ("zext", "sext") else s
                    for z in x:
                        if z[0] == "ms" and z[1] is u and (not val and t.a[0] == self.gone or val and t.a[0] != self.gone):
                            self.add(st, ("nl", z[2]))
                elif val:
                    if ("ks", s) in x and ("kf", t) in x:
                        self.setx(st, st.mon[3] - {("sh",)})
                    for z in x:
                        if z[0] == "p1" and z[2] is s and ("p0", z[1], t) in x:
                            eng.count("permutation re-checks", eng.cur)
                            self.add(st, ("pok", z[1]))
        return None


def values(c, s, val, n=256):
    """the values of the byte s for which c == val; None if c says something else too"""
    if c.syms != s.syms:
        return None
    out = []
    for k in range(n):
        r = put(c, s, C(k, 8))
        if not isc(r):
            return None
        if bool(r.a[0]) == val:
            out.append(k)
    return out


def put(t, s, v):
    if t is s:
        return v
    if not t.syms or s.syms.isdisjoint(t.syms):
        return t
    return rebuild(t, lambda x: put(x, s, v))


def iszero(c, val):
    """s, when c == val says that the size s is 0"""
    if c.k not in ("eq", "slt", "ult"):
        return None
    a, b = c.a[1], c.a[2]
    s = None
    if c.k == "eq":
        s = (b if isc(a) and a.a[0] == 0 else a if isc(b) and b.a[0] == 0 else None) if val else None
    elif val:
        s = a if isc(b) and b.a[0] == 1 else None
    else:
        s = b if isc(a) and a.a[0] == 0 else None
    while s is not None and s.k in ("zext", "sext"):
        s = s.a[0]
    return s


class EmptyMon(TreeMon):
    """a layer is taken away only when it was seen empty under its lock, and its entry only with it.
    x: ('nk',n,s) s = size of inner node n read under its lock; ('p1',n,s) permutation of n read under
    its lock; ('sz',r,s) r = size of permutation s; ('ir',r,n) r = is n a root, asked under its lock,
    ('root',n); ('ok',p) / ('ly',p) / ('ik',p) slot p is in use / holds a layer link / for the key looked for; ('empty',n) seen empty under its lock; ('gone',n,slot) n, found in that slot, was marked as a removed layer"""
    keyed = ("gone",)
    LAYER = ("nk", "p1", "ir", "root", "empty")

    def init(self, eng, st):
        self.dead = eng.fn.prog.enum("modstate_deleted_layer")
        if self.dead is None:
            raise LookupError("layer states not found")
        return super().init(eng, st)

    def add(self, st, *f):
        self.setx(st, st.mon[3] | set(f))

    def on_unlock(self, eng, st, ins, n):
        n = rootof(n)
        self.setx(st, frozenset(z for z in st.mon[3] if not (z[0] in self.LAYER and n in z[1:])))

    def held(self, st, n):
        return rootof(n) in st.mon[0]

    def pre(self, eng, st, ins, kind, **kw):
        x = st.mon[3]
        if kind == "load":
            f = nodefield(kw["addr"])
            if f and self.held(st, f[0]):
                if f[1].startswith(("keylenx_", "ikey0_")):
                    self.add(st, *[("kl" if f[1][0] == "k" else "iv", kw["val"], y) for y in kw["addr"].syms if y is not f[0]])
                elif f[1].startswith("nkeys_"):
                    self.add(st, ("nk", f[0], kw["val"]))
                elif f[1].startswith("permutation_"):
                    self.add(st, ("p1", f[0], kw["val"]))
        elif kind == "call":
            q, a = kw["q"], kw["args"]
            m = nv(q)
            if m == "is_root" and self.held(st, a[0]):
                self.add(st, ("ir", kw["val"], rootof(a[0])))
            elif q == "kpermuter::size" and a and any(z[0] == "p1" and z[2] is self.permval(st, a[0]) for z in x):
                self.add(st, ("sz", kw["val"], self.permval(st, a[0])))
            elif q == "kpermuter::operator[]":
                if ("in", a[1]) in x:
                    self.add(st, ("ok", kw["val"]))
            elif q == "kpermuter::remove":
                eng.count("entries removed", ins)
                if ("gone",) not in x:
                    eng.report("entry-without-layer", ins, "removes the entry of a layer that this path did not take away", st)
                    return False
        elif kind == "store":
            f = nodefield(kw["addr"])
            if f and self.shared(st, f[0]):
                return self.write(eng, st, ins, f[0], f[1], kw["val"])
        elif kind == "ret":
            eng.count("exits", ins)
        return None

    def permval(self, st, t):
        if rootof(t).k == "al":
            c = st.cells.get(baseoff(t))
            return c[0] if c else None
        return t

    def write(self, eng, st, ins, n, fld, v):
        x = st.mon[3]
        if fld.startswith("modstate_") and isc(v) and v.a[0] == self.dead:
            eng.count("layers taken away", ins)
            if not self.held(st, n) or ("empty", n) not in x:
                eng.report("stale-emptiness", ins, "takes away the layer of %s without having seen under its lock that it is empty" % show(n), st)
                return False
            if ("root", n) not in x:
                eng.report("not-the-layer", ins, "takes away the layer of %s without having seen under its lock that it is the layer's root" % show(n), st)
                return False
            o = st.org.get(n)
            if o is not None and (nodefield(o) or ("", ""))[1].startswith("lv_"):
                if not self.held(st, o):
                    eng.report("unlocked-link", ins, "takes away a layer it found in the entry of a leaf that it does not hold", st)
                    return False
                for k, why in (("ly", "is a layer link"), ("ik", "belongs to the layer's key")):
                    if not any(z[0] == k and z[1] in o.syms for z in x):
                        eng.report("entry-kind", ins, "takes away a layer it found in an entry that was not checked to be the right one: that it %s" % why, st)
                        return False
                if not any(z[0] == "ok" and z[1] in o.syms for z in x):
                    eng.report("entry-position", ins, "takes away a layer it found at a position that was not checked to be in use", st)
                    return False
            self.setx(st, frozenset(z for z in x if z[0] not in ("in", "ok", "ly", "ik", "kl", "iv")) | {("gone",)})
        elif fld.startswith("lv_"):
            o = st.org.get(rootof(v))
            f = nodefield(o) if o is not None else None
            if f and f[1].startswith("child_"):
                p = f[0]
                eng.count("inner nodes bypassed", ins)
                if not self.held(st, p) or ("empty", p) not in x:
                    eng.report("stale-emptiness", ins, "lifts the child of %s without having seen under its lock that it has no other" % show(p), st)
                    return False
                if ("root", p) not in x:
                    eng.report("not-the-layer", ins, "lifts the child of %s without having seen under its lock that it is the layer's root" % show(p), st)
                    return False
                if not self.held(st, rootof(v)):
                    eng.report("unlocked-root", ins, "makes %s the root of the layer without holding its lock" % show(rootof(v)), st)
                    return False
        return None

    def assume(self, eng, st, c, val):
        s = iszero(c, val)
        if s is not None:
            x = st.mon[3]
            for z in x:
                if z[0] == "nk" and z[2] is s:
                    self.add(st, ("empty", z[1]))
                elif z[0] == "sz" and z[1] is s:
                    self.add(st, *[("empty", y[1]) for y in x if y[0] == "p1" and y[2] is z[2]])
        for z in st.mon[3]:
            if z[0] == "kl" and z[1] in c.syms:
                v = values(c, z[1], val)
                if v is not None and all(k >= 128 for k in v):
                    self.add(st, ("ly", z[2]))
            elif z[0] == "iv" and c.k == "eq" and val and z[1] in (c.a[1], c.a[2]):
                self.add(st, ("ik", z[2]))
        if c.k == "slt" and val and any(z[0] == "sz" and z[1] is c.a[2] for z in st.mon[3]):
            self.add(st, ("in", c.a[1]))
        if c.k == "sym" and val:
            for z in st.mon[3]:
                if z[0] == "ir" and z[1] is c:
                    eng.count("root re-checks", eng.cur)
                    self.add(st, ("root", z[2]))
        return None


class OrderMon(LockMon):
    """a thread that holds a node waits only for nodes above it in its layer, or for the top of
    a layer below an entry of a leaf it holds; anything else it only tries.
    x: ('up',s,n) s was read from the parent link of n; s is n: s is fresh"""
    keyed = ()

    def double(self, eng, st, ins, n):
        return False

    notheld = double

    def event(self, eng, st, ins, kind, **kw):
        if kind == "ret":
            eng.count("exits", ins)
            return None
        r = LockMon.event(self, eng, st, ins, kind, **kw)
        if r is None:
            self.pre2(eng, st, ins, kind, **kw)
        return r

    def merge(self, eng, st, ins):
        return TreeMon.merge(self, eng, st, ins)

    def pre2(self, eng, st, ins, kind, **kw):
        if kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0] in st.mon[0] and f[1].startswith("parent_"):
                self.setx(st, frozenset(z for z in st.mon[3] if z[2] is not f[0]) | {("up", kw["val"], f[0])})
        elif kind == "call" and kw["q"] in ("threadinfo::pool_allocate", "threadinfo::allocate"):
            v = rootof(kw["val"])
            st.nn.add(v)
            self.setx(st, st.mon[3] | {("up", v, v)})
        return None

    def on_unlock(self, eng, st, ins, n):
        self.setx(st, frozenset(z for z in st.mon[3] if z[2] is not n))

    def ev_lock(self, eng, st, ins, n, kw):
        l = st.mon[0]
        r = rootof(n)
        if l and r not in l and r.k != "al":
            eng.count("waits while holding a lock", ins)
            o = st.org.get(r)
            f = nodefield(o) if o is not None else None
            if not (f and f[0] in l and f[1].startswith(("parent_", "lv_"))) and not any(z[1] is r for z in st.mon[3]):
                eng.report("lock-order", ins, "waits for the lock of %s while holding %s, though it is neither above it nor the top of a layer below it: two threads can wait for each other"
                           % (show(r), ", ".join(map(show, l))), st)
                return False
            self.setx(st, frozenset(z for z in st.mon[3] if z[1] is not r))
        elif not l:
            eng.count("waits without holding a lock", ins)
        return super().ev_lock(eng, st, ins, n, kw)
