"""The descent from a layer's root to the leaf responsible for a key, and the walk along the leaves."""
import re
from engine import *
from serve import Facts
from rcu import finding, findings
from bounds import lin, ladd, const
from tree import nv, nodefield, SPEC_TREE
import tree

TUS = tree.TUS
SPEC = r"""
root Masstree::node_base::reach_leaf
root Masstree::leaf::advance_to_key
root Masstree::(leaf|internode)::stable_last_key_compare
keep Masstree::.*::stable_last_key_compare
keep Masstree::.*::compare_key
keep compare
""" + SPEC_TREE
ALLS = frozenset((-1, 0, 1))
NEG = {"eq": {0}, "slt": {-1}, "ult": {-1}}


class DescMon(Facts):
    """st n v: v is a stable version of n; lo n: the key is not below what n starts with; cur n v: n is
    responsible for the key as of v; chain n: a node on the way up from the start; ch c n / up k n: child
    and position found in n since its last version; nx m n: m is n's right neighbour, read since then
    (nxraw: with the mark bit); rel x y s / bd y n / ik x: comparisons of the key with a leaf's lower bound"""
    width = 40
    pure = (r".*",)
    consts = tuple(range(-2, 8))
    TOP = True

    def init(self, eng, st):
        a = eng.argt
        self.this, self.ka = a[0], a[1]
        self.walk = "advance_to_key" in eng.fn.q
        self.out = a[2]
        f = {("this", self.this), ("key", self.ka)}
        if self.walk:
            f |= {("lo", self.this)}
        else:
            f |= {("chain", self.this)}
        return frozenset(f)

    def ver(self, st, t):
        """the version a pointer argument designates"""
        c = st.cells.get(baseoff(t))
        return c[0] if c else None

    def has(self, st, *z):
        return z in st.mon

    def nodeof(self, t):
        return rootof(t)

    def known(self, eng, st, ins, n, what):
        if n is self.this:
            return True
        if ("nz", n) not in st.mon:
            eng.report("null-node", ins, "%s %s, which may be null here" % (what, show(n)), st, key="null")
            return False
        if any(z[0] == "raw" and z[1] is n for z in st.mon):
            eng.report("marked-link", ins, "%s a leaf link that may still carry its mark" % what, st, key="mark")
            return False
        return True

    def event(self, eng, st, ins, kind, **kw):
        x = st.mon
        if kind == "load":
            return self.load(eng, st, ins, kw["addr"], kw["val"])
        if kind == "store":
            r = rootof(kw["addr"])
            if r is self.out and baseoff(kw["addr"])[1] == 0:
                self.add(st, "set")
            elif r.k != "al":
                eng.report("descent-store", ins, "the descent changes memory", st, key="store")
        elif kind == "call":
            return self.call(eng, st, ins, kw["q"], kw["args"], kw["val"])
        elif kind == "ret":
            self.ret(eng, st, ins, kw["val"])
        return None

    def load(self, eng, st, ins, addr, val):
        f = nodefield(addr)
        if rootof(addr) is self.out and self.walk and baseoff(addr)[1] == 0 and ("set",) not in st.mon:
            self.add(st, "st", self.this, val)
            self.add(st, "cur", self.this, val)
            return
        if any("Masstree::key.ikey0_" in l for l in labels(addr)[-2:]) or rootof(addr) is self.ka and baseoff(addr)[1] == 0:
            self.add(st, "ik", val)
            return
        if not f or f[0].k == "al":
            return
        n, fld = f
        if fld.startswith("child_"):
            t = addr
            while t.k == "ptr":
                t = t.a[0]
            ix = t.a[1] if t.k == "idx" else C((baseoff(addr)[1]), 64)
            ok = any(z[0] == "up" and z[2] is n and const(ladd(lin(ix), lin(z[1]), -1)) == 0 for z in st.mon)
            self.known(eng, st, ins, n, "searches")
            if ok:
                self.add(st, "ch", val, n)
            eng.count("child links followed", ins)
        elif fld.startswith("parent_"):
            if self.has(st, "chain", n):
                self.add(st, "chain", val)
        elif fld.startswith("next_"):
            if any(z[0] == "st" and z[1] is n for z in st.mon):
                self.add(st, "nx", val, n)
                self.add(st, "raw", val)
                for k in (-2, ~3, ~7):
                    self.add(st, "nx", binop("and", 64, val, C(k)), n)
        elif fld.startswith("ikey0_"):
            if self.known(eng, st, ins, n, "compares with") and "idx(" not in repr(addr) and self.first(addr):
                self.add(st, "bd", val, n)

    def first(self, addr):
        t = addr
        while t.k == "ptr":
            if t.a[0].k == "idx":
                return False
            t = t.a[0]
        return t.k != "idx"

    def call(self, eng, st, ins, q, a, val):
        m = nv(q)
        if m in ("stable", "stable_annotated"):
            n = rootof(a[0])
            if not self.known(eng, st, ins, n, "goes to"):
                return False
            eng.count("versions taken", ins)
            st.mon = frozenset(z for z in st.mon if not (z[0] in ("ch", "up", "nx") and z[2] is n))
            self.add(st, "st", n, val)
        elif m == "is_root":
            v = self.ver(st, a[0])
            if v is not None:
                self.add(st, "root?", val, v)
        elif m == "isleaf":
            v = self.ver(st, a[0]) if rootof(a[0]).k == "al" or rootof(a[0]) is self.out else None
            if v is not None:
                self.add(st, "leaf?", val, v)
            else:
                self.add(st, "leaf?", val, rootof(a[0]))
        elif m == "deleted":
            v = self.ver(st, a[0]) if rootof(a[0]).k == "al" or rootof(a[0]) is self.out else None
            if v is not None:
                self.add(st, "del?", val, v)
        elif m == "has_changed":
            self.add(st, "hc", val, rootof(a[0]), a[1])
        elif m in ("has_split", "simple_has_split"):
            v = self.ver(st, a[0]) if rootof(a[0]).k == "al" or rootof(a[0]) is self.out else None
            eng.count("split checks", ins)
            if v is not None:
                self.add(st, "hs", val, v, a[1])
            else:
                self.add(st, "hsn", val, rootof(a[0]), a[1])
        elif q.endswith("::stable_last_key_compare"):
            n = rootof(a[0])
            if a[1] is self.ka and self.has(st, "st", n, a[2]):
                self.add(st, "last", val, n)
        elif re.match(r"key_.*::upper$", q):
            if a[0] is self.ka:
                eng.count("inner nodes searched", ins)
                n = rootof(a[1])
                if any(z[0] == "st" and z[1] is n for z in st.mon):
                    self.add(st, "up", val, n)
        elif q == "compare":
            x, y = [self.scal(st, t) for t in a[:2]]
            for s, (x, y) in ((1, (x, y)), (-1, (y, x))):
                if ("ik", x) in st.mon:
                    for z in list(st.mon):
                        if z[0] == "bd" and z[1] is y:
                            self.add(st, "cmp", val, z[2], s)
        return None

    def scal(self, st, t):
        if rootof(t).k == "al":
            c = st.cells.get(baseoff(t))
            return c[0] if c else t
        return t

    def assume(self, eng, st, cond, val):
        c, v = cond, val
        while c.k == "not":
            c, v = c.a[0], not v
        for z in list(st.mon):
            k = z[0]
            if k in ("root?", "leaf?", "del?", "hc", "hs", "hsn") and z[1] is c:
                self.learn(eng, st, z, v)
            elif k == "last":
                s = self.sign(c, v, z[1])
                if s is not None:
                    old = next((y[2] for y in st.mon if y[0] == "lastset" and y[1] is z[1]), ALLS)
                    s = old & s
                    if not s:
                        return False
                    st.mon = frozenset(y for y in st.mon if not (y[0] == "lastset" and y[1] is z[1])) | {("lastset", z[1], s)}
                    if s <= {-1, 0}:
                        n = z[2]
                        for y in list(st.mon):
                            if y[0] == "st" and y[1] is n and ("lo", n) in st.mon:
                                self.add(st, "cur", n, y[2])
            elif k == "cmp":
                s = self.sign(c, v, z[1])
                if s is not None and self.relate(st, z[2], frozenset(i * z[3] for i in s)) is False:
                    return False
        if c.k == "eq" and not v and isc(c.a[-1]) and c.a[-1].a[0] == 0:
            self.add(st, "nz", c.a[-2])
        if c.k == "eq" and v and isc(c.a[-1]) and c.a[-1].a[0] == 0:
            # no right neighbour
            for z in list(st.mon):
                if z[0] == "nx" and z[1] is c.a[-2] and ("lo", z[2]) in st.mon:
                    self.current(st, z[2])
        if c.k in ("eq", "ult"):
            p, q = c.a[-2], c.a[-1]
            for x, y, k in ((p, q, 1), (q, p, -1)):
                if ("ik", x) in st.mon:
                    s = frozenset({0} if c.k == "eq" else {-k})
                    for z in list(st.mon):
                        if z[0] == "bd" and z[1] is y and self.relate(st, z[2], s if v else ALLS - s) is False:
                            return False
        return None

    def sign(self, c, v, r):
        s = None
        if c.k == "slt" and c.a[-2] is r and isc(c.a[-1]) and c.a[-1].a[0] in (0, 1):
            s = {-1} if c.a[-1].a[0] == 0 else {-1, 0}
        elif c.k == "slt" and c.a[-1] is r and isc(c.a[-2]) and c.a[-2].a[0] in (0, -1):
            s = {1} if c.a[-2].a[0] == 0 else {0, 1}
        elif c.k == "eq" and r in c.a[-2:] and any(isc(t) and t.a[0] == 0 for t in c.a[-2:]):
            s = {0}
        if s is None:
            return None
        return frozenset(s if v else ALLS - s)

    def relate(self, st, n, s):
        """the key's slice stands in one of the relations s to the lower bound of n"""
        old = next((z[2] for z in st.mon if z[0] == "rel" and z[1] is n), ALLS)
        t = old & s
        if not t:
            return False
        st.mon = frozenset(z for z in st.mon if not (z[0] == "rel" and z[1] is n)) | {("rel", n, t)}
        if t <= {0, 1}:
            self.add(st, "lo", n)
        elif t == {-1}:
            # n is beyond the key: who links to it from the left is responsible
            for z in list(st.mon):
                if z[0] == "nx" and z[1] is n and ("lo", z[2]) in st.mon:
                    self.current(st, z[2])
        return None

    def current(self, st, n):
        for y in list(st.mon):
            if y[0] == "st" and y[1] is n:
                self.add(st, "cur", n, y[2])

    def learn(self, eng, st, z, v):
        k = z[0]
        if k == "root?" and v:
            for y in list(st.mon):
                if y[0] == "st" and y[2] is z[2] and ("chain", y[1]) in st.mon:
                    eng.count("roots confirmed", None)
                    self.add(st, "cur", y[1], z[2])
                    self.add(st, "lo", y[1])
        elif k == "leaf?" and v:
            self.add(st, "leaf", z[2])
        elif k == "del?" and v:
            self.add(st, "dead", z[2])
        elif k == "hc" and not v:
            n, w = z[2], z[3]
            if ("cur", n, w) in st.mon:
                for y in list(st.mon):
                    if y[0] == "ch" and y[2] is n:
                        for t in list(st.mon):
                            if t[0] == "st" and t[1] is y[1]:
                                self.add(st, "cur", t[1], t[2])
                                self.add(st, "lo", t[1])
        elif k == "hs" and not v:
            for p, q in ((z[2], z[3]), (z[3], z[2])):
                for y in list(st.mon):
                    if y[0] == "cur" and y[2] is p and ("st", y[1], q) in st.mon:
                        self.add(st, "cur", y[1], q)
        elif k == "hsn" and not v:
            if ("cur", z[2], z[3]) in st.mon:
                for y in list(st.mon):
                    if y[0] == "st" and y[1] is z[2]:
                        self.add(st, "cur", z[2], y[2])

    def edge(self, eng, st, frm, to, new):
        for x, t in new:
            u = eng.general(t, x.key, eng.fn.flags[x.i])
            if u is not t:
                for z in list(st.mon):
                    if t in z[1:]:
                        st.mon = st.mon | {z[:1] + tuple(u if y is t else y for y in z[1:])}

    def merge(self, eng, st, ins):
        live = set()
        for t in st.env.values():
            live |= t.syms
        for v, z in st.cells.values():
            live |= v.syms
        st.mon = frozenset(z for z in st.mon if all(t.syms <= live for t in z if t.__class__ is T))

    def ret(self, eng, st, ins, val):
        eng.count("leaves returned", ins)
        n = val
        v = self.ver(st, self.out)
        if v is None or not self.has(st, "st", n, v):

            eng.report("version-of-leaf", ins, "the version handed back is not one taken from the leaf handed back", st, key="version")
            return
        if self.walk and ("dead", v) in st.mon and ("lo", n) in st.mon:
            return
        if ("cur", n, v) not in st.mon:
            eng.report("not-responsible", ins, "returns a leaf that this path has not shown to be responsible for the key as of the version returned", st, key="cur")
            return
        if not self.walk and ("leaf", v) not in st.mon and ("leaf", n) not in st.mon:
            eng.report("not-a-leaf", ins, "returns a node that it has not seen to be a leaf", st, key="leaf")


class LastMon(Facts):
    """comparison with the last key of a node: read since a version that is then seen unchanged"""
    width = 24
    pure = (r".*",)

    def init(self, eng, st):
        self.this, self.ka, self.v = eng.argt[0], eng.argt[1], eng.argt[2]
        return frozenset({("st", self.v)})

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0] is self.this:
                if f[1].startswith(("nkeys_", "permutation_")):
                    self.add(st, "sz" if f[1].startswith("nkeys_") else "perm", kw["val"])
        elif kind == "store":
            if rootof(kw["addr"]).k != "al":
                eng.report("descent-store", ins, "the comparison changes memory", st, key="store")
        elif kind == "call":
            q, a, val = kw["q"], kw["args"], kw["val"]
            m = nv(q)
            if m in ("stable", "stable_annotated"):
                if rootof(a[0]) is self.this:
                    st.mon = frozenset({("st", val)})
            elif m == "has_changed":
                if rootof(a[0]) is self.this and ("st", a[1]) in st.mon:
                    self.add(st, "hc", val, frozenset(z for z in st.mon if z[0] == "cmp"))
            elif q == "kpermuter::size":
                p = self.perm(st, a[0])
                if ("perm", p) in st.mon:
                    self.add(st, "psz", val, p)
                    self.add(st, "sz", val)
            elif q == "kpermuter::operator[]":
                p = self.perm(st, a[0])
                for z in st.mon:
                    if z[0] == "psz" and z[2] is p and (self.less1(a[1], z[1]) or isc(a[1]) and a[1].a[0] == 0 and self.zero(eng, st, z[1])):
                        self.add(st, "slot", val)
            elif q == "kpermuter::back":
                p = self.perm(st, a[0])
                if ("perm", p) in st.mon:
                    self.add(st, "slot", val)
            elif q.endswith("::compare_key"):
                eng.count("comparisons with the last key", ins)
                ok = a[0] is self.this and a[1] is self.ka and (("slot", a[2]) in st.mon or "internode" in eng.fn.q and any(z[0] == "sz" and self.less1(a[2], z[1]) for z in st.mon))
                if ok:
                    self.add(st, "cmp", val)
        elif kind == "ret":
            eng.count("results", ins)
            r = kw["val"]
            if isc(r) and r.a[0] > 0:
                return None         # the caller looks more closely
            if ("good", r) not in st.mon:
                eng.report("last-key", ins, "the answer is not a comparison with the last key of one state of the node", st, key="last")
        return None

    def zero(self, eng, st, t):
        return eng.truth(st, cmp_("eq", 32, t, C(0, 32))) is True

    def less1(self, i, n):
        d = ladd(lin(i), lin(n), -1)
        return d is not None and const(d) == -1

    def perm(self, st, t):
        if rootof(t).k == "al":
            c = st.cells.get(baseoff(t))
            return c[0] if c else None
        return t

    def assume(self, eng, st, cond, val):
        c, v = cond, val
        while c.k == "not":
            c, v = c.a[0], not v
        for z in list(st.mon):
            if z[0] == "hc" and z[1] is c and not v:
                for y in z[2]:
                    self.add(st, "good", y[1])
        return None


VOL = re.compile(r"Masstree::(leaf|internode|node_base)\.")


def descend(tier):
    import build
    import ir
    import engine
    prog = ir.Program(build.export("descent", TUS, SPEC))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    seen = set()
    for k, f in enumerate(prog.raw):
        fn = prog.fn(k)
        e = engine.Engine(fn, LastMon() if "stable_last_key" in f["q"] else DescMon(), maxtime=120, volatile=VOL)
        e.run()
        seen.add(f["q"].split("::", 1)[1])
        out["steps"] += e.steps
        out["blocks"] += len(fn.blocks)
        out["findings"] += findings(e, fn)
        for c, v in e.counts.items():
            out["counts"].setdefault(c, []).extend("%s %s" % (x, fn.dem[:80]) for x in v)
        out["counts"].setdefault("descent functions", []).append("%s:%s %s" % (fn.file, fn.line, fn.dem[:120]))
    if not {"node_base::reach_leaf", "leaf::advance_to_key"} <= seen:
        raise LookupError("not all parts of the descent were found: %s" % sorted(seen))
    return out
