"""Searching a node for a key (ksearch.hh): the index returned separates smaller from larger keys."""
import os
import re
from engine import *
from serve import Facts
from rcu import finding, findings
from bits import bits, Memo
from perm import number

TUS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "probes", "keys.cc")]
SPEC = "root key_(find_)?(upper|lower)_bound_by\nkeep (probe_node|probe_plain_node|kpermuter)::.*\n"
ALLS = frozenset((-1, 0, 1))


class SearchMon(Facts):
    """lt t: all positions below t hold smaller keys; ge t: all from t on hold larger ones; eq t: t holds the key"""
    width = 12
    pure = (r".*",)

    def init(self, eng, st):
        self.upper = "upper" in eng.fn.q
        return frozenset({("lt", C(0, 32))})

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            k = kw["q"].split("::")[-1]
            if k == "size":
                self.add(st, "ge", kw["val"])
                self.add(st, "size", kw["val"])
            elif k == "operator[]":
                self.add(st, "pos", kw["val"], kw["args"][1])
            elif k == "compare_key":
                self.compared(eng, st, ins, kw["args"][2], kw["val"])
        elif kind == "ret":
            eng.count("results", ins)
            self.result(eng, st, ins, kw["val"])
        elif kind == "store" and baseoff(kw["addr"])[0].k != "al":
            eng.report("search-store", ins, "a search changes memory", st, key="store")

    def compared(self, eng, st, ins, p, val):
        eng.count("comparisons", ins)
        if "probe_plain_node" in eng.fn.dem:
            x = p
        else:
            x = next((z[2] for z in st.mon if z[0] == "pos" and z[1] is p), None)
            if x is None:
                eng.report("search-order", ins, "compares with a slot that was not taken from the order word", st, key="slot")
                return
        if not self.inside(eng, st, x):
            eng.report("search-range", ins, "may compare with a position outside the part of the node that is left", st, key="range")
        self.add(st, "cmp", val, x, ALLS)

    def inside(self, eng, st, x):
        for l in [z[1] for z in st.mon if z[0] == "lt"]:
            for r in [z[1] for z in st.mon if z[0] == "ge"]:
                # l <= r holds anyway: position r cannot hold both a smaller and a larger key
                if (eng.truth(st, cmp_("slt", 32, l, r)) is True or eng.truth(st, cmp_("eq", 32, l, r)) is False) and self.between(x, l, r):
                    return True
        return False

    def between(self, x, l, r):
        if isc(l) and isc(r):
            return isc(x) and l.a[0] <= x.a[0] < r.a[0]
        for a in range(16):
            if isc(l) and l.a[0] != a:
                continue
            for b in range(a + 1, 17):
                sub = Memo({t: [v >> i & 1 for i in range(32)] for t, v in ((l, a), (r, b)) if not isc(t)})
                n = number(bits(x, 32, None, sub))
                if n is None or not a <= n < b:
                    return False
        return True

    def assume(self, eng, st, cond, val):
        c, v = cond, val
        while c.k == "not":
            c, v = c.a[0], not v
        for z in [z for z in st.mon if z[0] == "cmp"]:
            r = z[1]
            s = None
            if c.k == "slt" and c.a[1] is r and isc(c.a[2]) and c.a[2].a[0] in (0, 1):
                s = {-1} if c.a[2].a[0] == 0 else {-1, 0}
            elif c.k == "slt" and c.a[2] is r and isc(c.a[1]) and c.a[1].a[0] in (0, -1):
                s = {1} if c.a[1].a[0] == 0 else {0, 1}
            elif c.k == "eq" and r in c.a[1:] and any(isc(t) and t.a[0] == 0 for t in c.a[1:]):
                s = {0}
            if s is None:
                continue
            s = z[3] & s if v else z[3] - s
            if not s:
                return False
            st.mon = st.mon - {z} | {("cmp", r, z[2], frozenset(s))}
            self.learn(st, z[2], s)
        return None

    def learn(self, st, x, s):
        n = binop("add", 32, x, C(1, 32))
        if s == {-1}:
            self.add(st, "ge", x)
        elif s <= {-1, 0}:
            self.add(st, "ge", n)
            if s == {0}:
                self.add(st, "eq", x)
                if self.upper:
                    self.add(st, "lt", n)
        elif s == {1} or self.upper and s == {0, 1}:
            self.add(st, "lt", n)

    def edge(self, eng, st, frm, to, new):
        for x, t in new:
            u = eng.general(t, x.key, eng.fn.flags[x.i])
            if u is not t:
                for z in list(st.mon):
                    if z[0] in ("lt", "ge", "eq") and z[1] is t:
                        self.add(st, z[0], u)
                    elif z[0] == "pos" and z[2] is t:
                        self.add(st, "pos", z[1], u)

    def settle(self, eng, st):
        """all positions from r on hold larger keys and t >= r: so do all from t on"""
        ge = [z[1] for z in st.mon if z[0] == "ge"]
        for z in list(st.mon):
            if z[0] == "lt" and z[1] not in ge and any(eng.truth(st, cmp_("slt", 32, z[1], r)) is False or eng.truth(st, cmp_("eq", 32, z[1], r)) is True for r in ge):
                self.add(st, "ge", z[1])

    def merge(self, eng, st, ins):
        self.settle(eng, st)
        live = set()
        for t in st.env.values():
            live |= t.syms
        for v, z in st.cells.values():
            live |= v.syms
        st.mon = frozenset(z for z in st.mon if all(t.syms <= live for t in z if t.__class__ is T))

    def result(self, eng, st, ins, val):
        e = bits(val, 64) if not self.upper else bits(val, 32)
        same = lambda t, lo: bits(t, 32) == e[lo:lo + 32]
        self.settle(eng, st)
        lts = [z[1] for z in st.mon if z[0] == "lt"]
        if not self.upper and number(e[32:]) != 0xffffffff:
            eqs = [z[1] for z in st.mon if z[0] == "eq"]        # keys differ: there is one such position
            if any(same(t, 0) for t in eqs):
                if "probe_plain_node" in eng.fn.dem and any(same(t, 32) for t in eqs) or any(y[0] == "pos" and y[2] in eqs and same(y[1], 32) for y in st.mon):
                    return
            eng.report("search-found", ins, "answers with a slot that was not found to hold the key, or not with its own position", st, key="found")
            return
        if any(same(t, 0) and ("ge", t) in st.mon for t in lts):
            return
        eng.report("search-bound", ins, "the position returned does not separate smaller keys from larger ones", st, key="bound")


def search(tier):
    import build
    import ir
    import engine
    prog = ir.Program(build.export("ksearch", TUS, SPEC))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    seen = set()
    for k, f in enumerate(prog.raw):
        fn = prog.fn(k)
        e = engine.Engine(fn, SearchMon(), maxtime=60)
        e.run()
        seen.add((f["q"], "plain" in fn.dem))
        out["steps"] += e.steps
        out["blocks"] += len(fn.blocks)
        out["findings"] += findings(e, fn)
        for c, v in e.counts.items():
            out["counts"].setdefault(c, []).extend("%s %s" % (x, fn.dem[:80]) for x in v)
        out["counts"].setdefault("searches", []).append("%s:%s %s" % (fn.file, fn.line, fn.dem[:120]))
    if len(seen) < 8:
        raise LookupError("not all searches were found")
    return out
