"""The order word of a leaf (kpermuter.hh): where each operation puts each slot number, nibble by nibble."""
import os
import re
from engine import *
from serve import Facts
from rcu import finding, findings
from bits import bits, boolean, isbit, Memo

TUS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "probes", "kpermuter.cc")]
NAMES = ("insert_from_back|insert_selected|remove|remove_to_back|rotate|exchange|set_size|make_empty|make_sorted|size|back|value|value_from|operator\\[\\]|operator==|operator!=|kpermuter")
SPEC = "root kpermuter::(%s)\n" % NAMES


class PermMon(Facts):
    """summarises every path: the word at entry and at exit, facts, result"""
    width = 12
    pure = (r".*",)
    aborts = False

    def __init__(self, case=None):
        self.exact = case is not None
        self.case = case            # (arguments, size, first argument, bits): one case instead of all

    def init(self, eng, st):
        eng.paths = []
        if self.case:
            for k, v in enumerate(self.case[0]):
                st.env[self.case[2] + k] = C(v, 32)
        return frozenset()

    def decide(self, st, cond):
        """the truth value in the case analysed"""
        w = next((z[1] for z in st.mon if z[0] == "in"), None)
        sub = Memo()
        if w is not None:
            sub[w] = [self.case[1] >> i & 1 for i in range(4)] + [("v", "p", i) for i in range(4, self.case[3])]
        return boolean(cond, None, sub)

    def event(self, eng, st, ins, kind, **kw):
        if kind in ("load", "store") and kw["addr"] is not None:
            b, o = baseoff(kw["addr"])
            if b.k != "al" and (not eng.argt or b is not eng.argt[0] or o) and kind == "store":
                eng.report("perm-store", ins, "memory other than the order word is changed", key="other")
                return
            if b.k == "al" or not eng.argt or b is not eng.argt[0] or o:
                return
            if kind == "load" and not self.get(st, "out"):
                self.add(st, "in", kw["val"])
            if kind == "store":
                self.drop(st, "out")
                self.add(st, "out", kw["val"])
        elif kind == "ret":
            eng.paths.append((st.mon, kw.get("val"), ins))

    def assume(self, eng, st, cond, val):
        if self.case:
            b = self.decide(st, cond)
            if isbit(b):
                return None if b == int(val) else False
        self.add(st, "f", cond, bool(val))


def number(e):
    return sum(b << i for i, b in enumerate(e)) if all(isbit(b) for b in e) else None


class Case:
    """one function at one width, size and index: the only feasible path's result"""
    def __init__(self, w, bits_, mon, val, args, vals, size):
        self.w, self.val, self.word = w, val, None
        self.sub = Memo({a: [v >> i & 1 for i in range(32)] for a, v in zip(args, vals)})
        self.ok = True
        for z in mon:
            if z[0] == "in":
                self.word = z[1]
                self.sub[z[1]] = [size >> i & 1 for i in range(4)] + [("v", "p", i) for i in range(4, bits_)]
        self.bits = bits_
        self.out = next((z[1] for z in mon if z[0] == "out"), None)
        for z in mon:
            if z[0] == "f":
                b = boolean(z[1], None, self.sub)
                if isbit(b) and b != int(z[2]):
                    self.ok = False
        self.open = [z for z in mon if z[0] == "f" and not isbit(boolean(z[1], None, self.sub))]

    def slots(self, t, first=4):
        """position of the old word each position of the new one comes from; None: neither one"""
        return nibbles(bits(t, self.bits, None, self.sub), self.w)

    def head(self, t):
        return number(bits(t, self.bits, None, self.sub)[:4])


def nibbles(e, w):
    r = []
    for j in range(w):
        n = e[4 * j + 4:4 * j + 8]
        if number(n) is not None:
            r.append(("c", number(n)))
        elif all(x.__class__ is tuple and x[0] == "v" and x[2] == n[0][2] + k for k, x in enumerate(n)) and n[0][2] % 4 == 0:
            r.append(n[0][2] // 4 - 1)
        else:
            r.append(None)
    return r


# name: (arguments (w, n), new size, element at each position or None, result position or None)
def spec(name, w):
    """yields (arguments, size, new size, expected positions (None: any), result)"""
    if name == "insert_from_back":
        for n in range(w):
            for i in range(n + 1):
                yield (i,), n, n + 1, list(range(i)) + [w - 1] + list(range(i, n)) + [None] * (w - n - 1), w - 1
    elif name == "insert_selected":
        for n in range(w):
            for si in range(n, w):
                for di in range(n + 1):
                    yield (di, si), n, n + 1, list(range(di)) + [si] + list(range(di, n)) + [None] * (w - n - 1), None
    elif name == "remove":
        for n in range(1, w + 1):
            for i in range(n):
                yield (i,), n, n - 1, list(range(i)) + list(range(i + 1, n)) + [i] + [None] * (w - n), None
    elif name == "remove_to_back":
        for n in range(1, w + 1):
            for i in range(n):
                yield (i,), n, n - 1, list(range(i)) + list(range(i + 1, w)) + [i], None
    elif name == "exchange":
        for n in range(w + 1):
            for i in range(w):
                for j in range(w):
                    r = list(range(w))
                    r[i], r[j] = j, i
                    yield (i, j), n, n, r, None
    elif name == "rotate":
        for n in range(w + 1):
            for i in range(n + 1):
                for j in range(i, n + 1):
                    yield (i, j), n, n, None, None
    elif name == "set_size":
        for n in range(w + 1):
            for m in range(w + 1):
                yield (m,), n, m, list(range(w)), None


def loops(fn):
    """a block that can reach itself"""
    seen, path = set(), set()

    def go(b):
        if b in path:
            return True
        if b in seen:
            return False
        seen.add(b)
        path.add(b)
        r = any(go(x) for x in fn.blocks[b][-1].d.get("s", ()))
        path.discard(b)
        return r
    return go(0)


def perm(tier):
    import build
    import ir
    import engine
    prog = ir.Program(build.export("perm", TUS, SPEC))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    seen = {}
    for k, f in enumerate(prog.raw):
        if not re.fullmatch(r"kpermuter::(%s)" % NAMES, f["q"]):
            continue
        fn = prog.fn(k)
        m = re.search(r"kpermuter<(\d+)>", fn.dem)
        w = int(m.group(1))
        if tier == "quick" and w not in (3, 7, 8, 14, 15):
            continue
        name = f["q"].split("::")[-1]
        e = engine.Engine(fn, PermMon(), maxtime=60)
        if loops(fn):
            e.paths = None          # decided case by case
            e.argt = [mk("arg", k, a[0] or str(k)) for k, a in enumerate(fn.args)]
        else:
            e.run()
        out["steps"] += e.steps
        out["blocks"] += len(fn.blocks)
        out["findings"] += findings(e, fn)
        seen.setdefault(name, set()).add(w)
        Rules(name, w, fn, e, out).run()
    for n in ("insert_from_back", "remove", "remove_to_back", "exchange", "set_size", "make_empty", "make_sorted", "size", "back", "operator[]"):
        if 15 not in seen.get(n, ()):
            raise LookupError("kpermuter<15>::%s was not found" % n)
    return out


class Rules:
    def __init__(self, name, w, fn, e, out):
        self.name, self.w, self.fn, self.e, self.out = name, w, fn, e, out
        self.bits = 16 if w <= 3 else 32 if w <= 7 else 64
        self.failed = False

    def bad(self, ins, rule, msg):
        if not self.failed:
            self.out["findings"].append(finding(self.fn, ins, rule, msg, key="%s:%s" % (self.name, rule)))
        self.failed = True

    def ok(self, what):
        self.out["counts"].setdefault(what, []).append("%s:%s %s" % (self.fn.file, self.fn.line, self.fn.dem[:120]))

    def cases(self, vals, n, method=True):
        """the feasible paths for these arguments and this size"""
        args = self.e.argt[1:] if method else self.e.argt
        r = []
        paths = self.e.paths
        if paths is None:
            import engine
            e = engine.Engine(self.fn, PermMon((vals, n, 1 if method else 0, self.bits)), maxtime=60, width=40)
            e.run()
            self.out["steps"] += e.steps
            self.out["findings"] += findings(e, self.fn)
            paths = e.paths
        for mon, val, ins in paths:
            c = Case(self.w, self.bits, mon, val, args, vals, n)
            if c.ok:
                r.append((c, ins))
        return r

    def run(self):
        w, nm = self.w, self.name
        if nm in ("insert_from_back", "insert_selected", "remove", "remove_to_back", "exchange", "rotate", "set_size"):
            self.updates()
        elif nm in ("make_empty", "make_sorted"):
            for n in range(0, w + 1) if nm == "make_sorted" else (0,):
                for c, ins in self.cases((n,), 0, False):
                    e = bits(c.val, self.bits, None, c.sub) if c.val is not None else [None] * 64
                    p = nibbles(e, w)
                    if number(e[:4]) != n:
                        self.bad(ins, "perm-start", "size %d: the new order word has another size" % n)
                    elif p[:n] != [("c", j) for j in range(n)]:
                        self.bad(ins, "perm-start", "size %d: the slots in use are not in order" % n)
                    elif sorted(map(repr, p)) != sorted(repr(("c", j)) for j in range(w)):
                        self.bad(ins, "perm-start", "size %d: not every slot is named exactly once" % n)
                    elif nm == "make_sorted" and p[n:] != [("c", j) for j in range(w - 1, n - 1, -1)] or nm == "make_empty" and p != [("c", j) for j in range(w - 1, -1, -1)]:
                        self.bad(ins, "perm-start", "size %d: free slots are not handed out in ascending order" % n)
                    else:
                        self.ok("initial words")
        elif nm in ("operator[]", "back", "size"):
            static = nm == "size" and len(self.e.argt) == 1 and "size(unsigned" in self.fn.dem
            for n in range(w + 1):
                for i in range(w) if nm == "operator[]" else (w - 1,):
                    for c, ins in self.cases((i,) if nm == "operator[]" else (), n):
                        if static:
                            c.sub[self.e.argt[0]] = [n >> b & 1 for b in range(4)] + [("v", "p", b) for b in range(4, self.bits)]
                        e = bits(c.val, 32, None, c.sub)
                        want = [n >> b & 1 for b in range(4)] if nm == "size" else [("v", "p", 4 * i + 4 + b) for b in range(4)]
                        if e[:4] != want or any(not isbit(b) or b for b in e[4:]):
                            self.bad(ins, "perm-read", "does not return %s" % ("the size" if nm == "size" else "the slot at position %s" % (i if nm != "back" else "width - 1")))
                        else:
                            self.ok("reads")
                        if c.out is not None:
                            self.bad(ins, "perm-read", "changes the order word")
        elif nm == "value_from":
            for i in range(w):
                for c, ins in self.cases((i,), 0):
                    e = bits(c.val, self.bits, None, c.sub)
                    if e[:4 * (w - i)] != [("v", "p", 4 * i + 4 + b) for b in range(4 * (w - i))]:
                        self.bad(ins, "perm-read", "does not return the positions from %d" % i)
                    else:
                        self.ok("reads")
        elif nm == "value":
            for c, ins in self.cases((), 0):
                if c.val is not c.word:
                    self.bad(ins, "perm-read", "does not return the order word")
                else:
                    self.ok("reads")

    def updates(self):
        w, nm = self.w, self.name
        for vals, n, size, want, res in spec(nm, w):
            if nm == "rotate":
                i, j = vals
                # positions from i on are rotated left by j - i within the width
                want = list(range(i)) + [i + (k - i + j - i) % (w - i) for k in range(i, w)] if i < w else list(range(w))
            cs = self.cases(vals, n)
            at = "size %d, %s: " % (n, ", ".join("index %d" % v for v in vals))
            if not cs:
                continue
            for c, ins in cs:
                if c.out is None:
                    if size == n and want == list(range(w)):
                        self.ok("updates")
                        continue
                    self.bad(ins, "perm-update", at + "the order word is not changed")
                    return
                p = c.slots(c.out)
                if c.head(c.out) != size:
                    self.bad(ins, "perm-update", at + "the new size is not %d" % size)
                    return
                lost = [j for j in range(w) if j not in p]
                if lost:
                    self.bad(ins, "perm-update", at + "slot of position %d is lost (another is named twice)" % lost[0])
                    return
                diff = [j for j in range(w) if want[j] is not None and p[j] != want[j]]
                if diff:
                    self.bad(ins, "perm-update", at + "position %d does not hold the slot formerly at position %d" % (diff[0], want[diff[0]]))
                    return
                if res is not None:
                    e = bits(c.val, 32, None, c.sub) if c.val is not None else []
                    if e[:4] != [("v", "p", 4 * res + 4 + b) for b in range(4)] or any(not isbit(b) or b for b in e[4:]):
                        self.bad(ins, "perm-update", at + "does not return the slot that was inserted")
                        return
                self.ok("updates")
