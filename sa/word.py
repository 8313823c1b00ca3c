"""The version word of a node (nodeversion.hh): what each primitive does to it, bit by bit."""
import re
from engine import *
from serve import Facts
from rcu import finding, findings
from bits import bits, boolean, zeros, isbit
from readers import field

TUS = ["mtd.cc"]
NAMES = ("lock|unlock|try_lock|stable|stable_annotated|has_changed|has_split|simple_has_split|mark_.*|assign_version|is_root|deleted|isleaf|"
         "locked|inserting|splitting|version_value|unlocked_version_value|nodeversion")
SPEC = "root nodeversion::(%s)\nkeep (fence|acquire_fence|release_fence|relax_fence|compiler_barrier)\nerase threadinfo::mark\n" % NAMES
DEBUG = False
FENCE = ("fence", "acquire_fence")


class WordMon(Facts):
    """summarises every path: reads and writes of the word, fences, facts, result"""
    width = 24
    pure = (r".*",)

    def init(self, eng, st):
        pr = eng.fn.prog
        self.off = field(pr, "nodeversion", "v_")
        if self.off is None:
            raise LookupError("nodeversion::v_ not found")
        eng.paths = []
        return frozenset((("pre",),)) - frozenset((("pre",),))

    def at(self, eng, a):
        b, o = baseoff(a)
        return b is eng.argt[0] and o == self.off

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load" and self.at(eng, kw["addr"]):
            self.add(st, "w", kw["val"])
            if self.get(st, "fen"):
                self.add(st, "fl", kw["val"])
            self.add(st, "ld", kw["val"])
        elif kind == "store" and self.at(eng, kw["addr"]):
            n = len([z for z in st.mon if z[0] == "st"])
            if n > 1:
                eng.report("word-store", ins, "the word is stored more than once", key="twice")
            self.add(st, "st", n, kw["val"], self.get(st, "rel") is not None)
            self.drop(st, "acq")
            eng.count("stores", ins)
        elif kind in ("store", "load") and kw.get("addr") is not None and rootof(kw["addr"]) is eng.argt[0]:
            eng.report("word-store", ins, "memory outside the word is accessed", key="other")
        elif kind == "cmpxchg" and self.at(eng, kw["addr"]):
            self.drop(st, "cas")
            self.add(st, "cas", kw["old"], kw["exp"], kw["new"])
            eng.count("compare and swap operations", ins)
        elif kind == "rmw" and self.at(eng, kw["addr"]):
            t = {"or": "or", "and": "and", "xor": "xor", "add": "add"}.get(kw["op"])
            if not t:
                eng.report("word-store", ins, "an atomic %s changes the word" % kw["op"], key="rmw")
                return
            self.add(st, "w", kw["old"])
            self.add(st, "st", len([z for z in st.mon if z[0] == "st"]), binop(t, self.w(eng), kw["old"], kw["val"]), True)
            self.add(st, "acq")
        elif kind == "fence" or kind == "call" and kw["q"].split("::")[-1] in ("fence", "acquire_fence", "release_fence"):
            self.add(st, "rel")
            self.add(st, "fen")
            if kind == "fence" or kw["q"].split("::")[-1] in FENCE:
                self.add(st, "acq")
                for z in list(st.mon):
                    if z[0] == "ld":
                        self.add(st, "fenced", z[1])
        elif kind == "ret":
            eng.count("paths", ins)
            eng.paths.append((st.mon, kw.get("val"), ins))

    def w(self, eng):
        return 32

    def merge(self, eng, st, ins):
        """forgets what concerns words no longer held"""
        live = set()
        for t in st.env.values():
            live |= t.syms
        for v, z in st.cells.values():
            live |= v.syms
        for z in st.mon:
            if z[0] in ("st", "won", "cas"):
                for t in z:
                    if t.__class__ is T:
                        live |= t.syms
        st.mon = frozenset(z for z in st.mon if z[0] in ("st", "won", "cas") or all(t.syms <= live for t in z if t.__class__ is T))

    def assume(self, eng, st, cond, val):
        c, v = cond, val
        while c.k == "not":
            c, v = c.a[0], not v
        if c.k == "xv":
            for z in st.mon:
                if z[0] == "cas" and c.a[0] is z[1]:
                    if v:
                        self.add(st, "won", z[2], z[3])
                    else:
                        self.drop(st, "cas")
                    return
        self.add(st, "f", cond, bool(val))


class Path:
    def __init__(self, mon, val, ins, args, w):
        self.mon, self.val, self.ins, self.w = mon, val, ins, w
        self.words = {z[1] for z in mon if z[0] == "w"}
        self.args = args
        self.stores = [z[2:] for z in sorted((z for z in mon if z[0] == "st"), key=lambda z: z[1])]
        self.won = [z[1:] for z in mon if z[0] == "won"]
        self.acq = any(z[0] == "acq" for z in mon)
        self.known = {}
        self.facts = [z[1:] for z in mon if z[0] == "f"]
        self.conflict = False
        for _ in range(2):
            for c, v in self.facts:
                z, o = zeros(c, v, self.known)
                for e, b in [(e, 0) for e in z] + [(e, 1) for e in o]:
                    if e[0] == "v":
                        if self.known.get((e[1], e[2]), b) != b:
                            self.conflict = True
                        self.known[(e[1], e[2])] = b

    def bits(self, t, extra=None):
        k = dict(self.known)
        if extra:
            k.update(extra)
        return bits(t, self.w, k)

    def raw(self, t):
        return bits(t, self.w)

    def src(self, entries):
        """the values the entries come from"""
        r = set()
        for e in entries:
            while e.__class__ is tuple and e[0] == "n":
                e = e[1]
            if e.__class__ is tuple and e[0] in ("v", "+", "o"):
                r.add(e[1])
        return r


def word_of(p, entries):
    s = p.src(entries)
    if len(s) != 1:
        return None
    t = s.pop()
    return t if t in p.words or t in p.args else None


def held(t, p, r):
    """the words the term is computed from"""
    if t in p.words or t in p.args:
        r.add(t)
    elif t.__class__ is T:
        for x in t.a:
            if x.__class__ is T:
                held(x, p, r)


def sets(p, entries):
    """(word, bits set, bits cleared) of word | mask & ~clear, or None"""
    w = word_of(p, entries)
    if w is None:
        return None
    s, c = set(), set()
    for i, e in enumerate(entries):
        if isbit(e):
            if p.known.get((w, i)) != e:
                (s if e else c).add(i)
        elif e != ("v", w, i):
            return None
    return w, s, c


def agreed(p, extra=None):
    """per bit: the two words compared on this path agree there"""
    pairs = {}
    for c, v in p.facts + (extra or []):
        z, _ = zeros(c, v)
        for e in z:
            if e[0] == "x" and e[1][0] == "v" and e[2][0] == "v" and e[1][2] == e[2][2]:
                pairs.setdefault(frozenset((e[1][1], e[2][1])), set()).add(e[1][2])
    return pairs


def word(tier):
    import build
    import ir
    import engine
    prog = ir.Program(build.export("word", TUS, SPEC))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    cls = {}
    for k, f in enumerate(prog.raw):
        if not re.fullmatch(r"nodeversion::(%s)" % NAMES, f["q"]):
            continue
        fn = prog.fn(k)
        e = engine.Engine(fn, WordMon(), maxtime=60, tracked_args=False)
        e.run()
        out["steps"] += e.steps
        out["findings"] += findings(e, fn)
        for c, v in e.counts.items():
            out["counts"].setdefault(c, []).extend(v)
        inst = fn.dem.split("::")[0] if "::" in fn.dem else ""
        m = re.match(r"(nodeversion<.*?>)\s*(?:::|\()", fn.dem.replace("> >", ">>"))
        inst = re.sub(r">+::.*", ">", fn.dem)[:200]
        inst = "64" if "unsigned long" in inst.split("::")[0] else "32"
        w = int(inst)
        ps = [Path(mon, val, ins, e.argt[1:], w) for mon, val, ins in e.paths]
        cls.setdefault(inst, {}).setdefault(f["q"].split("::")[-1], []).append((fn, [p for p in ps if not p.conflict]))
    for inst in sorted(cls):
        Rules(inst, cls[inst], out).run()
    if "32" not in cls:
        raise LookupError("the version word's primitives were not found")
    return out


class Rules:
    def __init__(self, inst, fns, out):
        self.w, self.fns, self.out = int(inst), fns, out

    def bad(self, fn, p, rule, msg):
        if DEBUG and p:
            print(fn.dem, msg, p.facts, p.known, p.val, p.won)
        self.out["findings"].append(finding(fn, p.ins if p else None, rule, msg, key=fn.q.split("::")[-1]))

    def ok(self, what, fn):
        self.out["counts"].setdefault(what, []).append("%s:%s %s" % (fn.file, fn.line, fn.dem[:120]))

    def each(self, *names):
        for n in names:
            for fn, ps in self.fns.get(n, ()):
                for p in ps:
                    yield n, fn, p

    def require(self, *names):
        for n in names:
            if n not in self.fns:
                raise LookupError("nodeversion::%s was not found" % n)

    def run(self):
        self.require("lock", "unlock", "mark_insert", "mark_split", "mark_deleted", "has_changed", "has_split", "stable_annotated")
        self.locks()
        if self.L is None:
            return
        self.marks()
        if None in (self.I, self.S, self.D):
            return
        self.unlocks()
        self.readers()
        self.tests()

    # ---- taking the lock ----
    def locks(self):
        self.L = None
        for n, fn, p in self.each("lock", "try_lock"):
            if p.stores:
                self.bad(fn, p, "word-lock", "the word is stored without a compare and swap")
                continue
            if n == "try_lock":
                r = boolean(p.val) if p.val is not None else None
                pend = [z for z in p.mon if z[0] == "cas"]
                if p.val is not None and p.val.k in ("xv", "zext") and pend and not p.won:
                    won = [pend[0][2:]]
                elif isbit(r):
                    won = p.won
                    if r == 1 and not won:
                        self.bad(fn, p, "word-lock", "success is reported although the lock was not taken")
                        continue
                    if r == 0:
                        if won:
                            self.bad(fn, p, "word-lock", "failure is reported although the lock was taken")
                        continue
                else:
                    self.bad(fn, p, "word-lock", "what is reported does not depend on whether the lock was taken")
                    continue
            else:
                won = p.won
            if not won:
                self.bad(fn, p, "word-lock", "returns without having swapped a locked word in")
                continue
            exp, new = won[-1]
            e = sets(p, p.bits(new))
            x = p.bits(exp)
            if e is None or len(e[1]) != 1 or e[2] or e[0] is not exp:
                self.bad(fn, p, "word-lock", "the word swapped in is not the expected word with the lock bit")
                continue
            b = next(iter(e[1]))
            if self.L is None:
                self.L = b
            if b != self.L:
                self.bad(fn, p, "word-lock", "another bit than bit %d is set" % self.L)
                continue
            if not (isbit(x[b]) and x[b] == 0):
                self.bad(fn, p, "word-lock", "the word that is replaced may already be locked")
                continue
            if n == "lock":
                r = sets(p, p.bits(p.val)) if p.val is not None else None
                if p.val is None or r is None or r[0] is not exp or r[1] != {b} or r[2]:
                    self.bad(fn, p, "word-lock", "the version returned is not the locked word")
                    continue
            self.ok("lock operations", fn)

    # ---- marks ----
    def mark(self, name):
        """(set, cleared) for a mark function; None after a finding"""
        r = None
        for n, fn, p in self.each(name):
            if len(p.stores) != 1:
                self.bad(fn, p, "word-mark", "the word is not stored exactly once")
                return None
            e = sets(p, p.bits(p.stores[0][0]))
            if e is None:
                self.bad(fn, p, "word-mark", "the word stored is not the old word with bits added or removed")
                return None
            if not p.acq:
                self.bad(fn, p, "word-mark", "no fence follows the mark")
                return None
            e = (frozenset(e[1]), frozenset(e[2]))
            if r is not None and e != r:
                self.bad(fn, p, "word-mark", "the mark depends on the path")
                return None
            r = e
            self.ok("mark operations", fn)
        return r

    def marks(self):
        self.I = self.S = self.D = self.R = None
        m = {n: self.mark(n) for n in ("mark_insert", "mark_split", "mark_deleted", "mark_deleted_tree", "mark_root", "mark_nonroot") if n in self.fns}

        def one(n, less=()):
            if m.get(n) is None:
                return None
            s = m[n][0] - frozenset(less)
            fn = self.fns[n][0][0]
            if len(s) != 1 or m[n][1] or self.L in m[n][0]:
                self.bad(fn, None, "word-mark", "does not set exactly its own bit")
                return None
            return next(iter(s))
        self.I = one("mark_insert")
        self.S = one("mark_split")
        if self.I is not None and self.I == self.S:
            self.bad(self.fns["mark_split"][0][0], None, "word-mark", "sets the same bit as mark_insert")
            self.S = None
        if self.S is None:
            return
        if m.get("mark_deleted") is not None and self.S not in m["mark_deleted"][0]:
            self.bad(self.fns["mark_deleted"][0][0], None, "word-mark", "does not announce a split: readers would not retry")
            return
        self.D = one("mark_deleted", (self.S,))
        if "mark_root" in m:
            self.R = one("mark_root")
        if "mark_deleted_tree" in m and self.D is not None and one("mark_deleted_tree") not in (None, self.D):
            self.bad(self.fns["mark_deleted_tree"][0][0], None, "word-mark", "sets another bit than mark_deleted")
        if m.get("mark_nonroot") is not None and m["mark_nonroot"] != (frozenset(), frozenset((self.R,))):
            self.bad(self.fns["mark_nonroot"][0][0], None, "word-mark", "does not clear exactly the root bit")
        if len({self.L, self.I, self.S, self.D, self.R}) != 5:
            self.bad(self.fns["mark_insert"][0][0], None, "word-mark", "two states share a bit")
            self.D = None

    # ---- releasing the lock ----
    def unlocks(self):
        self.count = {}
        cases = []
        for n, fn, p in self.each("unlock"):
            if len(p.stores) != 1:
                self.bad(fn, p, "word-unlock", "the word is not stored exactly once")
                continue
            val, rel = p.stores[0]
            if not rel:
                self.bad(fn, p, "word-unlock", "no fence precedes the release")
                continue
            ws = set()
            held(val, p, ws)
            w = ws.pop() if len(ws) == 1 else None
            if w is None:
                self.bad(fn, p, "word-unlock", "the word stored does not come from the locked word")
                continue
            for i in (0, 1):
                for s in (0, 1):
                    k = {(w, self.L): 1, (w, self.I): i, (w, self.S): s}
                    if any(p.known.get(x, v) != v for x, v in k.items()):
                        continue
                    cases.append((fn, p, w, i, s, k, val))
        if not cases:
            return
        zero = None
        for fn, p, w, i, s, k, val in cases:
            z = {j for j, e in enumerate(p.bits(val, k)) if isbit(e) and e == 0}
            zero = z if zero is None else zero & z
        zero -= {self.L, self.I, self.S}
        self.cmask = {0: set(range(self.w)), 1: set(range(self.w))}
        for fn, p, w, i, s, k, val in cases:
            k = dict(k)
            k.update({(w, j): 0 for j in zero})
            e = p.bits(val, k)
            what = "after a split" if s else "after an insertion" if i else "without a mark"
            for b, t in ((self.L, "locked"), (self.I, "marked as changing"), (self.S, "marked as splitting")):
                if not (isbit(e[b]) and e[b] == 0):
                    self.bad(fn, p, "word-unlock", "%s the word stays %s" % (what, t))
                    break
            else:
                keep = {b for b in range(self.w) if e[b] == ("v", w, b)}
                if self.D not in keep:
                    self.bad(fn, p, "word-unlock", "%s the word does not keep its deleted bit" % what)
                    continue
                if self.R is not None:
                    if s and not (isbit(e[self.R]) and e[self.R] == 0):
                        self.bad(fn, p, "word-unlock", "after a split the node still passes for a layer's root")
                        continue
                    if not s and self.R not in keep:
                        self.bad(fn, p, "word-unlock", "%s the word does not keep its root bit" % what)
                        continue
                lf = self.leafbit()
                if lf is not None and lf not in keep:
                    self.bad(fn, p, "word-unlock", "%s the word does not keep its kind" % what)
                    continue
                if i or s:
                    f = [b for b in range(self.w) if e[b].__class__ is tuple and e[b][0] == "+" and e[b][1] is w]
                    ks = {e[b][2] for b in f}
                    if len(ks) != 1 or f != list(range(min(f), min(f) + len(f))) or f[0] != min(ks) or len(f) < 16:
                        self.bad(fn, p, "word-unlock", "%s the word's counter does not advance" % what)
                        continue
                    c = self.count.setdefault(s, set(f))
                    c &= set(f)
                    # what lies below the part that was stepped starts over, what lies above is untouched
                    rest = [b for b in range(self.w) if b not in f and b not in keep and not (isbit(e[b]) and e[b] == 0)]
                    if rest:
                        self.bad(fn, p, "word-unlock", "%s bit %d of the word is garbage" % (what, rest[0]))
                        continue
                elif any(e[b] != ("v", w, b) and not (isbit(e[b]) and e[b] == 0) for b in range(self.w)):
                    self.bad(fn, p, "word-unlock", "%s the word is not restored" % what)
                    continue
                self.ok("unlock cases", fn)
        if 0 in self.count and 1 in self.count and not self.count[1] <= self.count[0]:
            self.bad(cases[0][0], cases[0][1], "word-unlock", "insertions and splits are not counted in one number", )

    def leafbit(self):
        r = None
        for n, fn, p in self.each("isleaf"):
            b = self.test(p)
            if b is not None:
                r = b
        return r

    # ---- readers ----
    def compares(self, names, rule, need, text, fenced):
        for n, fn, p in self.each(*names):
            r = boolean(p.val)
            if isbit(r) and r == 1:
                continue
            extra = [] if isbit(r) else [(p.val, False)]
            pairs = agreed(p, extra)
            good = None
            for k, v in pairs.items():
                if any(t in p.words for t in k) and any(t in p.args for t in k):
                    good = (k, v)
            if good is None:
                self.bad(fn, p, rule, "'unchanged' is answered without comparing the word with the earlier one")
                continue
            miss = sorted(b for b in need if b not in good[1])
            if miss:
                self.bad(fn, p, rule, text % miss[0])
                continue
            if fenced and not any(z[0] == "fl" and z[1] in good[0] for z in p.mon):
                self.bad(fn, p, rule, "the word may be read before the reads it is to validate")
                continue
            self.ok("comparisons", fn)

    def readers(self):
        if 0 not in self.count or 1 not in self.count:
            return
        need = {self.I, self.S, self.D} | self.count[0] | self.count[1] | ({self.R} - {None})
        self.compares(("has_changed",), "word-changed", need, "a change of bit %d is not noticed", True)
        self.compares(("has_split",), "word-split", self.count[1], "a step of the split counter in bit %d is not noticed", False)
        for n, fn, p in self.each("stable", "stable_annotated"):
            if p.stores or p.won:
                self.bad(fn, p, "word-stable", "a reader changes the word")
                continue
            v = p.raw(p.val) if p.val is not None else None
            w = word_of(p, v) if v else None
            if w is None or w not in p.words or any(e != ("v", w, b) for b, e in enumerate(v)):
                self.bad(fn, p, "word-stable", "what is returned is not the word as read")
                continue
            for b in (self.I, self.S):
                if p.known.get((w, b)) != 0:
                    self.bad(fn, p, "word-stable", "a word with bit %d set, of a node that is being changed, is returned as stable" % b)
                    break
            else:
                if not any(z[0] == "fenced" and z[1] is w for z in p.mon):
                    self.bad(fn, p, "word-stable", "later reads may be taken before the word")
                    continue
                self.ok("stable reads", fn)

    def test(self, p):
        """the bit a predicate tests"""
        r = boolean(p.val)
        if isbit(r):
            k = [(t, b) for (t, b), v in p.known.items() if v == r and t in p.words]
            return k[0][1] if len(k) == 1 else None
        if r is not None and r[0] == "v" and r[1] in p.words:
            return r[2]
        return None

    def tests(self):
        for names, b, t in ((("locked",), self.L, "lock"), (("inserting",), self.I, "insertion"), (("splitting",), self.S, "split"),
                            (("deleted",), self.D, "deletion"), (("is_root",), self.R, "root")):
            for n, fn, p in self.each(*names):
                if b is not None and self.test(p) != b:
                    self.bad(fn, p, "word-test", "does not test the %s bit" % t)
                else:
                    self.ok("tests", fn)
        lf = {self.test(p) for n, fn, p in self.each("isleaf")}
        if len(lf) == 1:
            b = lf.pop()
            if b is None or b in (self.L, self.I, self.S, self.D, self.R) or b in self.count.get(0, ()):
                fn = self.fns["isleaf"][0][0]
                self.bad(fn, None, "word-test", "does not test a bit of its own")
        for n, fn, p in self.each("assign_version"):
            if len(p.stores) != 1 or p.raw(p.stores[0][0]) != p.raw(p.args[0]):
                self.bad(fn, p, "word-copy", "the word is not copied")
            else:
                self.ok("copies", fn)
        for n, fn, p in self.each("version_value"):
            v = p.raw(p.val)
            w = word_of(p, v)
            if w is None or any(e != ("v", w, b) for b, e in enumerate(v)):
                self.bad(fn, p, "word-copy", "the value returned is not the word")
        for n, fn, p in self.each("unlocked_version_value"):
            v = p.raw(p.val)
            w = word_of(p, v)
            need = self.count.get(0, set()) | {self.D}
            if w is None or any(v[b] != ("v", w, b) for b in need) or any(not (isbit(v[b]) and v[b] == 0) for b in (self.L, self.I, self.S)):
                self.bad(fn, p, "word-copy", "the value returned is not the word without its lock and marks")
