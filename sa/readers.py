"""Rules over the lock-free lookup, scan and descent code."""
from engine import *
import tree
from tree import nv, nodefield, PURE


def orphan(y):
    return bool(y.syms) and all(s.a[0].__class__ is tuple and s.a[0][0] == "t" for s in y.syms)

SPEC_READ = r"""
keep nodeversion::(lock|unlock|try_lock|stable|stable_annotated|has_changed|has_split|simple_has_split|mark_.*|assign_version|is_root|deleted|isleaf|locked|inserting|splitting|version_value|unlocked_version_value)
keep threadinfo::.*
keep (fence|acquire_fence|release_fence|relax_fence|compiler_barrier)
keep fail_.*
keep .*::visit_(value|leaf)
keep string_slice::.*
keep stringbag::.*
keep key_.*_binary::.*
keep key_.*_linear::.*
keep Masstree::leaf::ksuf.*
keep Masstree::(leaf|internode)::stable_last_key_compare
keep Masstree::node_base::reach_leaf
keep Masstree::leaf::advance_to_key
keep kpermuter::operator\[\]
keep small_vector::.*
erase threadinfo::mark
erase prefetch
erase value_prefetcher::.*
erase Masstree::leaf::prefetch
erase Masstree::internode::prefetch
erase Masstree::leafvalue::prefetch
erase Masstree::node_base::prefetch_full
"""

DESCENT = ("Masstree::node_base::reach_leaf", "Masstree::leaf::advance_to_key")


class ReadMon(Monitor):
    """lock-free code uses what it read from a node only after it re-checked that the
    node still has the version it had before the reads.
    mon holds ('ver',n,v) v = stable version of n; ('ld',t,n,v) t read from n under v
    and not validated; ('rd',n,v) reads of n since v are not validated; ('hc',r,n,v);
    ('dq',r,v) r = deleted(v); ('al',v) v known not deleted"""
    pure = PURE + (r".*::visit_leaf", r"small_vector::(back|empty|size)", r"Masstree::.*::stable_last_key_compare", r"kpermuter::.*")
    width = 4
    mode = "get"

    def init(self, eng, st):
        return frozenset()

    def node(self, eng, st, a):
        r = rootof(a)
        return r if r.k in ("sym", "arg", "ptr", "select") else None

    def cur(self, st, n):
        for z in st.mon:
            if z[0] == "ver" and z[1] is n:
                return z[2]
        return None

    def version(self, eng, st, ins, n, v, restart):
        m = {z for z in st.mon if not (z[0] == "ver" and (restart or z[1] is n)) and not (z[0] == "rd" and (restart or z[1] is n)) and z[0] != "hc"}
        m.add(("ver", n, v))
        st.mon = frozenset(m)

    def read(self, eng, st, n, t):
        v = self.cur(st, n)
        if v is None:
            v = FALSE
        m = set(st.mon)
        m.add(("rd", n, v))
        if t is not None and not isc(t):
            m.add(("ld", t, n, v))
        st.mon = frozenset(m)

    def bad(self, st, t):
        """unvalidated value t depends on"""
        for z in st.mon:
            if z[0] == "ld" and z[1] in t.syms:
                return z
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            f = nodefield(kw["addr"])
            if f and f[0].k not in ("al",):
                n, fld = f
                fld = fld.split("/")[0]
                if fld in ("next_", "prev_", "parent_"):
                    return None
                eng.count("node reads", ins)
                self.read(eng, st, n, kw["val"])
        elif kind == "mem":
            t = kw.get("src")
            f = nodefield(t) if t.__class__ is T else None
            if f and f[0].k != "al" and f[1].split("/")[0] not in ("next_", "prev_", "parent_"):
                eng.count("node reads", ins)
                self.read(eng, st, f[0], None)
            self.bytes(eng, st, ins, (t,))
        elif kind == "call":
            r = self.call(eng, st, ins, **kw)
            if r is None and not kw["q"].startswith(("threadinfo::", "kpermuter::", "small_vector::")) and not nv(kw["q"]):
                self.bytes(eng, st, ins, kw["args"])
                if kw["q"] == "Masstree::leaf::ksuf" and kw["val"] is not None:
                    st.mon = st.mon | {("sfx", kw["val"], rootof(kw["args"][0]))}
            return r
        elif kind == "ret":
            return self.ret(eng, st, ins, kw["val"])
        return None

    def bytes(self, eng, st, ins, ts):
        """the bytes of a key suffix are read: they lie in the node too"""
        for z in st.mon:
            if z[0] == "sfx" and any(t.__class__ is T and rootof(t) is xv(z[1], (0,)) for t in ts):
                eng.count("suffix reads", ins)
                self.read(eng, st, z[2], None)

    def call(self, eng, st, ins, q, args, val):
        m = nv(q)
        if q in DESCENT:
            eng.count("descents", ins)
            z = self.bad(st, rootof(args[0])) if q == DESCENT[0] else None
            if z:
                eng.report("unvalidated-link", ins, "descends into a subtree whose address was read from %s and not re-validated" % show(z[2]), st)
                return False
            v = mk("sym", ("ver",) + ins.key, 0, "v")
            if not eng.tracked(args[2]):
                return None
            eng.store(st, args[2], v, 4)
            st.nn.add(val)
            self.version(eng, st, ins, val, v, True)
        elif m in ("stable", "stable_annotated"):
            n = args[0]
            if rootof(n).k == "al":
                return None
            self.version(eng, st, ins, n, val, False)
        elif m == "has_changed":
            n, v = args[0], args[1]
            st.mon = st.mon | {("hc", val, n, v)}
        elif m == "deleted":
            v = self.cell(st, args[0])
            if v is not None:
                st.mon = st.mon | {("dq", val, v)}
        elif q.endswith("::visit_value"):
            return self.use(eng, st, ins, args)
        elif not m and not q.startswith(("threadinfo::", "kpermuter::", "small_vector::")):
            for a in args:
                r = rootof(a)
                if r.k != "al" and self.cur(st, r) is not None and (a is r or nodefield(a)):
                    eng.count("node reads", ins)
                    self.read(eng, st, r, val)
                    break
                if r.k in ("al", "arg") and "bound" in q or "key_" in q:
                    # searches the node a cursor object stands for
                    for n in self.nodes(st):
                        self.read(eng, st, n, None)
        return None

    def nodes(self, st):
        return [z[1] for z in st.mon if z[0] == "ver"]

    def cell(self, st, a):
        b, o = baseoff(a)
        c = st.cells.get((b, o))
        return c[0] if c else None

    def use(self, eng, st, ins, args):
        eng.count("entries handed out", ins)
        for z in st.mon:
            if z[0] == "rd":
                why = "was deleted before it was read" if z[2].k != "c" and ("val", z[2]) in st.mon else "may have changed while it was read"
                eng.report("unvalidated-entry", ins, "hands out an entry read from %s, which %s: its version is not re-checked" % (show(z[1]), why), st)
                return False
        live = set()
        for (b, o), (v, zz) in st.cells.items():
            live |= v.syms
        for t in args:
            live |= t.syms
        for z in st.mon:
            if z[0] == "ld" and z[1] in live:
                eng.report("unvalidated-entry", ins, "hands out an entry while %s, read from %s, is still unvalidated" % (show(z[1]), show(z[2])), st)
                return False
        return None

    def ret(self, eng, st, ins, val):
        eng.count("exits", ins)
        if self.mode != "get" or val is None:
            return None
        zero = eng.truth(st, cmp_("eq", 64, val, FALSE))
        for z in st.mon:
            if z[0] == "rd":
                eng.report("unvalidated-result", ins, "returns a result read from %s without re-checking its version" % show(z[1]), st)
                return None
        if zero is True:
            return None
        for (b, o), (v, zz) in st.cells.items():
            if b.k != "arg":
                continue
            z = self.bad(st, v)
            if z:
                eng.report("unvalidated-result", ins, "returns %s, read from %s under another version than the one re-checked" % (show(z[1]), show(z[2])), st)
                return None
        return None

    def assume(self, eng, st, c, val):
        if c.k != "sym":
            return None
        for z in list(st.mon):
            if z[0] == "hc" and z[1] is c and not val:
                n, v = z[2], z[3]
                eng.count("version re-checks", eng.cur)
                if ("ver", n, v) in st.mon:
                    if ("al", v) not in st.mon:
                        eng.report("deleted-node-used", eng.cur, "trusts what was read from %s without having checked that it is not deleted" % show(n), st)
                        return False
                    st.mon = frozenset(y for y in st.mon if not (y[0] == "ld" and y[2] is n and y[3] is v or y[0] == "rd" and y[1] is n and y[2] is v))
            elif z[0] == "dq" and z[1] is c and not val:
                eng.count("deletion checks", eng.cur)
                st.mon = st.mon | {("al", z[2])}
        return None

    def merge(self, eng, st, ins):
        m = frozenset(z for z in st.mon if not any(y.__class__ is T and (orphan(y) or y.k == "c" and k < 3 and z[0] != "rd") for k, y in enumerate(z[1:])))
        if m != st.mon:
            st.mon = m
        return None

    may = ("ld", "rd")
    keyed = ("ver", "al")

    def gmon(self, m):
        return frozenset(z for z in m if z[0] in self.keyed)

    def joinmon(self, a, b):
        return frozenset(z for z in a | b if z[0] in self.may or z in a and z in b)

    def weaker(self, a, b):
        return self.gmon(a) == self.gmon(b) and all(z in a for z in b if z[0] in self.may) and all(z in b for z in a if z[0] not in self.may)


def field(prog, ty, name):
    s = prog.structs.get(ty)
    if s:
        for f in s["fields"]:
            if f[0] == name:
                return f[1]
    for m, o in prog.members.get(ty, ()):
        if m == name:
            return o
    return None


STACK = "Masstree::scanstackelt"


class ScanStepMon(ReadMon):
    """one step of a scan (find_initial / find_retry / find_next): the cursor's leaf and
    version are a pair on entry and on exit, and an entry or a layer is handed over only
    when everything read from the leaf was re-validated"""
    mode = "scan"
    keyed = ReadMon.keyed + ("push", "moved")
    pure = ReadMon.pure + (r"small_vector::push_back",)
    codes = ("scan_emit", "scan_down", "scan_up", "scan_retry", "scan_find_next")

    def init(self, eng, st):
        pr = eng.fn.prog
        self.off = {k: field(pr, STACK, k) for k in ("n_", "v_", "perm_", "root_", "ki_")}
        if None in self.off.values():
            raise LookupError("scan cursor layout not recognised")
        self.code = {k: pr.enums.get(STACK + "::" + k) for k in self.codes}
        if None in self.code.values():
            raise LookupError("scan step codes not recognised")
        m = set()
        a = eng.argt[0]
        root = mk("sym", ("in", 0), 0, "p")
        eng.store(st, ptr(a, self.off["root_"]), root, 8)
        if "find_next" in eng.fn.q:
            n = mk("sym", ("in", 1), 0, "p")
            v = mk("sym", ("in", 2), 0, "v")
            pm = mk("sym", ("in", 3), 0, "v")
            for f, x, z in (("n_", n, 8), ("v_", v, 4), ("perm_", pm, 8)):
                eng.store(st, ptr(a, self.off[f]), x, z)
            st.nn.add(n)
            m |= {("ver", n, v), ("ld", pm, n, v)}
        m.add(("rt", root))
        return frozenset(m)

    def call(self, eng, st, ins, q, args, val):
        if q == "small_vector::push_back":
            c = st.cells.get(baseoff(args[1]))
            v = c[0] if c else None
            n = sum(z[0] == "push" for z in st.mon)
            ok = n == 0 and ("rt", v) in st.mon or n == 1 and v is self.field(eng, st, "n_")
            st.mon = st.mon | {("push", n, bool(ok))}
        return ReadMon.call(self, eng, st, ins, q, args, val)

    def stacked(self, eng, st, ins, code, n):
        """a nested layer is entered with the way back remembered; nothing else changes that"""
        p = [z[2] for z in st.mon if z[0] == "push"]
        moved = ("moved",) in st.mon
        if code == ["scan_down"]:
            if len(p) != 2 or not all(p):
                eng.report("way-back", ins, "enters a layer without remembering the root and the leaf it came from, in that order", st)
            elif not moved:
                eng.report("way-back", ins, "enters a layer without moving to its root", st)
        elif "scan_down" not in code and (p or moved):
            eng.report("way-back", ins, "leaves its layer, or remembers a way back, in a step that does not enter a layer", st)

    def event(self, eng, st, ins, kind, **kw):
        if kind == "store" and baseoff(kw["addr"]) == baseoff(ptr(eng.argt[0], self.off["root_"])):
            st.mon = st.mon | {("moved",)} if ("rt", kw["val"]) not in st.mon else st.mon - {("moved",)}
        return ReadMon.event(self, eng, st, ins, kind, **kw)

    def field(self, eng, st, f):
        a = eng.argt[0]
        c = st.cells.get(baseoff(ptr(a, self.off[f])))
        return c[0] if c else None

    def ret(self, eng, st, ins, val):
        eng.count("exits", ins)
        c = {k: eng.truth(st, cmp_("eq", 32, val, C(v, 32))) for k, v in self.code.items()}
        code = [k for k, v in c.items() if v]
        if not code:
            code = [k for k, v in c.items() if v is None]
        n, v = self.field(eng, st, "n_"), self.field(eng, st, "v_")
        self.stacked(eng, st, ins, code, n)
        if set(code) & {"scan_emit", "scan_down"}:
            eng.count("entries or layers handed over", ins)
            for z in st.mon:
                if z[0] == "rd" and z[1] is n:
                    eng.report("unvalidated-entry", ins, "hands over an entry read from %s, which may have changed while it was read: its version is not re-checked afterwards" % show(z[1]), st)
                    return None
            live = set()
            for f, x in (("root_", self.field(eng, st, "root_")), ):
                if x is not None:
                    live |= x.syms
            for (b, o), (x, zz) in st.cells.items():
                if b.k == "arg" and b is not eng.argt[0]:
                    live |= x.syms
            for z in st.mon:
                if z[0] == "ld" and z[1] in live and not (z[1] is self.field(eng, st, "perm_")):
                    eng.report("unvalidated-entry", ins, "hands over an entry while %s, read from %s, is not validated" % (show(z[1]), show(z[2])), st)
                    return None
        if set(code) & {"scan_emit", "scan_find_next"}:
            if n is None or v is None or ("ver", n, v) not in st.mon:
                eng.report("cursor-without-version", ins, "leaves the scan cursor on a leaf with a version that is not a stable version of that leaf", st)
            pm = self.field(eng, st, "perm_")
            if pm is None or not any(z[0] in ("ld", "perm") and z[1] is pm and z[2] is n and z[3] is v for z in st.mon):
                eng.report("cursor-permutation", ins, "leaves the scan cursor with a permutation that was not read from its leaf under its version", st)
        return None

    def assume(self, eng, st, c, val):
        before = st.mon
        r = ReadMon.assume(self, eng, st, c, val)
        pm = self.field(eng, st, "perm_")
        if st.mon is not before and pm is not None:
            st.mon = st.mon | {("perm",) + z[1:] for z in before - st.mon if z[0] == "ld" and z[1] is pm}
        return r

    def node(self, eng, st, a):
        return rootof(a)


class ScanLoopMon(ReadMon):
    """the scan driver: a value is handed to the visitor only right after a step said so,
    and a step from a remembered leaf starts from a stable version of it"""
    mode = "loop"
    pure = ReadMon.pure + (r"Masstree::scanstackelt::find_.*",)

    def init(self, eng, st):
        pr = eng.fn.prog
        self.off = {k: field(pr, STACK, k) for k in ("n_", "v_", "perm_", "root_", "ki_")}
        if None in self.off.values():
            raise LookupError("scan cursor layout not recognised")
        self.emit = pr.enums.get(STACK + "::scan_emit")
        return frozenset()

    def call(self, eng, st, ins, q, args, val):
        k = q.split("::")[-1]
        if q.startswith(STACK + "::find_"):
            eng.count("scan steps", ins)
            a = args[0]
            if k == "find_next":
                c = [st.cells.get(baseoff(ptr(a, self.off[f]))) for f in ("n_", "v_", "perm_")]
                if None in c or ("ver", c[0][0], c[1][0]) not in st.mon:
                    eng.report("stale-cursor", ins, "continues a scan on a leaf without a stable version of it", st)
                    return False
                if ("pm", c[2][0], c[0][0], c[1][0]) not in st.mon:
                    eng.report("stale-cursor", ins, "continues a scan on a leaf with a permutation that was not read from it under its version", st)
                    return False
            if any(z[0] == "pops" and z[1] % 2 for z in st.mon):
                eng.report("way-back", ins, "takes only half of an entry off the way back", st)
                return False
            eng.havoc(st, rootof(a))
            n = mk("sym", ("step",) + ins.key, 0, "p")
            v = mk("sym", ("stepv",) + ins.key, 0, "v")
            eng.store(st, ptr(a, self.off["n_"]), n, 8)
            eng.store(st, ptr(a, self.off["v_"]), v, 4)
            pm = mk("sym", ("stepp",) + ins.key, 0, "v")
            eng.store(st, ptr(a, self.off["perm_"]), pm, 8)
            st.mon = frozenset({("ver", n, v), ("pm", pm, n, v), ("code", val)})
            return None
        if q.endswith("::visit_value"):
            eng.count("entries handed out", ins)
            code = [z[1] for z in st.mon if z[0] == "code"]
            if not code or eng.truth(st, cmp_("eq", 32, code[0], C(self.emit, 32))) is not True:
                eng.report("emit-without-step", ins, "hands the visitor an entry that no step has just validated", st)
            st.mon = frozenset(z for z in st.mon if z[0] != "code")
            return None
        if q == "small_vector::back":
            d = self.pops(st)
            st.mon = frozenset(z for z in st.mon if z[0] != "bk") | {("bk", val, d)}
        elif q == "small_vector::pop_back":
            d = self.pops(st)
            eng.count("steps back up", ins)
            st.mon = frozenset(z for z in st.mon if z[0] not in ("bk", "pops")) | {("pops", d ^ 1)}
        if nv(q) == "stable" or nv(q) == "stable_annotated":
            if rootof(args[0]).k != "al":
                eng.count("version re-reads", ins)
                code = {z for z in st.mon if z[0] in ("code", "pops", "bk", "bv")}
                st.mon = frozenset({("ver", args[0], val)}) | code
        return None

    def pops(self, st):
        return sum(z[1] for z in st.mon if z[0] == "pops")

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            for z in st.mon:
                if z[0] == "bk" and z[1] is kw["addr"]:
                    st.mon = st.mon | {("bv", kw["val"], z[2])}
            f = nodefield(kw["addr"])
            if f and f[1].startswith("permutation_"):
                st.mon = st.mon | {("pm", kw["val"], f[0], z[2]) for z in st.mon if z[0] == "ver" and z[1] is f[0]}
        elif kind == "store":
            for z in st.mon:
                if z[0] == "bv" and z[1] is kw["val"]:
                    l = (labels(kw["addr"]) or [""])[-1]
                    if l.endswith(("scanstackelt.n_", "scanstackelt.root_")) and l.endswith(".n_") == bool(z[2]):
                        eng.report("way-back", ins, "takes the leaf and the root off the way back in the wrong order", st)
                        return False
        if kind == "call":
            return self.call(eng, st, ins, **kw)
        if kind == "ret":
            eng.count("exits", ins)
        return None

    def assume(self, eng, st, c, val):
        return None

    keyed = ("ver", "code", "pops")

    def merge(self, eng, st, ins):
        m = frozenset(z for z in st.mon if z[0] in ("code", "pops") or not any(y.__class__ is T and (orphan(y) or y.k == "c") for y in z[1:]))
        if m != st.mon:
            st.mon = m
        return None
