"""Disjunctive abstract interpreter over flattened IR functions.

Abstract state = symbolic environment of the live SSA values, the contents of
stack objects (strong updates), branch facts, and the typestate of one
monitor.  Values are hash-consed terms over symbols; at every control-flow
merge the symbols of a state are renamed after the first live slot that holds
them, so states that differ only in how a value was obtained coincide.  States
are explored to a fixpoint; states with the same typestate and the same
aliasing of tracked values are joined once a block holds more than `width` of
them.  No solver and no concrete execution is involved.
"""
import re
import sys
import time

sys.setrecursionlimit(20000)

DEPTH = 7           # deeper terms are replaced by an opaque symbol in cycles


class T:
    __slots__ = ("k", "a", "syms", "depth", "n", "summ")
    cnt = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n

    def __hash__(self):
        return self.n


_tab = {}
_E = frozenset()


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        T.cnt += 1
        t.n = T.cnt
        if k == "sym":
            t.syms = frozenset((t,))
            t.depth = 1
            t.summ = False
        else:
            s = None
            d = 0
            sm = False
            for x in a:
                if x.__class__ is T:
                    if x.syms:
                        s = x.syms if s is None else s | x.syms
                    if x.depth > d:
                        d = x.depth
                    sm = sm or x.summ
            t.syms = s or _E
            t.depth = d + 1
            t.summ = sm
        _tab[key] = t
    return t


def C(v, b=64):
    if b < 64 and b > 1:
        v &= (1 << b) - 1
        if v >> (b - 1):
            v -= 1 << b
    elif b == 64:
        v &= (1 << 64) - 1
        if v >> 63:
            v -= 1 << 64
    elif b == 1:
        v &= 1
    return mk("c", v)


TRUE = mk("c", 1)
FALSE = mk("c", 0)
NULL = mk("c", 0)


def isc(t):
    return t.k == "c"


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x) for x in t) + ")"
        return str(t)
    k = t.k
    if k == "c":
        return str(t.a[0])
    if k == "sym":
        s = t.a[0]
        nm = s[-1] if isinstance(s, tuple) and isinstance(s[-1], str) else s
        return "$%s%s" % (nm, "'" * t.a[1])
    if k == "al":
        return "&%s" % (t.a[1] or t.a[0],)
    if k == "arg":
        return "%" + str(t.a[1])
    if k == "g":
        return "@" + t.a[0]
    if k == "f":
        return "@" + t.a[1]
    if d > 6:
        return "..."
    if k == "ptr":
        return "%s.%s" % (show(t.a[0], d + 1), (t.a[2] or "").split("::")[-1] or "+%d" % t.a[1])
    if k == "idx":
        return "%s[%s]" % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    return "%s(%s)" % (k, ",".join(show(x, d + 1) for x in t.a))


# ---- pointers ----
def ptr(base, off, label=None):
    if base.k == "ptr":
        off += base.a[1]
        if base.a[2]:
            label = base.a[2] + "/" + label if label else base.a[2]
        base = base.a[0]
    if off == 0 and not label:
        return base
    return mk("ptr", base, off, label)


def baseoff(t):
    if t.k == "ptr":
        return t.a[0], t.a[1]
    return t, 0


def rootof(t):
    while t.k in ("ptr", "idx"):
        t = t.a[0]
    return t


def label(t):
    """innermost field label of an address: 'Masstree::leaf.prev_', '...lv_[]' or ''"""
    if t.k == "ptr":
        if t.a[2]:
            return t.a[2].rsplit("/", 1)[-1]
        return label(t.a[0])
    if t.k == "idx":
        l = label(t.a[0])
        return l if l.endswith("[]") else l + "[]"
    return ""


def labels(t):
    """every field step of an address, outermost first"""
    if t.k == "ptr":
        return labels(t.a[0]) + (t.a[2].split("/") if t.a[2] else [])
    if t.k == "idx":
        return labels(t.a[0])
    return []


def outer(t):
    """first field step: the member of the root object an address lies in"""
    l = labels(t)
    return l[0] if l else ""


def objof(t):
    """the object an address points into (strip field/array steps)"""
    return rootof(t)


def sx(v, b):
    if v >> (b - 1) & 1:
        return v - (1 << b)
    return v


def u(v, b):
    return v & ((1 << b) - 1)


# ---- scalar constructors ----
def binop(o, b, x, y):
    if isc(x) and isc(y):
        p, q = x.a[0], y.a[0]
        if o == "add":
            return C(p + q, b)
        if o == "sub":
            return C(p - q, b)
        if o == "mul":
            return C(p * q, b)
        if o == "and":
            return C(p & q, b)
        if o == "or":
            return C(p | q, b)
        if o == "xor":
            return C(p ^ q, b)
        if o == "shl" and 0 <= q < 64:
            return C(p << q, b)
        if o == "lshr" and 0 <= q < 64:
            return C(u(p, b) >> q, b)
        if o == "ashr" and 0 <= q < 64:
            return C(p >> q, b)
        if o == "udiv" and q:
            return C(u(p, b) // u(q, b), b)
        if o == "urem" and q:
            return C(u(p, b) % u(q, b), b)
    if o in ("add", "mul", "and", "or", "xor") and isc(x):
        x, y = y, x
    if isc(y):
        q = y.a[0]
        if q == 0 and o in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return x
        if q == 0 and o in ("and", "mul"):
            return y
        if o == "sub":
            return binop("add", b, x, C(-q, b))
        if o == "mul" and q == 1:
            return x
        if o == "and" and u(q, b) == u(-1, b):
            return x
        if o == "add":
            if x.k == "add" and isc(x.a[2]):
                return binop("add", b, x.a[1], C(x.a[2].a[0] + q, b))
            if x.k in ("ptr", "al", "arg") or (x.k == "sym" and x.a[2] == "p"):
                return ptr(x, q)
        if o in ("and", "or") and x.k == o and isc(x.a[2]):
            return binop(o, b, x.a[1], C(x.a[2].a[0] & q if o == "and" else x.a[2].a[0] | q, b))
        if o == "xor" and b == 1 and q:
            return bnot(x)
    elif o == "sub":
        if x is y and not x.summ:
            return FALSE
        bx, ox = baseoff(x)
        by, oy = baseoff(y)
        if bx is by and not bx.summ:
            return C(ox - oy)
        if x.k == "add" and x.a[1] is y and not y.summ:
            return x.a[2]
        if x.k == "add" and x.a[2] is y and not y.summ:
            return x.a[1]
    elif x is y and not x.summ:
        if o in ("and", "or"):
            return x
        if o == "xor":
            return FALSE
    elif o == "add":
        # x + (y - x)
        if y.k == "sub" and y.a[2] is x:
            return y.a[1]
        if x.k == "sub" and x.a[2] is y:
            return x.a[1]
    if o in ("add", "mul", "and", "or", "xor") and not isc(y) and y.n < x.n:
        x, y = y, x
    return mk(o, b, x, y)


def bnot(x):
    if isc(x):
        return FALSE if x.a[0] else TRUE
    if x.k == "not":
        return x.a[0]
    return mk("not", x)


def cast(o, x, sb, db):
    if o in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
        return x
    if isc(x):
        v = x.a[0]
        if o == "zext":
            return C(u(v, sb), db)
        if o == "sext":
            return C(sx(v & 1, 1) if sb == 1 else v, db)
        if o == "trunc":
            return C(v, db)
    if o == "trunc":
        if x.k in ("zext", "sext"):
            isb = x.a[1]
            if isb == db:
                return x.a[0]
            if isb > db:
                return cast("trunc", x.a[0], isb, db)
            return cast(x.k, x.a[0], isb, db)
        if x.k == "trunc":
            return cast("trunc", x.a[0], x.a[1], db)
        return mk("trunc", x, sb, db)
    if o in ("zext", "sext"):
        if x.k == o:
            return cast(o, x.a[0], x.a[1], db)
        return mk(o, x, sb, db)
    return mk(o, x, sb, db)


PRED = {"eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"}


def cmp_(p, b, x, y):
    if p == "ne":
        return bnot(cmp_("eq", b, x, y))
    if p in ("ugt", "sgt"):
        return cmp_(p[0] + "lt", b, y, x)
    if p in ("ule", "sle"):
        return bnot(cmp_(p[0] + "lt", b, y, x))
    if p in ("uge", "sge"):
        return bnot(cmp_(p[0] + "lt", b, x, y))
    if isc(x) and isc(y):
        p1, q1 = x.a[0], y.a[0]
        if p == "eq":
            return TRUE if u(p1, b) == u(q1, b) else FALSE
        if p == "ult":
            return TRUE if u(p1, b) < u(q1, b) else FALSE
        return TRUE if p1 < q1 else FALSE
    if x is y and not x.summ:
        return TRUE if p == "eq" else FALSE
    if p == "eq":
        if isc(x):
            x, y = y, x
        if isc(y):
            q = y.a[0]
            if x.k == "zext":
                sb = x.a[1]
                if u(q, b) >> sb:
                    return FALSE
                return cmp_("eq", sb, x.a[0], C(q, sb))
            if x.k == "sext":
                sb = x.a[1]
                if sb == 1:
                    return x.a[0] if q == -1 else bnot(x.a[0]) if q == 0 else FALSE
                if C(q, sb).a[0] != q:
                    return FALSE
                return cmp_("eq", sb, x.a[0], y)
            if b == 1:
                return x if q else bnot(x)
            if x.k == "add" and isc(x.a[2]):
                return cmp_("eq", b, x.a[1], C(q - x.a[2].a[0], b))
            if q == 0 and x.k in ("al", "g", "f"):
                return FALSE
            if q == 0 and x.k == "ptr" and (x.a[1] > 0 or x.a[2]):
                # an inbounds field address is only formed on an object
                return FALSE if x.a[1] > 0 else cmp_("eq", b, x.a[0], y)
            if q == 0 and x.k == "idx":
                return FALSE
            if x.k == "and" and isc(x.a[2]) and q & ~x.a[2].a[0]:
                return FALSE
        else:
            bx, ox = baseoff(x)
            by, oy = baseoff(y)
            if bx is by and not bx.summ:
                return TRUE if ox == oy else FALSE
            if bx is not by and bx.k in ("al", "g", "f") and by.k in ("al", "g", "f"):
                return FALSE
            if x.k == y.k and x.k in ("zext", "sext") and x.a[1] == y.a[1]:
                return cmp_("eq", x.a[1], x.a[0], y.a[0])
            if y.n < x.n:
                x, y = y, x
    else:
        if p == "ult" and isc(y) and y.a[0] == 0:
            return FALSE
        if p == "ult" and isc(y) and u(y.a[0], b) == 1:
            return cmp_("eq", b, x, C(0, b))
        if p == "ult" and isc(x) and x.a[0] == 0:
            return bnot(cmp_("eq", b, y, x))
        if p == "ult" and isc(x) and u(x.a[0], b) == u(-1, b):
            return FALSE
        if x.k == "zext" and y.k == "zext" and x.a[1] == y.a[1]:
            return cmp_("ult", x.a[1], x.a[0], y.a[0])
        if x.k == "sext" and y.k == "sext" and x.a[1] == y.a[1] and p == "slt":
            return cmp_("slt", x.a[1], x.a[0], y.a[0])
        if p == "slt" and x.k == "sext" and isc(y) and C(y.a[0], x.a[1]).a[0] == y.a[0]:
            return cmp_("slt", x.a[1], x.a[0], y)
        if p == "slt" and y.k == "sext" and isc(x) and C(x.a[0], y.a[1]).a[0] == x.a[0]:
            return cmp_("slt", y.a[1], x, y.a[0])
    return mk(p, b, x, y)


def rebuild(t, f):
    """rebuild term t with f applied to its direct sub-terms"""
    k, a = t.k, t.a
    if k == "ptr":
        return ptr(f(a[0]), a[1], a[2])
    if k == "idx":
        return idxp(f(a[0]), f(a[1]), a[2])
    if k == "not":
        return bnot(f(a[0]))
    if k in ("eq", "ult", "slt"):
        return cmp_(k, a[0], f(a[1]), f(a[2]))
    if k in ("zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc"):
        return cast(k, f(a[0]), a[1], a[2])
    if k in BIN:
        return binop(k, a[0], f(a[1]), f(a[2]))
    if k == "xv":
        return xv(f(a[0]), a[1])
    if k == "select":
        c = f(a[0])
        if isc(c):
            return f(a[1]) if c.a[0] else f(a[2])
        return mk("select", c, f(a[1]), f(a[2]))
    return mk(k, *[f(x) if x.__class__ is T else x for x in a])


BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}


def idxp(base, ix, esz):
    if isc(ix):
        return ptr(base, ix.a[0] * esz, None)
    return mk("idx", base, ix, esz)


def xv(agg, ix):
    if agg.k == "iv":
        if agg.a[2] == ix:
            return agg.a[1]
        return xv(agg.a[0], ix)
    if isc(agg) and agg.a[0] == 0:
        return FALSE
    return mk("xv", agg, ix)


SNAPLO = (1, 0, -1, -(1 << 31), -(1 << 63))
SNAPHI = (-1, 0, 1, 2, 15, 255, 65535, (1 << 31) - 1, (1 << 63) - 1)


def snap(lo, hi):
    """widen an interval to fixed thresholds (keeps joins terminating)"""
    l = [x for x in SNAPLO if x <= lo]
    h = [x for x in SNAPHI if x >= hi]
    if not l or not h or l[0] == SNAPLO[-1] and h[0] == SNAPHI[-1]:
        return None, None
    return l[0], h[0]


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class St:
    __slots__ = ("env", "cells", "facts", "rng", "org", "mon", "nn", "trail", "desc")

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.org = dict(self.org)
        s.mon = self.mon
        s.nn = set(self.nn)
        s.trail = self.trail
        s.desc = self.desc
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.cells.items()),
                frozenset(self.facts.items()), frozenset(self.rng.items()), self.mon,
                frozenset(self.nn), frozenset(self.org.items()))


def msubst(x, f):
    """apply f to every term inside a monitor state"""
    if x.__class__ is T:
        return f(x)
    if x.__class__ is tuple:
        return tuple(msubst(y, f) for y in x)
    if x.__class__ is frozenset:
        return frozenset(msubst(y, f) for y in x)
    return x


def mterms(x, out):
    if x.__class__ is T:
        out.add(x)
    elif x.__class__ in (tuple, frozenset):
        for y in x:
            mterms(y, out)


class Monitor:
    """Typestate client.  st.mon is an immutable value (tuples/frozensets of
    terms and atoms).  Handlers may return None (continue), False (path is
    infeasible) or a list of states to continue with."""
    pure = ()        # callee regexes that do not write through their pointers
    width = 24
    owns = None      # regex over field labels: thread-private memory behind loaded pointers
    aborts = False   # also follow paths that can only end in abort()

    def init(self, eng, st):
        return ()

    def event(self, eng, st, ins, kind, **kw):
        return None

    def assume(self, eng, st, cond, val):
        return None

    def gmon(self, m):
        """the part of the monitor state that is never joined"""
        return m

    def phi(self, eng, st, ins, t):
        """a term for a loop-carried value, instead of the engine's generalisation"""
        return None

    def edge(self, eng, st, frm, to, new):
        """about to enter a block that lies on a cycle; new: its phis and their new terms"""

    steps = True     # a pointer that steps through an array in a loop is at an unknown element
    exact = False    # loops are followed without generalising what they change (bounded case analyses only)
    namedsyms = False   # the state is a set of tuples that name their symbols
    consts = ()     # enumerators that a loop must not generalise away

    def joinmon(self, a, b):
        return a

    def weaker(self, a, b):
        """state a allows at least the behaviour of b"""
        return False

    def merge(self, eng, st, ins):
        """called at every merge point after renaming; False drops the state"""
        return None


class Finding:
    def __init__(self, rule, ins, fn, msg, trail=None, key=None):
        self.rule = rule
        self.loc = ins.loc if ins is not None else "%s:%d %s" % (fn.file, fn.line, fn.q)
        self.fn = fn.q
        self.msg = msg
        self.trail = trail or []
        self.key = key

    def ident(self):
        return (self.rule, self.key or self.loc.split(" < ")[0], self.fn)


PURE_DEFAULT = re.compile(
    r"llvm\..*|fence|acquire_fence|release_fence|relax_fence|strlen|memcmp|abs|__errno_location|strcmp|getpid|"
    r"free|malloc|operator delete.*|operator new.*|fprintf|printf|puts|perror|strerror|close|fsync|fclose|pthread_.*|"
    r"compiler_barrier")


class Engine:
    def __init__(self, fn, mon, width=None, maxsteps=400000, tracked_args=True, volatile=None, maxtime=600, numeric=None):
        self.fn = fn
        self.mon = mon
        self.width = width or mon.width
        self.findings = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.maxtime = maxtime
        self.numeric = getattr(mon, 'numeric', False) if numeric is None else numeric
        self.tracked_args = tracked_args
        self.volatile = re.compile(volatile) if volatile else None
        self.pure = [re.compile(p) for p in mon.pure]
        self.owns = re.compile(mon.owns) if mon.owns is not None else None
        self._pc = {}
        self.exits = 0
        self.counts = {}
        self.cover = set()
        self.joins = 0
        self.havocs = {}
        self.argt = []

    def count(self, k, ins=None):
        """measured instance counter (distinct sites)"""
        self.counts.setdefault(k, set()).add(ins.short() if ins is not None else None)

    def report(self, rule, ins, msg, st=None, key=None):
        f = Finding(rule, ins, self.fn, msg, trail=self.trail(st) if st is not None else [], key=key)
        self.findings.setdefault(f.ident(), f)

    def trail(self, st):
        out = []
        t = st.trail
        n = 0
        while t is not None and n < 400:
            ins = t[0]
            s = ins.short()
            if not out or out[-1] != s:
                out.append(s)
            t = t[1]
            n += 1
        out.reverse()
        return out[-40:]

    # -- values --
    def ev(self, st, r):
        if r.__class__ is int:
            t = st.env.get(r)
            if t is None:
                t = mk("sym", ("undef", r), 0, "u")
            return t
        k = r[0]
        if k == "c":
            return C(r[1], r[2])
        if k == "n":
            return NULL
        if k == "z":
            return FALSE
        if k == "u":
            return mk("undef")
        if k == "f":
            return mk("f", r[1], r[2])
        if k == "g":
            return mk("g", r[1], r[2] if len(r) > 2 else None)
        if k == "ge":
            return self.gep(st, self.ev(st, r[1]), r[2])
        if k == "ce":
            return self.ev(st, r[1])
        if k == "ag":
            t = mk("undef")
            for n, x in enumerate(r[1:]):
                t = mk("iv", t, self.ev(st, x), (n,))
            return t
        return mk("konst", str(r))

    def gep(self, st, base, steps):
        t = base
        for s in steps:
            if s[0] == "s":
                nm = s[2]
                if nm.startswith("<base>") or nm.startswith("<anon>") or nm.startswith("#"):
                    t = ptr(t, s[3], None)
                else:
                    t = ptr(t, s[3], s[1] + "." + nm)
            else:
                t = idxp(t, self.ev(st, s[1]), s[2])
        return t

    def fresh(self, st, site, kind="v"):
        return mk("sym", site, 0, kind)

    def subst(self, st, m, renaming=False):
        keys = frozenset(m)
        memo = {}

        def f(t):
            if t.__class__ is not T or not t.syms or t.syms.isdisjoint(keysyms):
                if t in m:
                    return m[t]
                return t
            r = memo.get(t)
            if r is None:
                r = m.get(t)
                if r is None:
                    r = rebuild(t, f) if t.k != "sym" else t
                memo[t] = r
            return r
        keysyms = frozenset(s for k in keys for s in k.syms)
        st.env = {i: f(t) for i, t in st.env.items()}
        st.cells = {(f(b), o): (f(v), z) for (b, o), (v, z) in st.cells.items()}
        facts = {}
        for t, v in st.facts.items():
            r = f(t)
            while r.k == "not":
                r = r.a[0]
                v = not v
            if isc(r):
                if bool(r.a[0]) != v and not renaming:
                    raise Infeasible()
                continue
            if renaming and r.summ:
                continue
            if r in facts and facts[r] != v:
                if renaming:
                    continue
                raise Infeasible()
            facts[r] = v
        st.facts = facts
        rng = {}
        for t, (lo, hi) in st.rng.items():
            r = f(t)
            if isc(r):
                if not (lo <= r.a[0] <= hi) and not renaming:
                    raise Infeasible()
                continue
            if renaming and r.summ:
                continue
            if r in rng:
                l2, h2 = rng[r]
                lo, hi = max(lo, l2), min(hi, h2)
                if lo > hi and not renaming:
                    raise Infeasible()
            rng[r] = (lo, hi)
        st.rng = rng
        org = {}
        for t, a in st.org.items():
            r = f(t)
            if r.k == "sym":
                org[r] = f(a)
        st.org = org
        nn = set()
        for t in st.nn:
            r = f(t)
            if isc(r):
                if r.a[0] == 0 and not renaming:
                    raise Infeasible()
                continue
            if renaming and r.summ:
                continue
            nn.add(r)
        st.nn = nn
        st.mon = msubst(st.mon, f)
        if hasattr(self.mon, "substituted"):
            self.mon.substituted(self, st, m, renaming)

    # -- facts --
    def range(self, st, t, d=0):
        if isc(t):
            return t.a[0], t.a[0]
        lo, hi = st.rng.get(t, (None, None))
        l2 = h2 = None
        if t.k == "zext":
            l2, h2 = 0, (1 << t.a[1]) - 1
            if d < 4:
                l3, h3 = self.range(st, t.a[0], d + 1)
                if l3 is not None and l3 >= 0:
                    l2 = max(l2, l3)
                    if h3 is not None:
                        h2 = min(h2, h3)
        elif t.k == "sext" and d < 4:
            l2, h2 = self.range(st, t.a[0], d + 1)
        elif t.k == "add" and isc(t.a[2]) and d < 4:
            l3, h3 = self.range(st, t.a[1], d + 1)
            c = t.a[2].a[0]
            b = t.a[0]
            if l3 is not None and h3 is not None and l3 + c >= -(1 << (b - 1)) and h3 + c < (1 << (b - 1)):
                l2, h2 = l3 + c, h3 + c
        elif t.k == "and" and isc(t.a[2]) and t.a[2].a[0] >= 0:
            l2, h2 = 0, t.a[2].a[0]
        elif t.k == "lshr" and isc(t.a[2]) and t.a[2].a[0] > 0:
            l2, h2 = 0, (1 << (t.a[0] - t.a[2].a[0])) - 1
        if l2 is not None:
            lo = l2 if lo is None else max(lo, l2)
        if h2 is not None:
            hi = h2 if hi is None else min(hi, h2)
        return lo, hi

    def truth(self, st, c):
        """True/False/None"""
        if isc(c):
            return bool(c.a[0])
        if c.k == "not":
            v = self.truth(st, c.a[0])
            return None if v is None else not v
        v = st.facts.get(c)
        if v is not None:
            return v
        if c.k == "eq":
            x, y = c.a[1], c.a[2]
            if isc(y):
                if y.a[0] == 0 and (x in st.nn):
                    return False
                lo, hi = self.range(st, x)
                if lo is not None and y.a[0] < lo or hi is not None and y.a[0] > hi:
                    return False
                if lo is not None and lo == hi == y.a[0]:
                    return True
            else:
                r = self.mon_ne(st, x, y)
                if r:
                    return False
        elif c.k in ("slt", "ult"):
            x, y = c.a[1], c.a[2]
            if c.k == "slt" or True:
                xl, xh = self.range(st, x)
                yl, yh = self.range(st, y)
                ok = c.k == "slt" or (xl is not None and xl >= 0 and yl is not None and yl >= 0)
                if ok:
                    if xh is not None and yl is not None and xh < yl:
                        return True
                    if xl is not None and yh is not None and xl >= yh:
                        return False
            # x<y known false if y<x known
            if st.facts.get(mk(c.k, c.a[0], y, x)):
                return False
            # eq known -> false
            e = mk("eq", c.a[0], x, y) if x.n < y.n else mk("eq", c.a[0], y, x)
            if st.facts.get(e):
                return False
        elif c.k == "and" and c.a[0] == 1:
            p, q = self.truth(st, c.a[1]), self.truth(st, c.a[2])
            if p is False or q is False:
                return False
            if p and q:
                return True
        elif c.k == "or" and c.a[0] == 1:
            p, q = self.truth(st, c.a[1]), self.truth(st, c.a[2])
            if p or q:
                return True
            if p is False and q is False:
                return False
        elif c.k == "trunc":
            x = c.a[0]
            lo, hi = self.range(st, x)
            if lo is not None and lo == hi:
                return bool(lo & 1)
        return None

    def mon_ne(self, st, x, y):
        """pointer terms known to differ (fresh allocations)"""
        bx, by = rootof(x), rootof(y)
        if bx is by:
            return False
        f = getattr(self.mon, "distinct", None)
        if f and x is bx and y is by and f(self, st, x, y):
            return True
        f = getattr(self.mon, "is_fresh", None)
        if f and (f(self, st, bx) and bx not in by.syms and by.k != "undef" and self.older(st, by, bx)
                  or f(self, st, by) and by not in bx.syms and self.older(st, bx, by)):
            return True
        return False

    def older(self, st, a, b):
        return a.k in ("arg", "al", "g")

    def assume(self, st, c, val):
        """add c==val; raises Infeasible"""
        while c.k == "not":
            c = c.a[0]
            val = not val
        v = self.truth(st, c)
        if v is not None:
            if v != val:
                raise Infeasible()
            if isc(c):
                return
        r = self.mon.assume(self, st, c, val)
        if r is False:
            raise Infeasible()
        if v is not None:
            return
        if c.k == "eq":
            b, x, y = c.a
            if val:
                if isc(x):
                    x, y = y, x
                self.unify(st, x, y, c)
            else:
                if isc(y) and y.a[0] == 0:
                    st.nn.add(x)
                    lo, hi = self.range(st, x)
                    if lo == 0:
                        st.rng[x] = (1, hi if hi is not None else (1 << 63) - 1)
                else:
                    st.facts[c] = False
                    if isc(y):
                        lo, hi = self.range(st, x)
                        if lo is not None and lo == y.a[0] and hi is not None:
                            st.rng[x] = (lo + 1, hi)
                        elif hi is not None and hi == y.a[0] and lo is not None:
                            st.rng[x] = (lo, hi - 1)
            return
        if c.k in ("slt", "ult"):
            b, x, y = c.a
            big = (1 << (b - 1)) - 1
            small = -(1 << (b - 1))
            if c.k == "slt":
                if isc(y):
                    lo, hi = self.range(st, x)
                    lo = small if lo is None else lo
                    hi = big if hi is None else hi
                    if val:
                        hi = min(hi, y.a[0] - 1)
                    else:
                        lo = max(lo, y.a[0])
                    self.setrng(st, x, lo, hi)
                elif isc(x):
                    lo, hi = self.range(st, y)
                    lo = small if lo is None else lo
                    hi = big if hi is None else hi
                    if val:
                        lo = max(lo, x.a[0] + 1)
                    else:
                        hi = min(hi, x.a[0])
                    self.setrng(st, y, lo, hi)
                else:
                    st.facts[c] = val
            else:
                if isc(y) and y.a[0] > 0 and val:
                    lo, hi = self.range(st, x)
                    lo = 0 if lo is None else max(lo, 0)
                    hi = y.a[0] - 1 if hi is None else min(hi, y.a[0] - 1)
                    self.setrng(st, x, lo, hi)
                elif isc(x) and x.a[0] >= 0 and not val:
                    # y <= x
                    lo, hi = self.range(st, y)
                    lo = 0 if lo is None else max(lo, 0)
                    hi = x.a[0] if hi is None else min(hi, x.a[0])
                    self.setrng(st, y, lo, hi)
                elif isc(y) and not val and (self.range(st, x)[0] or -1) >= 0:
                    lo, hi = self.range(st, x)
                    self.setrng(st, x, max(lo, y.a[0]), hi if hi is not None else big)
                elif isc(x) and val and (self.range(st, y)[0] is not None and self.range(st, y)[0] >= 0):
                    lo, hi = self.range(st, y)
                    self.setrng(st, y, max(lo, x.a[0] + 1), hi if hi is not None else big)
                st.facts[c] = val
            return
        if c.k == "and" and c.a[0] == 1:
            if val:
                self.assume(st, c.a[1], True)
                self.assume(st, c.a[2], True)
            else:
                if self.truth(st, c.a[1]):
                    self.assume(st, c.a[2], False)
                elif self.truth(st, c.a[2]):
                    self.assume(st, c.a[1], False)
                else:
                    st.facts[c] = False
            return
        if c.k == "or" and c.a[0] == 1:
            if not val:
                self.assume(st, c.a[1], False)
                self.assume(st, c.a[2], False)
            else:
                if self.truth(st, c.a[1]) is False:
                    self.assume(st, c.a[2], True)
                elif self.truth(st, c.a[2]) is False:
                    self.assume(st, c.a[1], True)
                else:
                    st.facts[c] = True
            return
        if c.k == "sym":
            self.subst(st, {c: TRUE if val else FALSE})
            return
        st.facts[c] = val

    def setrng(self, st, t, lo, hi):
        if lo > hi:
            raise Infeasible()
        if lo == hi and t.k == "sym":
            self.subst(st, {t: C(lo)})
            return
        if lo > 0 or hi < 0:
            st.nn.add(t)
        st.rng[t] = (lo, hi)

    def unify(self, st, x, y, c):
        """x == y"""
        if x.k == "sub" and isc(y) and y.a[0] == 0 and x.a[0] == 64:
            return self.unify(st, x.a[1], x.a[2], cmp_("eq", 64, x.a[1], x.a[2]))
        if isc(y):
            if y.a[0] == 0 and x in st.nn:
                raise Infeasible()
            lo, hi = self.range(st, x)
            if lo is not None and y.a[0] < lo or hi is not None and y.a[0] > hi:
                raise Infeasible()
        a, b = x, y
        bx, ox = baseoff(x)
        if bx.k == "sym" and isc(y) and y.a[0] == 0 and ox == 0:
            a = bx
        if a.k == "sym" and not (b.k == "sym" and b.n > a.n) and a not in b.syms and not a.summ:
            self.subst(st, {a: b})
        elif b.k == "sym" and b not in a.syms and not b.summ:
            self.subst(st, {b: a})
        elif a.k == "sym" and a not in b.syms and not a.summ:
            self.subst(st, {a: b})
        else:
            st.facts[c] = True

    # -- memory --
    def tracked(self, addr):
        r = rootof(addr)
        if r.k == "al":
            return True
        if r.k == "arg":
            return self.tracked_args and not (self.volatile and self.volatile.search(label(addr)))
        if r.k == "sym" and self.owns is not None:
            return bool(self.owns.search(label(addr)))
        return False

    def alias(self, st, b, o, size):
        """a store through b kills what other symbolic bases may share with it"""
        r = rootof(b)
        for k in [k for k in st.cells if k[0] is not b and rootof(k[0]).k in ("sym", "arg")]:
            r2 = rootof(k[0])
            if r2 is r:
                if k[0] is r and (b is not r and k[1] >= self.arrlo(b) or b is r and k[1] < o + size and o < k[1] + st.cells[k][1]):
                    del st.cells[k]
                elif k[0] is not r and (b is not r or o + size > self.arrlo(k[0])):
                    del st.cells[k]
            elif r.k == "sym" or r2.k == "sym":
                if k[0] is r2 and b is r and not (k[1] < o + size and o < k[1] + st.cells[k][1]):
                    continue
                if self.truth(st, cmp_("eq", 64, r, r2)) is not False:
                    del st.cells[k]

    @staticmethod
    def arrlo(b):
        """lowest offset an indexed address can have"""
        o = 0
        while True:
            if b.k == "idx":
                b = b.a[0]
            elif b.k == "ptr":
                o += b.a[1]
                b = b.a[0]
            else:
                return o

    def load(self, st, ins, addr, size, ty):
        if addr.k == "g" and addr.a[1].__class__ is int and ty != "ptr":
            return C(addr.a[1], 8 * size)       # a constant
        if self.tracked(addr):
            b, o = baseoff(addr)
            c = st.cells.get((b, o))
            if c is not None and c[1] == size:
                return c[0]
            if c is None or True:
                # bytes of a wider stored constant/zero
                for (b2, o2), (v, z) in st.cells.items():
                    if b2 is b and o2 <= o and o + size <= o2 + z and isc(v) and v.a[0] in (0, -1):
                        return v
            t = self.fresh(st, ins.key, "p" if ty == "ptr" else "v")
            addr = self.ev(st, ins.d["a"][0])   # may have been renamed
            b, o = baseoff(addr)
            st.org[t] = addr
            if rootof(b) is b or self.owns is not None and rootof(b).k == "sym":
                self.kill(st, b, o, size)
                st.cells[(b, o)] = (t, size)
            return t
        t = self.fresh(st, ins.key, "p" if ty == "ptr" else "v")
        st.org[t] = self.ev(st, ins.d["a"][0])
        return t

    def kill(self, st, b, o, size):
        dead = [k for k, (v, z) in st.cells.items() if k[0] is b and k[1] < o + size and o < k[1] + z]
        for k in dead:
            del st.cells[k]

    def store(self, st, addr, val, size):
        if not self.tracked(addr):
            return
        b, o = baseoff(addr)
        if self.owns is not None and rootof(b).k in ("sym", "arg"):
            self.alias(st, b, o, size)
            if rootof(b).k == "arg" and rootof(b) is not b:
                return
        elif rootof(b) is not b:   # variable index: forget the whole object
            self.havoc(st, rootof(b))
            return
        self.kill(st, b, o, size)
        st.cells[(b, o)] = (val, size)

    def havoc(self, st, root):
        for k in [k for k in st.cells if rootof(k[0]) is root]:
            del st.cells[k]

    def havoc_arg(self, st, a):
        """a callee got pointer a: forget the subobject it designates"""
        b, o = baseoff(a)
        r = rootof(b)
        if b is r and a.k == "ptr" and a.a[2]:
            ty, f = a.a[2].rsplit("/", 1)[-1].rsplit(".", 1)
            s = self.fn.prog.structs.get(ty)
            if s:
                fs = [x for x in s["fields"] if x[0] == f]
                if len(fs) == 1:
                    nxt = [x[1] for x in s["fields"] if x[1] > fs[0][1]]
                    ext = (min(nxt) if nxt else s["size"]) - fs[0][1]
                    if ext > 0:
                        self.kill(st, b, o, ext)
                        return
        self.havoc(st, r)

    def ispure(self, q):
        v = self._pc.get(q)
        if v is None:
            v = bool(PURE_DEFAULT.fullmatch(q)) or any(p.fullmatch(q) for p in self.pure)
            self._pc[q] = v
        return v

    # -- execution --
    def run(self):
        fn = self.fn
        st = St()
        st.env = {}
        st.cells = {}
        st.facts = {}
        st.rng = {}
        st.org = {}
        st.nn = set()
        st.trail = None
        st.desc = {}
        self.argt = []
        for k, a in enumerate(fn.args):
            t = mk("arg", k, a[0] or str(k))
            self.argt.append(t)
            st.env[k] = t
        st.mon = ()
        st.mon = self.mon.init(self, st)
        self.seen = {}
        self.bucket = {}
        import heapq
        heap = []
        n = 0
        self.chain = []
        self.enqueue(0, st, heap, -1)
        t0 = time.time()
        while heap:
            rp, _, b, s, k = heapq.heappop(heap)
            if k not in self.seen[b]:
                continue        # was absorbed by a join
            self.steps += 1
            if self.steps > self.maxsteps or (self.steps & 255 == 0 and time.time() - t0 > self.maxtime):
                raise Budget("%s: %d block visits, %d blocks" % (fn.q, self.steps, len(fn.blocks)))
            self.chain = [(b, s.copy())]
            while self.chain:
                b, s = self.chain.pop()
                self.cover.add(b)
                self.steps += 1
                self.block(b, s, heap)

    def gc(self, b, st):
        live = self.fn.entry[b]
        st.env = {i: t for i, t in st.env.items() if i in live}
        syms = set()
        als = set()
        for t in st.env.values():
            syms |= t.syms
            r = rootof(t)
            if r.k == "al":
                als.add(r)
        cont = self.fn.content[b]
        for kk in [kk for kk in st.cells if kk[0].k == "al" and kk[0].a[0] not in cont]:
            del st.cells[kk]
        # allocas live if their id is live or referenced from live values/cells
        ms = set()
        mterms(st.mon, ms)
        for t in ms:
            syms |= t.syms
            r = rootof(t)
            if r.k == "al":
                als.add(r)
        work = True
        cells = st.cells
        keep = {}
        while work:
            work = False
            for kk, (v, z) in cells.items():
                if kk in keep:
                    continue
                r = rootof(kk[0])
                if r.k == "sym":
                    continue
                if r.k != "al" or r in als:
                    keep[kk] = (v, z)
                    rv = rootof(v)
                    if rv.k == "al" and rv not in als:
                        als.add(rv)
                        work = True
        if self.owns is not None:
            # memory behind loaded pointers: one level only, so that lists stay finite
            for (b0, o), (v, z) in list(keep.items()):
                syms |= v.syms
                syms |= b0.syms
            for kk, (v, z) in cells.items():
                if rootof(kk[0]).k == "sym" and kk[0].syms <= syms:
                    keep[kk] = (v, z)
        st.cells = keep
        for (b0, o), (v, z) in keep.items():
            syms |= v.syms
            syms |= b0.syms
        # origin chain (one level of indirection kept)
        org = {}
        for s in list(syms):
            a = st.org.get(s)
            if a is not None and a.syms <= syms:
                org[s] = a
            elif a is not None:
                org[s] = ptr(mk("lost"), 0, label(a) or None)
        st.org = org
        st.facts = {t: v for t, v in st.facts.items() if t.syms <= syms}
        st.rng = {t: v for t, v in st.rng.items() if t.syms <= syms}
        st.nn = {t for t in st.nn if t.syms <= syms and t.syms}

    def gencells(self, st):
        for k, (v, z) in list(st.cells.items()):
            if v.k in BIN or v.k == "c" and abs(v.a[0]) > 255 and abs(v.a[0]) < (1 << 60) and v.a[0] not in self.mon.consts:
                g = self.general(v, ("gc", k[0].n, k[1]), ())
                if g is not v:
                    st.cells[k] = (g, z)

    def canon(self, st):
        """rename symbols after the first slot that holds them"""
        m = {}
        for i in sorted(st.env):
            t = st.env[i]
            if t.syms:
                if t.k == "sym":
                    if t not in m:
                        m[t] = mk("sym", ("e", i), 0, t.a[2])
                else:
                    n = 0
                    for x in sorted(t.syms, key=self.symorder):
                        if x not in m:
                            n += 1
                            m[x] = mk("sym", ("e", i), n, x.a[2])
        if any(v.syms for (v, z) in st.cells.values()) or any(b.syms for b, o in st.cells):
            for (b, o) in sorted(st.cells, key=lambda k: (k[0].k, k[0].n if not k[0].syms else m[rootof(k[0])].n if rootof(k[0]) in m else 0, k[1])):
                v = st.cells[(b, o)][0]
                for t in (b, v):
                    n = 0
                    for x in sorted(t.syms, key=self.symorder):
                        if x not in m:
                            n += 1
                            m[x] = mk("sym", ("c", b.n, o), n, x.a[2])
        ms = set()
        mterms(st.mon, ms)
        rest = set()
        for t in ms:
            rest |= t.syms
        if self.mon.namedsyms and not rest <= m.keys():
            # symbols only the monitor holds: named after the only fact of its shape
            sh = {}
            for z in st.mon:
                if any(x.__class__ is T and x.k == "sym" and x not in m for x in z):
                    sh.setdefault(tuple(None if x.__class__ is T else x for x in z), []).append(z)
            for k in sorted((k for k in sh if len(sh[k]) == 1), key=repr):
                for i, x in enumerate(sh[k][0]):
                    if x.__class__ is T and x.k == "sym" and x not in m:
                        m[x] = mk("sym", ("m", k), i, x.a[2])
        k = 0
        for x in sorted((x for x in rest if x not in m), key=self.symorder):
            m[x] = mk("sym", ("t", k), 0, x.a[2])
            k += 1
        d = {}
        for x, y in m.items():
            d[y] = st.desc.get(x, x)
        m = {x: y for x, y in m.items() if x is not y}
        if m:
            self.subst(st, m, renaming=True)
        st.desc = d

    @staticmethod
    def symorder(x):
        return (str(x.a[0]), x.a[1])

    def group(self, st):
        """typestate plus every live value that mentions a tracked symbol"""
        ms = set()
        gm = self.mon.gmon(st.mon)
        mterms(gm, ms)
        tr = set()
        for t in ms:
            tr |= t.syms
        g = [gm]
        if tr:
            for i, t in st.env.items():
                if t.syms and not t.syms.isdisjoint(tr):
                    g.append((i, t))
            for (b, o), (v, z) in st.cells.items():
                if v.syms and not v.syms.isdisjoint(tr) or b.syms and not b.syms.isdisjoint(tr):
                    g.append((b, o, v))
        for i, t in st.env.items():     # control flags
            if isc(t) and i in self.fn.flags and t.a[0] in self.fn.flags[i]:
                g.append((i, t))
        f = getattr(self.mon, "groupkey", None)
        if f:
            g.append(f(self, st))
        return frozenset(g)

    def enqueue(self, b, st, heap, frm):
        import heapq
        if self.fn.doomed[b] and not self.mon.aborts:
            self.cover.add(b)
            return
        self.gc(b, st)
        if len(self.fn.pred[b]) <= 1 and b != 0:
            self.chain.append((b, st))
            return
        if self.fn.head[b] and not self.mon.exact:
            self.gencells(st)
        self.canon(st)
        if self.mon.merge(self, st, self.fn.blocks[b][0]) is False:
            return
        seen = self.seen.setdefault(b, {})
        k = st.key()
        if k in seen:
            return
        gk = self.group(st)
        group = self.bucket.setdefault(b, {}).setdefault(gk, [])
        # subsumption: an explored state with the same values and fewer facts
        for g, kk in group:
            if self.subsumes(g, st):
                return
        if len(group) >= self.width:
            base, bkey = group[0]
            j = self.join(b, base, st)
            jk = j.key()
            self.joins += 1
            if jk == bkey:
                return
            seen.pop(bkey, None)
            if jk in seen:
                group[0] = (j, jk)
                return
            group[0] = (j, jk)
            st, k = j, jk
        else:
            group.append((st, k))
        seen[k] = True
        self._n = getattr(self, "_n", 0) + 1
        heapq.heappush(heap, (self.fn.rpo[b], self._n, b, st, k))

    def subsumes(self, g, s):
        if g.mon != s.mon and not self.mon.weaker(g.mon, s.mon):
            return False
        if g.env != s.env or g.cells != s.cells:
            return False
        for t, v in g.facts.items():
            if s.facts.get(t) is not v:
                return False
        if not g.nn <= s.nn:
            return False
        for t, (lo, hi) in g.rng.items():
            r = s.rng.get(t)
            if r is None or r[0] < lo or r[1] > hi:
                return False
        return g.org == s.org

    def join(self, b, x, y):
        j = St()
        j.env = {}
        j.mon = x.mon if x.mon == y.mon else self.mon.joinmon(x.mon, y.mon)
        jn = {}
        for i, t in x.env.items():
            t2 = y.env.get(i)
            if t2 is t:
                j.env[i] = t
            elif t2 is not None:
                kd = "p" if "p" in (t.a[2] if t.k == "sym" else "", t2.a[2] if t2.k == "sym" else "") or t.k in ("ptr", "idx") else "v"
                j.env[i] = mk("sym", ("j", i), 0, kd)
                jn[j.env[i]] = (t, t2)
        j.cells = {}
        for k, (v, z) in x.cells.items():
            c2 = y.cells.get(k)
            if c2 is None:
                continue
            if c2 == (v, z):
                j.cells[k] = (v, z)
            elif c2[1] == z:
                s = mk("sym", ("jc", k[0].n, k[1]), 0, "v")
                j.cells[k] = (s, z)
                jn[s] = (v, c2[0])
        j.facts = {t: v for t, v in x.facts.items() if y.facts.get(t) is v}
        j.nn = {t for t in x.nn if t in y.nn}
        j.rng = {}
        for t, (lo, hi) in x.rng.items():
            r = y.rng.get(t)
            if r is not None:
                lo, hi = snap(min(lo, r[0]), max(hi, r[1]))
                if lo is not None:
                    j.rng[t] = (lo, hi)
        for s, (t, t2) in jn.items():
            l1, h1 = self.range(x, t)
            l2, h2 = self.range(y, t2)
            if None not in (l1, h1, l2, h2):
                lo, hi = snap(min(l1, l2), max(h1, h2))
                if lo is not None:
                    j.rng[s] = (lo, hi)
            if self.truth(x, cmp_("eq", 64, t, FALSE)) is False and self.truth(y, cmp_("eq", 64, t2, FALSE)) is False:
                j.nn.add(s)
        j.org = {t: a for t, a in x.org.items() if y.org.get(t) is a}
        j.trail = y.trail
        j.desc = dict(y.desc)
        self.gc(b, j)
        self.canon(j)
        self.mon.merge(self, j, self.fn.blocks[b][0])
        return j

    def block(self, b, st, heap):
        il = self.fn.blocks[b]
        work = [(st, 0)]
        while work:
            st, pos = work.pop()
            try:
                self.straight(b, st, pos, il, work, heap)
            except Infeasible:
                pass

    def goto(self, b, s, st, heap):
        """edge b -> s: evaluate phis"""
        il = self.fn.blocks[s]
        new = []
        for x in il:
            if x.o != "phi":
                break
            for r, p in x.d["ph"]:
                if p == b:
                    new.append((x, self.ev(st, r)))
                    break
        cyc = self.fn.incycle[s]
        if cyc:
            self.mon.edge(self, st, b, s, new)
        for x, t in new:
            if cyc:
                u = self.mon.phi(self, st, x, t)
                t = u if u is not None else self.general(t, x.key, self.fn.flags[x.i]) if self.fn.head[s] else t
            st.env[x.i] = t
        self.enqueue(s, st, heap, b)

    def general(self, t, site, lits):
        """loop-carried arithmetic is abstracted to an unknown"""
        if self.mon.exact:
            return t
        if t.k in ("or", "and") and t.a[1].k == "arg" and isc(t.a[2]):
            return t        # a flag set or cleared once: cannot grow
        if t.k in BIN and t.a[0] != 1 or t.k in ("zext", "sext", "trunc") and t.a[0].k in BIN:
            return mk("sym", site, 0, "v")
        if t.k == "c" and abs(t.a[0]) > 1 and t.a[0] not in lits:
            return mk("sym", site, 0, "v")
        return t

    def emit(self, st, ins, kind, work, pos, **kw):
        """returns True if straight-line execution continues with st"""
        r = self.mon.event(self, st, ins, kind, **kw)
        if r is None:
            return True
        if r is False:
            return False
        for s in r:
            work.append((s, pos))
        return False

    def straight(self, b, st, pos, il, work, heap):
        n = len(il)
        fn = self.fn
        incyc = fn.incycle[b]
        while pos < n:
            ins = il[pos]
            pos += 1
            o = ins.o
            d = ins.d
            if o == "phi":
                continue
            if o == "getelementptr":
                base = self.ev(st, d["a"][0])
                sp = d["st"]
                if incyc and self.mon.steps and len(sp) == 1 and sp[0][0] == "x" and sp[0][3] and base.k in ("ptr", "idx"):
                    # stepping pointer: same object, unknown element
                    if base.k == "ptr" and base.a[0].k == "idx":
                        base = base.a[0]
                    if base.k == "idx":
                        base = base.a[0]
                    st.env[ins.i] = mk("idx", base, self.fresh(st, ins.key), sp[0][2])
                    continue
                t = self.gep(st, base, sp)
                if incyc and t.depth > DEPTH + 3 and not self.mon.exact:
                    l = label(t)
                    t = ptr(self.fresh(st, ins.key, "p"), 0, l or None)
                st.env[ins.i] = t
            elif o == "load":
                addr = self.ev(st, d["a"][0])
                self.deref(st, addr)
                t = self.load(st, ins, addr, d["sz"], d["t"])
                st.env[ins.i] = t
                addr = self.ev(st, d["a"][0]) if d["a"][0] != ins.i else addr
                if not self.emit(st, ins, "load", work, pos, addr=addr, val=t):
                    return
            elif o == "store":
                val = self.ev(st, d["a"][0])
                addr = self.ev(st, d["a"][1])
                self.deref(st, addr)
                c = st.cells.get(baseoff(addr))
                self.store(st, addr, val, d["sz"])
                if not self.emit(st, ins, "store", work, pos, addr=addr, val=val, old=c[0] if c else None):
                    return
            elif o == "icmp":
                x = self.ev(st, d["a"][0])
                y = self.ev(st, d["a"][1])
                ot = d["ot"]
                bits = int(ot[1:]) if ot[0] == "i" and ot[1:].isdigit() else 64
                c = cmp_(d["p"], bits, x, y)
                st.env[ins.i] = c
            elif o in BIN:
                x = self.ev(st, d["a"][0])
                y = self.ev(st, d["a"][1])
                ty = d["t"]
                bits = int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 64
                t = binop(o, bits, x, y)
                if incyc and t.depth > DEPTH + 7 and not self.mon.exact:
                    t = self.fresh(st, ins.key)
                elif incyc and t.k == "ptr" and isc(y) and t.a[1] > 64 and not t.a[2]:
                    t = self.fresh(st, ins.key, "p")
                st.env[ins.i] = t
            elif o in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
                x = self.ev(st, d["a"][0])
                sb = self.bits(d, st, ins)
                db = int(d["t"][1:]) if d["t"][0] == "i" and d["t"][1:].isdigit() else 64
                t = cast(o, x, sb, db)
                if o in ("zext", "sext") and not isc(t) and self.truth(st, t) is None and sb == 1:
                    v = self.truth(st, x)
                    if v is not None:
                        t = C(1 if o == "zext" else -1, db) if v else C(0, db)
                st.env[ins.i] = t
            elif o == "alloca":
                st.env[ins.i] = mk("al", ins.i, d["at"])
                if not self.emit(st, ins, "alloca", work, pos, addr=st.env[ins.i]):
                    return
            elif o == "select":
                c = self.ev(st, d["a"][0])
                v = self.truth(st, c)
                if v is not None:
                    st.env[ins.i] = self.ev(st, d["a"][1 if v else 2])
                else:
                    x = self.ev(st, d["a"][1])
                    y = self.ev(st, d["a"][2])
                    if x is y:
                        st.env[ins.i] = x
                    else:
                        s2 = st.copy()
                        try:
                            self.assume(s2, c, False)
                            s2.env[ins.i] = self.ev(s2, d["a"][2])
                            work.append((s2, pos))
                        except Infeasible:
                            pass
                        self.assume(st, c, True)
                        st.env[ins.i] = self.ev(st, d["a"][1])
            elif o == "extractvalue":
                st.env[ins.i] = xv(self.ev(st, d["a"][0]), tuple(d["ix"]))
            elif o == "insertvalue":
                st.env[ins.i] = mk("iv", self.ev(st, d["a"][0]), self.ev(st, d["a"][1]), tuple(d["ix"]))
            elif o == "call":
                if not self.call(st, ins, work, pos):
                    return
            elif o == "cmpxchg":
                old = self.fresh(st, ins.key)
                addr = self.ev(st, d["a"][0])
                self.deref(st, addr)
                st.env[ins.i] = old
                if not self.emit(st, ins, "cmpxchg", work, pos, addr=addr, exp=self.ev(st, d["a"][1]), new=self.ev(st, d["a"][2]), old=old):
                    return
            elif o == "atomicrmw":
                old = self.fresh(st, ins.key)
                addr = self.ev(st, d["a"][0])
                self.deref(st, addr)
                st.env[ins.i] = old
                if not self.emit(st, ins, "rmw", work, pos, addr=addr, val=self.ev(st, d["a"][1]), old=old, op=d["rmw"]):
                    return
            elif o == "fence":
                if not self.emit(st, ins, "fence", work, pos):
                    return
            elif o == "br":
                ss = d["s"]
                if len(ss) == 1:
                    self.goto(b, ss[0], st, heap)
                    return
                c = self.ev(st, d["a"][0])
                v = self.truth(st, c)
                if v is not None:
                    try:
                        self.assume(st, c, v)
                    except Infeasible:
                        return
                    self.goto(b, ss[0] if v else ss[1], st, heap)
                    return
                s2 = st.copy()
                tr = st.trail
                for s, val, dst in ((s2, False, ss[1]), (st, True, ss[0])):
                    try:
                        self.cur = ins
                        self.assume(s, c, val)
                        s.trail = (ins, tr)
                        self.goto(b, dst, s, heap)
                    except Infeasible:
                        pass
                return
            elif o == "switch":
                c = self.ev(st, d["a"][0])
                tr = st.trail
                w = int(d["ot"][1:])
                for v, dst in d["cs"]:
                    s = st.copy()
                    try:
                        self.cur = ins
                        self.assume(s, cmp_("eq", w, c, C(v, w)), True)
                        s.trail = (ins, tr)
                        self.goto(b, dst, s, heap)
                    except Infeasible:
                        pass
                try:
                    for v, dst in d["cs"]:
                        self.assume(st, cmp_("eq", w, c, C(v, w)), False)
                    st.trail = (ins, tr)
                    self.goto(b, d["d"], st, heap)
                except Infeasible:
                    pass
                return
            elif o == "ret":
                self.exits += 1
                v = self.ev(st, d["a"][0]) if d.get("a") else None
                self.emit(st, ins, "ret", work, pos, val=v)
                return
            elif o == "unreachable":
                return
            else:
                for r in d.get("a", ()):
                    pass
                if ins.i is not None:
                    st.env[ins.i] = self.fresh(st, ins.key, "p" if d.get("t") == "ptr" else "v")

    def bits(self, d, st, ins):
        # source width of a cast: recorded by the exporter
        sb = d.get("st0")
        if sb is not None:
            return sb
        return 64

    def deref(self, st, addr):
        r = rootof(addr)
        if r.k == "sym" or r.k == "arg":
            st.nn.add(r)
        elif isc(r) and r.a[0] == 0:
            # null (plus offset) dereference: not a returning path
            raise Infeasible()

    def call(self, st, ins, work, pos):
        d = ins.d
        q = d.get("q")
        args = [self.ev(st, r) for r in d["a"]]
        if "asm" in d:
            t = None
            for a in args:
                if rootof(a).k == "al":
                    self.havoc(st, rootof(a))
            if ins.i is not None:
                t = self.fresh(st, ins.key)
                st.env[ins.i] = t
            return self.emit(st, ins, "asm", work, pos, asm=d["asm"], con=d["con"], args=args, val=t)
        if q is None:
            fnv = self.ev(st, d["ind"])
            for a in args:
                if self.tracked(a):
                    self.havoc_arg(st, a)
            t = None
            if ins.i is not None:
                t = self.fresh(st, ins.key, "p" if d["t"] == "ptr" else "v")
                st.env[ins.i] = t
            return self.emit(st, ins, "icall", work, pos, fn=fnv, args=args, val=t)
        if q.startswith("llvm."):
            if q.startswith("llvm.expect"):
                st.env[ins.i] = args[0]
                return True
            if q.startswith("llvm.memcpy") or q.startswith("llvm.memmove") or q.startswith("llvm.memset"):
                dst, src, ln = args[0], args[1], args[2]
                if not (isc(ln) and ln.a[0] == 0):
                    self.deref(st, dst)
                self.memop(st, q, dst, src, ln)
                return self.emit(st, ins, "mem", work, pos, q=q.split(".")[1], dst=dst, src=src, n=ln)
            if ins.i is not None:
                if q.startswith("llvm.bswap"):
                    st.env[ins.i] = mk("bswap", int(q.rsplit("i", 1)[1]), args[0])
                elif q.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin", "llvm.abs", "llvm.ctlz", "llvm.cttz")):
                    st.env[ins.i] = mk(q.split(".")[1], *args) if max(a.depth for a in args) < DEPTH else self.fresh(st, ins.key)
                else:
                    st.env[ins.i] = self.fresh(st, ins.key, "p" if d["t"] == "ptr" else "v")
            return True
        for k in d.get("nn", ()):
            a = args[k]
            if isc(a) and a.a[0] == 0:
                raise Infeasible()
            self.deref(st, a)
        t = None
        if d.get("nr"):
            self.emit(st, ins, "abort", work, pos, q=q, args=args)
            return False
        if not self.ispure(q):
            for a in args:
                if a.k in ("al", "ptr", "idx", "arg") and self.tracked(a):
                    self.havocs[q] = self.havocs.get(q, 0) + 1
                    self.havoc_arg(st, a)
        if ins.i is not None:
            t = self.fresh(st, ins.key, "p" if d["t"] == "ptr" else "v")
            # a fresh result must not capture args renamed by sitegen
            args = [self.ev(st, r) for r in d["a"]]
            st.env[ins.i] = t
        return self.emit(st, ins, "call", work, pos, q=q, args=args, val=t)

    def memop(self, st, q, dst, src, ln):
        if not self.tracked(dst):
            return
        b, o = baseoff(dst)
        if rootof(b) is not b or not isc(ln):
            self.havoc(st, rootof(b))
            return
        n = ln.a[0]
        new = {}
        if "memset" in q:
            if isc(src) and src.a[0] == 0:
                new[(b, o)] = (FALSE, n)
        else:
            sb, so = baseoff(src)
            if self.tracked(src) and rootof(sb) is sb:
                for (b2, o2), (v, z) in st.cells.items():
                    if b2 is sb and so <= o2 and o2 + z <= so + n:
                        new[(b, o + o2 - so)] = (v, z)
        self.kill(st, b, o, n)
        st.cells.update(new)
