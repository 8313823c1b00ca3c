"""Linear normal forms and difference-style bounds over symbolic terms (a small
zone-like domain: every fact is one linear inequality, a goal is proved from at
most three of them; casts are looked through, so wrap-around of the machine
arithmetic is assumed away)."""
from engine import *


def lin(t, k=1, out=None):
    """t as {atom: coefficient}, '' is the constant"""
    top = out is None
    if top:
        out = {"": 0}
    if isc(t):
        out[""] += k * t.a[0]
    elif t.k in ("zext", "sext", "trunc"):
        lin(t.a[0], k, out)
    elif t.k == "add":
        lin(t.a[1], k, out)
        lin(t.a[2], k, out)
    elif t.k == "sub":
        lin(t.a[1], k, out)
        lin(t.a[2], -k, out)
    elif t.k == "mul" and isc(t.a[2]):
        lin(t.a[1], k * t.a[2].a[0], out)
    elif t.k == "shl" and isc(t.a[2]) and 0 <= t.a[2].a[0] < 32:
        lin(t.a[1], k << t.a[2].a[0], out)
    elif t.k == "ptr":
        out[""] += k * t.a[1]
        lin(t.a[0], k, out)
    elif t.k == "idx":
        lin(t.a[0], k, out)
        lin(t.a[1], k * t.a[2], out)
    else:
        out[t] = out.get(t, 0) + k
    if top:
        return {a: c for a, c in out.items() if c or a == ""}
    return out


def ladd(x, y, k=1):
    r = dict(x)
    for a, c in y.items():
        r[a] = r.get(a, 0) + k * c
    return {a: c for a, c in r.items() if c or a == ""}


def const(x):
    """value of a form without atoms"""
    return x[""] if len(x) == 1 else None


def atomlow(eng, st, a):
    if a.__class__ is str:
        return None
    lo, hi = eng.range(st, a)
    return lo, hi


def ineqs(eng, st, extra=()):
    """forms known >= 0"""
    out = [lin(x) if x.__class__ is T else x for x in extra]
    for c, v in st.facts.items():
        if c.k in ("ult", "slt"):
            x, y = lin(c.a[1]), lin(c.a[2])
            if v:       # x < y
                f = ladd(y, x, -1)
                f[""] -= 1
            else:       # x >= y
                f = ladd(x, y, -1)
            out.append(f)
        elif c.k == "eq" and v:
            x, y = lin(c.a[1]), lin(c.a[2])
            out.append(ladd(x, y, -1))
            out.append(ladd(y, x, -1))
    for t, (lo, hi) in st.rng.items():
        f = lin(t)
        if lo > -(1 << 62):
            g = dict(f)
            g[""] -= lo
            out.append(g)
        if hi < (1 << 62):
            g = ladd({"": hi}, f, -1)
            out.append(g)
    return out


def prove(eng, st, goal, extra=(), depth=3, unsigned=()):
    """goal (a form) >= 0 follows from the state's facts"""
    fs = None
    unsigned = set(unsigned)

    def triv(g):
        """every atom has a non-negative contribution"""
        s = g[""]
        for a, c in g.items():
            if a == "":
                continue
            lo, hi = eng.range(st, a)
            if lo is None and (a in unsigned or isun(a)):
                lo = 0
            if c > 0 and lo is not None:
                s += c * lo
            elif c < 0 and hi is not None:
                s += c * hi
            else:
                return False
        return s >= 0

    def isun(a):
        return a.k in ("lshr",) or a in un

    un = set()
    for x in list(st.env.values()) + [v for v, z in st.cells.values()] + list(st.facts):
        unsub(x, un)
    if triv(goal):
        return True
    fs = ineqs(eng, st, extra)
    seen = set()

    def rec(g, d):
        if triv(g):
            return True
        if d == 0:
            return False
        key = frozenset(g.items())
        if key in seen:
            return False
        seen.add(key)
        for f in fs:
            # the fact must cancel an atom of the goal
            if any(a != "" and a in g and g[a] * c > 0 for a, c in f.items()):
                for a, c in f.items():
                    if a != "" and a in g and g[a] * c > 0 and g[a] % c == 0:
                        if rec(ladd(g, f, -(g[a] // c)), d - 1):
                            return True
        return False
    return rec(goal, depth)


def unsub(t, out):
    """collect terms that are zero-extended somewhere: they are non-negative when widened"""
    if t.__class__ is not T or not t.syms and t.k != "zext":
        return
    if t.k == "zext":
        out.add(t.a[0])
    for x in t.a:
        if x.__class__ is T:
            unsub(x, out)
