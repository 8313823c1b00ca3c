"""Passes over arrays: proves that a loop does something for every element.

A loop variable that starts at a known place and moves by one element per round is the
loop's index.  What the body does at the element the index designates is a mark; marks made
in every round hold, when the loop ends at its bound, for every element of the range."""
from engine import *
from bounds import lin, ladd, const
from serve import Facts


def loops(fn):
    """natural loops: header -> blocks"""
    n = len(fn.blocks)
    full = (1 << n) - 1
    dom = [full] * n
    dom[0] = 1
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            d = full
            for p in fn.pred[b]:
                d &= dom[p]
            d |= 1 << b
            if d != dom[b]:
                dom[b] = d
                ch = True
    out = {}
    for b in range(n):
        for h in fn.succ[b]:
            if dom[b] >> h & 1:
                body = out.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(fn.pred[x])
    return out


LOOPFACTS = ("m", "ev", "cur", "first", "st", "lo", "is", "ne", "lt", "ge")


class Passes(Facts):
    pure = (r".*",)
    width = 4
    aborts = False
    namedsyms = True
    steps = False
    CONST = ()      # globals that do not change once the server runs
    POS = ()        # globals known to be at least 1

    def loopsof(self, eng):
        if getattr(self, "_fn", None) is not eng.fn:
            self._fn = eng.fn
            self._lp = loops(eng.fn)
        return self._lp

    # -- globals that never change --
    def constload(self, eng, st, addr, val):
        """unify all loads of a constant global; True if it is one"""
        if addr.k != "g" or addr.a[0] not in self.CONST:
            return False
        z = self.get(st, "K", addr.a[0])
        if z is None:
            self.add(st, "K", addr.a[0], val)
            if addr.a[0] in self.POS:
                eng.assume(st, cmp_("slt", 32, FALSE, val), True)
        elif val is not z[2] and val.k == "sym":
            eng.subst(st, {val: z[2]})
        return True

    def K(self, st, n):
        z = self.get(st, "K", n)
        return None if z is None else z[2]

    # -- arrays: name -> (base term, element size) --
    def arrays(self, eng, st):
        return {}

    def elem(self, eng, st, addr):
        """(array, element index as a linear form, offset in the element)"""
        l = lin(addr)
        for n, (A, sz) in self.arrays(eng, st).items():
            if A is None:
                continue
            d = ladd(l, lin(A), -1)
            off = d[""] % sz
            if all(c % sz == 0 for t, c in d.items() if t != "") and A in l or const(d) is not None:
                r = {t: c // sz for t, c in d.items() if t != ""}
                r[""] = d[""] // sz
                return n, r, off
        return None

    def which(self, st, ix):
        """the loops whose current element the index ix is, with an offset"""
        for z in st.mon:
            if z[0] == "cur" and isinstance(z[4], T):
                d = ladd(ix, lin(z[4]), -1)
                c = const(d)
                if c is not None:
                    yield z[1], z[2], c

    def mark(self, st, ix, *tag):
        """tag holds of the element with index ix"""
        c = const(ix)
        if c is not None:
            self.add(st, "one", tag, c)
        for h, i, k in list(self.which(st, ix)):
            self.add(st, "m", h, i, tag, k)

    def unmark(self, st, *tags):
        """these facts no longer hold of any element"""
        f = lambda t: t is not None and t[0] in tags
        st.mon = frozenset(z for z in st.mon if not (z[0] in ("m", "ev") and f(z[3]) or z[0] in ("one", "all") and f(z[1])))

    def marked(self, st, ix, *tag):
        c = const(ix)
        if c is not None and ("one", tag, c) in st.mon:
            return True
        if c is not None:
            for z in st.mon:
                if z[0] == "all" and z[1] == tag and z[2] <= c and z[4] >= 0 and c == 0 and z[3] in (self.K(st, n) for n in self.POS):
                    return True
        return any(("m", h, i, tag, k) in st.mon for h, i, k in self.which(st, ix))

    def every(self, eng, st, lo, hi, *tag):
        """tag holds of all elements lo <= i < hi (a term)"""
        want = lin(hi)
        start = set()
        ok = {lo}
        ch = True
        while ch:
            ch = False
            for z in st.mon:
                if z[0] == "one" and z[1] == tag and z[2] in ok and z[2] + 1 not in ok:
                    ok.add(z[2] + 1)
                    ch = True
        for z in st.mon:
            if z[0] == "all" and (z[1] == tag or z[1] is None) and z[2] <= max(ok) and const(ladd(lin(z[3]), {"": z[4]})) is None and \
                    const(ladd(ladd(lin(z[3]), {"": z[4]}), want, -1)) == 0:
                return True
        w = const(want)
        return w is not None and w in ok

    # -- loop bookkeeping --
    def edge(self, eng, st, frm, to, new):
        lp = self.loopsof(eng)
        self._step = {}
        out = {z[1] for z in st.mon if z[0] == "cur" and to not in lp[z[1]]}
        if out:                         # left
            st.mon = frozenset(z for z in st.mon if not (z[0] in LOOPFACTS and z[1] in out))
        body = lp.get(to)
        self._back = body is not None and frm in body
        if body is None:
            return
        inner = {h for h in lp if h in body}
        if frm not in body:             # enter
            st.mon = frozenset(z for z in st.mon if not (z[0] in LOOPFACTS and z[1] in inner))
            A = self.arrays(eng, st)
            for y, u in new:
                for s, sz in self.starts(eng, st, A, u):
                    self.add(st, "cur", to, y.i, sz, s)
            if any(z[0] == "cur" and z[1] == to for z in st.mon):
                self.add(st, "first", to)
            self.entered(eng, st, to)
            return
        inner = inner - {to}
        nt = {y.i: t for y, t in new}
        keep, cand = set(), []
        for z in st.mon:
            if z[0] != "cur" or z[1] != to:
                continue
            t = nt.get(z[2])
            old = z[4]
            k = None
            if t is not None and isinstance(old, T):
                k = const(ladd(self.index(eng, st, t, z[3]) or {"": 0, None: 1}, lin(old), -1))
            if k in (1, -1, (1 << 32) - 1):
                cand.append((z, 1 if k == 1 else -1))
        first = ("first", to) in st.mon
        for z, k in cand:
            i = z[2]
            m = {(y[3], y[4]) for y in st.mon if y[0] == "m" and y[1] == to and y[2] == i}
            e = m if first else m & {(y[3], y[4]) for y in st.mon if y[0] == "ev" and y[1] == to and y[2] == i}
            keep |= {("ev", to, i, t, o) for t, o in e}
            s = [y for y in st.mon if y[0] == "st" and y[1] == to and y[2] == i]
            dr = s[0][3] if s else k
            if dr == k:
                keep.add(("st", to, i, k))
                # the next index is unknown, but one step on
                p = mk("sym", self.phiins(eng, to, i).key, 0, "i")
                self._step[i] = (p, z[3])
                keep.add(("cur", to, i, z[3], p))
                for y in st.mon:
                    if y[0] == "lo" and y[1] == to and y[2] == i:
                        keep.add(y)
                if first:
                    keep.add(("lo", to, i, z[4]))
        st.mon = frozenset(z for z in st.mon if not (z[0] in LOOPFACTS and (z[1] == to or z[1] in inner))) | keep
        self.again(eng, st, to)

    def entered(self, eng, st, h):
        pass

    def again(self, eng, st, h):
        pass

    def phiins(self, eng, b, i):
        for x in eng.fn.blocks[b]:
            if x.i == i:
                return x

    def starts(self, eng, st, A, u):
        """(starting index, array name or None) for a loop variable that starts as u"""
        if isc(u):
            yield u, None
            return
        if u.k in ("sym",) or u.k == "zext" or u.k == "sext" or u.k in ("add", "sub"):
            l = lin(u)
            if any(t in l for t in self.bounds(st) if t is not None) and not any(a in l for a, _ in A.values() if a is not None):
                yield u, None
        for n, (a, sz) in A.items():
            if a is None:
                continue
            d = ladd(lin(u), lin(a), -1)
            if const(d) is not None and const(d) % sz == 0:
                yield C(const(d) // sz), n

    def index(self, eng, st, t, arr):
        if arr is None:
            return lin(t)
        A, sz = self.arrays(eng, st)[arr]
        d = ladd(lin(t), lin(A), -1)
        if any(c % sz for c in d.values()):
            return None
        return {k: c // sz for k, c in d.items()}

    def phi(self, eng, st, ins, t):
        s = getattr(self, "_step", {}).get(ins.i)
        if s is None:
            # keep the loop's starting values as they are, so that they can be recognised
            for z in st.mon:
                if z[0] == "cur" and z[2] == ins.i and ("first", z[1]) in st.mon:
                    return t
            if t.k in ("ptr", "idx") and getattr(self, "_back", False):
                return mk("sym", ins.key, 0, "p")
            return None
        p, arr = s
        if arr is None:
            return p
        A, sz = self.arrays(eng, st)[arr]
        return idxp(A, p, sz)

    def assume(self, eng, st, c, val):
        if c.k not in ("eq", "slt", "ult"):
            return None
        a, b = lin(c.a[1]), lin(c.a[2])
        d = ladd(a, b, -1)
        A = None
        for z in list(st.mon):
            if z[0] != "cur":
                continue
            _, h, i, arr, t = z
            if arr is not None:
                A = A or self.arrays(eng, st)
                base, sz = A[arr]
            else:
                sz = 1
            if isc(t):
                r = self.exit0(eng, st, h, i, arr, t, c, val, a, b)
                if r is False:
                    return False
                continue
            for s in (1, -1):
                if d.get(t) != s * sz:
                    continue
                # s*(sz*cur + rest): cur ? bound
                bd = {k: -s * v for k, v in d.items() if k is not t}
                if any(v % sz for v in bd.values()):
                    continue
                bd = {k: v // sz for k, v in bd.items()}
                # cur == bd, or cur < bd (s=1), bd < cur (s=-1)
                if self.bound(eng, st, h, i, c, val, s, bd) is False:
                    return False
        return None

    def exit0(self, eng, st, h, i, arr, t, c, val, a, b):
        """first round: the index is still a constant, look for  t ? bound"""
        if arr is not None:
            base, sz = self.arrays(eng, st)[arr]
        else:
            base, sz = None, 1
        for x, y, s in ((a, b, 1), (b, a, -1)):
            cx = const(ladd(x, lin(base), -1)) if base is not None else const(x)
            if cx is None or const(y) is not None:
                continue
            if cx % sz:
                continue
            k = cx // sz - t.a[0]
            if k not in (0, 1):
                continue
            bd = ladd(y, lin(base), -1) if base is not None else dict(y)
            if any(v % sz for v in bd.values()):
                continue
            bd = {q: v // sz for q, v in bd.items()}
            bd[""] = bd.get("", 0) - k
            if self.bound(eng, st, h, i, c, val, s, bd) is False:
                return False

    def bound(self, eng, st, h, i, c, val, s, bd):
        """cur == bd / cur < bd (s = 1) / bd < cur (s = -1) is val"""
        ks = self.bounds(st)
        if any(t != "" and t not in ks for t in bd):
            return
        z = self.get(st, "st", h, i)
        cur = [y[4] for y in st.mon if y[0] == "cur" and y[1] == h and y[2] == i][0]
        lo = self.get(st, "lo", h, i)
        first = ("first", h) in st.mon
        lo = cur if first else lo[3] if lo else None
        if not first and lo is not None and z is not None:
            k = const(ladd(bd, lin(lo), -1))        # the bound, seen from where the loop started
            if k is not None:
                # a later round is beyond the start
                s1 = 0 if s == 1 else 1
                if c.k == "eq" and val and k * z[3] <= 0:
                    return False
                if c.k != "eq" and (s == 1) == val and z[3] == 1 and k + s1 <= 1:        # cur < bound
                    return False
                if c.k != "eq" and (s == 1) != val and z[3] == -1 and k + s1 >= 0:       # cur >= bound
                    return False
        # what it says about the element at hand
        if c.k == "eq":
            self.add(st, "is" if val else "ne", h, i, self.fz(bd))
        elif (s == 1) == val:       # cur < bd, or cur <= bd
            self.add(st, "lt", h, i, self.fz(ladd(bd, {"": 0 if s == 1 else 1})))
        else:                       # cur >= bd, or cur > bd
            self.add(st, "ge", h, i, self.fz(ladd(bd, {"": 0 if s == 1 else 1})))
        if lo is None:
            return
        m = {(y[3], y[4]) for y in st.mon if y[0] == "m" and y[1] == h and y[2] == i}
        e = {(y[3], y[4]) for y in st.mon if y[0] == "ev" and y[1] == h and y[2] == i}
        for d in (1, -1) if z is None else (z[3],):
            if d == 1 and not isc(lo):
                continue
            # visited: everything from lo up to (down to) cur; at least up to (down to) bo
            over = c.k == "eq" and val or c.k != "eq" and (val if s == -d else not val)
            if not over:
                continue
            bo = dict(bd)
            if c.k != "eq" and val:     # strictly beyond the bound
                bo[""] = bo.get("", 0) + d
            t, k = self.asterm(bo)
            if t is None:
                continue
            if d == 1:
                A = [(tag, lo.a[0] + o, t, k + o) for tag, o in e] + [(tag, lo.a[0] + o, t, k + o + 1) for tag, o in (m if first else m & e)]
                if first and not m:
                    A.append((None, lo.a[0], t, k))
            else:
                if not isc(t):
                    continue
                t, k = t.a[0] + k, 0
                u, w = self.asterm(lin(lo))
                if u is None:
                    continue
                A = [(tag, t + 1 + o, u, w + o + 1) for tag, o in e] + [(tag, t + o, u, w + o + 1) for tag, o in (m if first else m & e)]
            for a in A:
                self.add(st, "all", *a)

    def bounds(self, st):
        """what the size of an array may be made of"""
        return {z[2] for z in st.mon if z[0] == "K"}

    def fz(self, f):
        return tuple(sorted(((k, v) for k, v in f.items() if k != "" and v), key=lambda x: x[0].n)) + (("", f.get("", 0)),)

    def last(self, st, ix, n):
        """is the element with index ix the one at n - 1: True, False or None"""
        c = const(ladd(lin(n), ix, -1))
        if c is not None:
            return c == 1
        for h, i, k in self.which(st, ix):
            for z in st.mon:
                if z[0] in ("is", "ne", "lt", "ge") and z[1:3] == (h, i):
                    c = const(ladd(ladd(dict(z[3]), {"": k}), lin(n), -1))
                    if z[0] in ("is", "ge") and c == -1:    # an element of the array is not beyond its last one
                        return True
                    if z[0] in ("ne", "lt") and c == -1:
                        return False
        for h, i, k in self.which(st, ix):      # the first one of a pass downwards
            if any(z[0] == "lo" and z[1] == h and z[2] == i and const(ladd(ladd(lin(z[3]), {"": k}), lin(n), -1)) == -1 for z in st.mon) and ("st", h, i, -1) in st.mon:
                return False
        return None

    def asterm(self, f):
        ts = [(k, v) for k, v in f.items() if k != "" and v]
        if len(ts) == 1 and ts[0][1] == 1:
            return ts[0][0], f.get("", 0)
        if not ts:
            return C(f.get("", 0)), 0
        return None, 0

    def joinmon(self, a, b):
        return a & b

    def gmon(self, m):
        return m
