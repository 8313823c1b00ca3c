"""Keys and key slices (string_slice.hh, masstree_key.hh), byte by byte: every length up to one past a slice, any bytes."""
import os
from engine import *
from serve import Facts
from rcu import finding, findings
from bits import bits, boolean, isbit, swapped, xor_e, Memo

TUS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "probes", "keys.cc")]
SPEC = "root (string_slice|Masstree::key)::(?!operator<<|union_type|unparse_printable).*\nkeep lcdf::(String|StringAccum).*\n"
N = 8            # bytes of a slice, checked against the key's layout


def const(v, w):
    return [v >> i & 1 for i in range(w)]


def val(t, w):
    return [("v", t, i) for i in range(w)]


def byte(base, o):
    """entries of the byte at base + o as it is before the call"""
    return [("v", ("mem", base, o), i) for i in range(8)]


def numof(e, signed=True):
    if not all(isbit(b) for b in e):
        return None
    v = sum(b << i for i, b in enumerate(e))
    return v - (1 << len(e)) if signed and e[-1] else v


def data(base, o, n, lead=0):
    """entries of the comparable slice of the n bytes at base + o"""
    r = []
    for j in range(N - 1, -1, -1):
        r += byte(base, o + j) if j < n else [0] * 8
    return r


def canon(es):
    """entries with each a xor b as the same thing as b xor a"""
    return frozenset(frozenset(e[1:]) if e.__class__ is tuple and e[0] == "x" else e for e in es)


class Path:
    def __init__(self, mon, ret, ins, cells):
        self.mon, self.ins, self.cells = mon, ins, dict(cells)
        self.sub = Memo({z[1]: list(z[2]) for z in mon if z[0] == "sub" and not isc(z[1])})
        self.writes = {(z[1], z[2]): list(z[3]) for z in mon if z[0] == "m"}
        self.ret = ret
        self.calls = [z for z in mon if z[0] == "call"]

    def bits(self, t, w):
        return bits(t, w, None, self.sub)

    def at(self, base, o, n):
        r = []
        for j in range(n):
            r += self.writes.get((base, o + j)) or byte(base, o + j)
        return r

    def zero_sets(self):
        """(entries known to be zero, sets with some entry that is not)"""
        z = set()
        for x in self.mon:
            if x[0] == "zero":
                z |= x[1]
        return z, [x[1] for x in self.mon if x[0] == "some"]


def zero_sets(self):
        """(entries known to be zero, sets with some entry that is not)"""
        z, nz = set(), []
        for c, v in self.facts:
            s = zero_set(c, self.sub)
            if s is None:
                continue
            pos, e = s
            if pos == v:
                z |= e
            else:
                nz.append(e)
        return z, nz


def zero_set(c, sub):
    """(True, E): c is true exactly when all of E are zero; (False, E): false exactly then"""
    pos = True
    while c.k == "not":
        c, pos = c.a[0], not pos
    if c.k in ("zext", "trunc") and c.a[1] == 1:
        s = zero_set(c.a[0], sub)
        return s and (s[0] == pos, s[1])
    if c.k != "eq":
        return None
    for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
        if isc(y) and not y.a[0] and len(sub.get(x, ())) > c.a[0]:
            return (pos, frozenset(e for e in sub[x] if not isbit(e))) if None not in sub[x] else None
    d = [xor_e(a, b) for a, b in zip(bits(c.a[1], c.a[0], None, sub), bits(c.a[2], c.a[0], None, sub))]
    if None in d or any(isbit(e) and e == 1 for e in d):
        return None
    return pos, frozenset(e for e in d if not isbit(e))


class KeyMon(Facts):
    """summarises each path of one case: bytes written, results, undecided branches"""
    width = 40
    pure = (r".*",)
    aborts = False
    exact = True

    def __init__(self, setup):
        self.setup = setup

    def init(self, eng, st):
        eng.paths = []
        self.suffix = None
        self.subs = {}
        m = set()
        for what in self.setup(eng):
            if what[0] == "arg":
                st.env[what[1]] = what[2]
            elif what[0] == "cell":
                _, base, o, t, n = what
                st.cells[(base, o)] = (t, n)
                e = bits(t, 8 * n, None, None)
                for j in range(n):
                    m.add(("m", base, o + j, tuple(e[8 * j:8 * j + 8])))
            elif what[0] == "get":
                self.suffix = what[1]
            elif what[0] == "sub":
                m.add(("sub", what[1], tuple(what[2])))
        return frozenset(m)

    def subst(self, mon):
        k = id(mon)
        r = self.subs.get(k)
        if r is None or r[0] is not mon:
            r = self.subs[k] = (mon, Memo({z[1]: list(z[2]) for z in mon if z[0] == "sub" and not isc(z[1])}))
        return r[1]

    def where(self, st, a):
        b, o = baseoff(a)
        if b.k == "idx":
            e = bits(b.a[1], 64, None, self.subst(st.mon))
            n = numof(e)
            if n is not None:
                b2, o2 = baseoff(b.a[0])
                return b2, o2 + o + n * b.a[2]
            return None
        return b, o

    def bytes(self, st, b, o, n):
        known = {z[2]: z[3] for z in st.mon if z[0] == "m" and z[1] is b}
        r = []
        for j in range(o, o + n):
            r += known.get(j) or byte(b, j)
        return r

    def write(self, st, b, o, e):
        n = len(e) // 8
        new = {("m", b, o + j, tuple(e[8 * j:8 * j + 8])) for j in range(n)}
        st.mon = frozenset(z for z in st.mon if not (z[0] == "m" and z[1] is b and o <= z[2] < o + n)) | new

    def event(self, eng, st, ins, kind, **kw):
        if kind in ("load", "store"):
            n = ins.d.get("sz") or 8
            n = kw.get("size") or n
            w = self.where(st, kw["addr"])
            if w is None:
                eng.report("key-address", ins, "an address that depends on more than the length", st, key="addr")
                return
            b, o = w
            if kind == "store":
                self.write(st, b, o, bits(kw["val"], 8 * n, None, self.subst(st.mon)))
            elif kw["val"].k == "sym":
                e = self.bytes(st, b, o, n)
                if e != bits(kw["val"], 8 * n, None, self.subst(st.mon)):
                    self.add(st, "sub", kw["val"], tuple(e))
        elif kind == "mem":
            n = numof(bits(kw["n"], 64, None, self.subst(st.mon)))
            d = self.where(st, kw["dst"])
            if n is None or n < 0 or d is None:
                eng.report("key-copy", ins, "copies a number of bytes that depends on more than the length", st, key="copy")
                return
            if kw["q"] == "memset":
                self.write(st, d[0], d[1], bits(kw["src"], 8, None, self.subst(st.mon)) * n)
                return
            s = self.where(st, kw["src"])
            if s is None:
                eng.report("key-address", ins, "an address that depends on more than the length", st, key="addr")
                return
            self.write(st, d[0], d[1], self.bytes(st, s[0], s[1], n))
        elif kind == "asm":
            if "bswap" in kw["asm"] and kw["val"] is not None:
                self.add(st, "sub", kw["val"], tuple(swapped(bits(kw["args"][0], 64, None, self.subst(st.mon)))))
        elif kind == "call":
            q = kw["q"].split("::")[-1]
            if q in ("memcmp", "bcmp"):
                n = numof(bits(kw["args"][2], 64, None, self.subst(st.mon)))
                x, y = self.where(st, kw["args"][0]), self.where(st, kw["args"][1])
                if n is not None and 0 <= n <= 16 and x and y:
                    # nothing but whether it is zero is known of the result
                    d = [xor_e(a, b) for a, b in zip(self.bytes(st, x[0], x[1], n), self.bytes(st, y[0], y[1], n))]
                    self.add(st, "sub", kw["val"], tuple(d + [0] * (64 - len(d))))
                    return
            if q == "get" and self.suffix is not None:
                self.add(st, "sub", xv(kw["val"], (1,)), tuple(const(self.suffix, 32)))
            self.add(st, "call", q, kw["val"], tuple(kw["args"]))
        elif kind == "ret":
            eng.paths.append(Path(st.mon, kw.get("val"), ins, st.cells))

    def assume(self, eng, st, cond, val_):
        b = boolean(cond, None, self.subst(st.mon))
        if isbit(b):
            return None if b == int(val_) else False
        s = zero_set(cond, self.subst(st.mon))
        if s is not None:
            self.add(st, "zero" if s[0] == bool(val_) else "some", s[1])

    def merge(self, eng, st, ins):
        live = set()
        for t in st.env.values():
            live |= t.syms
        for v, z in st.cells.values():
            live |= v.syms
        st.mon = frozenset(z for z in st.mon if z[0] != "sub" or z[1].k != "sym" or z[1] in live)


class Run:
    """one function, case by case"""
    def __init__(self, out, fn):
        self.out, self.fn = out, fn
        self.engine = None

    def first(self):
        return self.fn.blocks[0][0]

    def case(self, setup):
        import engine
        e = self.engine = engine.Engine(self.fn, KeyMon(setup), maxtime=60)
        e.paths = []
        e.run()
        self.out["steps"] += e.steps
        self.out["findings"] += findings(e, self.fn)
        self.out["counts"].setdefault("cases", []).append("%s:%s %s" % (self.fn.file, self.fn.line, self.fn.dem))
        return e.paths

    def bad(self, ins, rule, msg, key):
        self.out["findings"].append(finding(self.fn, ins, rule, msg, key))
        return False


def only(r, paths, what):
    if len(paths) == 1:
        return paths[0]
    r.bad(r.first() if not paths else paths[0].ins, "key-paths", "%s: the result depends on more than the length" % what, "paths")
    return None


def check_make(r, sloppy, comparable):
    for ln in list(range(-1, 2 * N + 2)):
        A = []
        p = only(r, r.case(lambda eng: [("arg", 1, C(ln, 32))]), "length %d" % ln)
        if p is None:
            return
        s = r.engine.argt[0]
        e = p.bits(p.ret, 64)
        want = data(s, 0, max(0, min(ln, N)))
        if not comparable:
            want = swapped(want)
        if e != want:
            r.bad(p.ins, "slice-bytes", "for a string of %d bytes the slice is not its first %d bytes, first byte highest, zero filled" % (ln, max(0, min(ln, N))), "bytes")
            return


def value_bytes(v, n):
    """entries of the n first bytes of a slice, in string order"""
    r = []
    for j in range(n):
        r += val(v, 64)[8 * (N - 1 - j):8 * (N - j)]
    return r


def written(p, base, n, want):
    """exactly the n bytes at base are written, with the wanted entries"""
    w = {k[1] for k in p.writes if k[0] is base}
    return w == set(range(n)) and p.at(base, 0, n) == want


def check_unparse_slice(r):
    strip = len(r.fn.args) == 3
    for cap in range(N + 2):
        for ln in (range(1) if strip else range(N + 2)):
            paths = r.case(lambda eng: [("arg", 1, C(cap, 32))] + ([] if strip else [("arg", 3, C(ln, 32))]))
            if not strip:
                p = only(r, paths, "length %d of %d" % (ln, cap))
                if p is None:
                    return
                paths = [p]
            elif not paths:
                return r.bad(r.first(), "key-paths", "never returns", "paths")
            for p in paths:
                buf, v = r.engine.argt[0], r.engine.argt[2]
                n = numof(p.bits(p.ret, 32))
                if n is None or n < 0 or n > cap or not strip and n != min(ln, N, cap):
                    return r.bad(p.ins, "unparse-length", "the number of bytes returned is not that of the string", "length")
                if not written(p, buf, n, value_bytes(v, n)):
                    return r.bad(p.ins, "unparse-bytes", "the buffer does not hold exactly the %d bytes of the slice, first byte first" % n, "bytes")
                if strip:
                    z, nz = p.zero_sets()
                    tail = lambda k: frozenset(value_bytes(v, N)[8 * k:])
                    if n < cap and not tail(n) <= z or n and not any(e <= tail(n - 1) | z for e in nz):
                        return r.bad(p.ins, "unparse-strip", "what is left out is not exactly the trailing zero bytes", "strip")


def equal_result(r, p, want, what):
    """the truth value returned is: all of want are zero"""
    z, nz = p.zero_sets()
    z, nz, want = canon(z), [canon(e) for e in nz], canon(want)
    b = boolean(p.ret, None, p.sub)
    if isbit(b):
        if b == 1 and not want <= z or b == 0 and not any(e <= want | z for e in nz):
            return r.bad(p.ins, "equal-bytes", "%s: the answer does not depend on exactly the bytes compared" % what, "bytes")
        return True
    s = zero_set(p.ret, p.sub)
    s = s and (s[0], canon(s[1]))
    if s is None or not s[0] or not want <= z | s[1] or not s[1] <= want | z:
        return r.bad(p.ins, "equal-bytes", "%s: the answer does not depend on exactly the bytes compared" % what, "bytes")
    return True


def check_equals(r):
    for ln in range(-1, 2 * N + 1):
        paths = r.case(lambda eng: [("arg", 2, C(ln, 32))])
        if not paths:
            return r.bad(r.first(), "key-paths", "never returns", "paths")
        for p in paths:
            a, b = r.engine.argt[:2]
            want = frozenset(xor_e(x, y) for j in range(ln) for x, y in zip(byte(a, j), byte(b, j)))
            if not equal_result(r, p, want, "strings of %d bytes" % ln):
                return


FIRST = mk("arg", "key-first", "first")
IKEY = mk("arg", "key-slice", "slice")
OTHER = mk("arg", "key-other", "other")


class Layout:
    def __init__(self, pr):
        st = pr.structs.get("Masstree::key")
        if st is None:
            raise LookupError("Masstree::key not found")
        f = {x[0]: (x[1], x[2]) for x in st["fields"]}
        try:
            self.ikey, self.len, self.s, self.first = (f[k][0] for k in ("ikey0_", "len_", "s_", "first_"))
        except KeyError as e:
            raise LookupError("field %s of Masstree::key not found" % e)
        if f["ikey0_"][1] != "i64" or f["len_"][1] != "i32":
            raise LookupError("Masstree::key has an unexpected layout")


LENS = list(range(0, N + 3)) + [2 * N, 2 * N + 1]


class KeyRun:
    """cases over the state of a key: its length and how often it was shifted"""
    def __init__(self, r):
        self.r = r
        self.lay = Layout(r.fn.prog)

    def state(self, this, ln, m, ikey=IKEY):
        L = self.lay
        return [("cell", this, L.ikey, ikey, 8), ("cell", this, L.len, C(ln, 32), 4),
                ("cell", this, L.s, ptr(FIRST, N * m), 8), ("cell", this, L.first, FIRST, 8)]

    def final(self, p, this, ikey=None, ln=None, s=None, first=None, why=""):
        L = self.lay
        if ikey is not None and p.at(this, L.ikey, 8) != ikey:
            return self.r.bad(p.ins, "key-slice", "%s: the slice is not that of the key's bytes" % why, "slice")
        if ln is not None and p.at(this, L.len, 4) != const(ln & 0xffffffff, 32):
            return self.r.bad(p.ins, "key-length", "%s: the length is wrong" % why, "length")
        for o, want, what in ((L.s, s, "string"), (L.first, first, "first byte")):
            if want is None:
                continue
            t = p.cells.get((this, o))
            if t is None or baseoff(t[0]) != want:
                return self.r.bad(p.ins, "key-start", "%s: the key's %s is wrong" % (why, what), what)
        return True


def same_string(p, agg, want, ln):
    t = xv(agg, (0,))
    return baseoff(t) == want and p.bits(xv(agg, (1,)), 32) == const(ln & 0xffffffff, 32)


def check_ctor(r):
    k = KeyRun(r)
    L = k.lay
    names = [a[0] for a in r.fn.args]
    types = [a[1] for a in r.fn.args]
    if len(types) == 1:
        return                       # uninitialised
    if types[1] == "ptr":            # (string, length), also as a Str
        for ln in LENS:
            p = only(r, r.case(lambda eng: [("arg", 2, C(ln, 32) if types[2] == "i32" else C(ln, 64))]), "a string of %d bytes" % ln)
            if p is None:
                return
            this, s = r.engine.argt[:2]
            if not k.final(p, this, data(s, 0, ln), ln, (s, 0), (s, 0), "a key of %d bytes" % ln):
                return
    elif len(types) == 2:            # (slice): the length is up to the last byte that is not zero
        for low in list(range(64)) + [None]:
            e = lambda t: [0] * 64 if low is None else [0] * low + [1] + val(t, 64)[low + 1:]
            paths = r.case(lambda eng: [("sub", eng.argt[1], e(eng.argt[1]))] if low is not None else [("arg", 1, C(0, 64))])
            p = only(r, paths, "a slice")
            if p is None:
                return
            this = r.engine.argt[0]
            v = r.engine.argt[1]
            if not k.final(p, this, e(v), 0 if low is None else N - low // 8, None, None, "a key made of a slice"):
                return
    elif len(types) == 3:            # (slice, length)
        for ln in LENS:
            p = only(r, r.case(lambda eng: [("arg", 2, C(ln, 32))]), "a slice of length %d" % ln)
            if p is None or not k.final(p, r.engine.argt[0], val(r.engine.argt[1], 64), min(ln, N), None, None, "a key made of a slice"):
                return
    else:                            # (slice, suffix)
        for ln in LENS:
            p = only(r, r.case(lambda eng: [("arg", 3, C(ln, 32) if types[3] == "i32" else C(ln, 64))]), "a slice with a suffix of %d bytes" % ln)
            if p is None or not k.final(p, r.engine.argt[0], val(r.engine.argt[1], 64), N + ln, (r.engine.argt[2], -N), (r.engine.argt[2], -N), "a key made of a slice and a suffix"):
                return


def states(long=False, shifted=False):
    return [(ln, m) for ln in LENS for m in range(3) if (ln > N or not long) and (m or not shifted)]


def each_state(r, sts, extra=lambda this: []):
    """runs every state, yields (length, shifts, path, this)"""
    k = KeyRun(r)
    for ln, m in sts:
        p = only(r, r.case(lambda eng: k.state(eng.argt[0], ln, m) + extra(eng.argt)), "a key of %d bytes" % ln)
        if p is None:
            return
        yield k, ln, m, p, r.engine.argt[0]


def check_shift(r):
    for k, ln, m, p, this in each_state(r, states(True)):
        if not k.final(p, this, data(FIRST, N * (m + 1), ln - N), ln - N, (FIRST, N * (m + 1)), (FIRST, 0), "shift"):
            return


def check_shift_by(r):
    for by in (0, 1, 3, N):
        for k, ln, m, p, this in each_state(r, [x for x in states() if x[0] >= by], lambda A: [("arg", 1, C(by, 32))]):
            o = N * m + by
            if not k.final(p, this, data(FIRST, o, ln - by), ln - by, (FIRST, o), (FIRST, 0), "shift_by"):
                return


def check_unshift_all(r):
    for k, ln, m, p, this in each_state(r, states()):
        if not k.final(p, this, data(FIRST, 0, ln + N * m) if m else val(IKEY, 64), ln + N * m, (FIRST, 0), (FIRST, 0), "unshift_all"):
            return


def check_unshift(r):
    for k, ln, m, p, this in each_state(r, states(shifted=True)):
        if not k.final(p, this, data(FIRST, N * (m - 1), N), N + 1, (FIRST, N * (m - 1)), (FIRST, 0), "unshift"):
            return


def check_shift_clear(r):
    rev = r.fn.q.endswith("reverse")
    for k, ln, m, p, this in each_state(r, states()):
        if not k.final(p, this, [1 if rev else 0] * 64, N + 1 if rev else 0, (FIRST, N * (m + 1)), (FIRST, 0), r.fn.q.split("::")[-1]):
            return


def check_store_ikey(r):
    for k, ln, m, p, this in each_state(r, states()):
        v = r.engine.argt[1]
        if not k.final(p, this, val(v, 64), ln, (FIRST, N * m), (FIRST, 0), "assign_store_ikey"):
            return
        if {x for x in p.writes if x[0] is FIRST} != {(FIRST, N * m + j) for j in range(N)} or p.at(FIRST, N * m, N) != value_bytes(v, N):
            return r.bad(p.ins, "key-store", "the key's bytes do not become those of the slice", "bytes")


def check_store_suffix(r):
    for n in (0, 1, 5, N, N + 3):
        for k, ln, m, p, this in each_state(r, states(), lambda A: [("arg", 2, C(n, 32))]):
            want = [b for j in range(n) for b in byte(r.engine.argt[1], j)]
            o = N * (m + 1)
            if {x for x in p.writes if x[0] is FIRST} != {(FIRST, o + j) for j in range(n)} or p.at(FIRST, o, n) != want or numof(p.bits(p.ret, 32)) != N + n:
                return r.bad(p.ins, "key-store", "the suffix is not stored after the slice, or the length is wrong", "suffix")
            if not k.final(p, this, val(IKEY, 64), ln, (FIRST, N * m), (FIRST, 0), "assign_store_suffix"):
                return


def check_store_length(r):
    for n in LENS:
        for k, ln, m, p, this in each_state(r, states()[:4], lambda A: [("arg", 1, C(n, 32))]):
            if not k.final(p, this, val(IKEY, 64), n, (FIRST, N * m), (FIRST, 0), "assign_store_length"):
                return


def check_string(r):
    name = r.fn.q.split("::")[-1]
    for k, ln, m, p, this in each_state(r, states(name == "suffix")):
        want = {"suffix": ((FIRST, N * (m + 1)), ln - N), "prefix_string": ((FIRST, 0), N * m)}.get(name, ((FIRST, 0), N * m + ln))
        if not same_string(p, p.ret, *want):
            return r.bad(p.ins, "key-string", "not the part of the string asked for", "string")


def check_number(r):
    name = r.fn.q.split("::")[-1]
    for k, ln, m, p, this in each_state(r, states()):
        want = {"length": ln, "has_suffix": int(ln > N), "suffix_length": ln - N, "is_shifted": int(m > 0), "prefix_length": N * m}
        if name == "ikey":
            ok = p.bits(p.ret, 64) == val(IKEY, 64)
        elif name in ("has_suffix", "is_shifted"):
            ok = boolean(p.ret, None, p.sub) == want[name]
        else:
            ok = p.bits(p.ret, 32) == const(want[name] & 0xffffffff, 32)
        if not ok:
            return r.bad(p.ins, "key-value", "%s() is wrong for a key of %d bytes shifted %d times" % (name, ln, m), name)


def check_unparse(r):
    if len(r.fn.args) != 3:
        return                       # through String: the same bytes
    for cap in (0, 1, 5, N, N + 1, N + 4, 3 * N):
        for k, ln, m, p, this in each_state(r, states(), lambda A: [("arg", 2, C(cap, 32))]):
            n = min(ln, cap)
            want = value_bytes(IKEY, min(n, N)) + [b for j in range(N, n) for b in byte(FIRST, N * m + j)]
            if numof(p.bits(p.ret, 32)) != n or not written(p, r.engine.argt[1], n, want):
                return r.bad(p.ins, "unparse-bytes", "a key of %d bytes is not written out as its first %d bytes" % (ln, n), "bytes")


REL = {"lt": -1, "eq": 0, "gt": 1}


def relation(a, b, rel):
    t = {cmp_("ult", 64, a, b): rel == "lt", cmp_("ult", 64, b, a): rel == "gt", cmp_("eq", 64, a, b): rel == "eq"}
    r = []
    for c, v in t.items():
        if c.k == "not":
            c, v = c.a[0], not v
        r.append(("sub", c, [int(v)]))
    return r


def check_compare(r):
    k = KeyRun(r)
    two = len(r.fn.args) == 2
    other = LENS if two else list(range(N + 1)) + [64, 128]
    for rel in REL:
        for al in LENS:
            for ol in other:
                if two:
                    setup = lambda eng: k.state(eng.argt[0], al, 0) + k.state(eng.argt[1], ol, 0, OTHER) + relation(IKEY, OTHER, rel)
                else:
                    setup = lambda eng: k.state(eng.argt[0], al, 0) + [("arg", 2, C(ol, 32))] + relation(IKEY, eng.argt[1], rel)
                p = only(r, r.case(setup), "comparing lengths %d and %d" % (al, ol))
                if p is None:
                    return
                n = numof(p.bits(p.ret, 32))
                sign = lambda x: (x > 0) - (x < 0)
                want = REL[rel]
                if rel == "eq":
                    want = sign(min(al, N + 1) - min(ol, N + 1))
                if n is None or sign(n) != want:
                    return r.bad(p.ins, "compare-order", "keys whose slices are %s and whose lengths are %d and %d compare wrongly" % ({"lt": "ascending", "eq": "the same", "gt": "descending"}[rel], al, ol), "order")


# ---------------- the slots of a node ----------------
NODE_TUS = ["mtd.cc"]
NODE_SPEC = "root Masstree::(leaf::(compare_key|ksuf_matches|ksuf_equals|ksuf_compare)|internode::compare_key)\nkeep stringbag::.*\n"


def node_field(pr, cls, name):
    for x in pr.structs.get(cls, {}).get("fields", ()):
        if x[0] == name:
            return x[1]
    raise LookupError("%s::%s not found" % (cls, name))


def check_slot_compare(r):
    leaf = "::leaf::" in r.fn.q
    cls = "Masstree::leaf" if leaf else "Masstree::internode"
    oi = node_field(r.fn.prog, cls, "ikey0_")
    k = KeyRun(r)
    plain = r.fn.args[1][1] != "ptr"
    for rel in REL:
        for slot in (0, 1, 7, 14):
            for al in LENS if leaf else (3, N + 1):
                for ol in list(range(N + 1)) + [64, 128] if leaf else (0,):
                    def setup(eng):
                        this, a = eng.argt[:2]
                        l = [("arg", 2, C(slot, 32)), ("cell", this, oi + 8 * slot, OTHER, 8)]
                        if leaf:
                            l.append(("cell", this, node_field(r.fn.prog, cls, "keylenx_") + slot, C(ol, 8), 1))
                        return l + (relation(a, OTHER, rel) if plain else k.state(a, al, 0) + relation(IKEY, OTHER, rel))
                    p = only(r, r.case(setup), "comparing with slot %d" % slot)
                    if p is None:
                        return
                    n = numof(p.bits(p.ret, 32))
                    sign = lambda x: (x > 0) - (x < 0)
                    want = REL[rel]
                    if rel == "eq" and leaf:
                        want = sign(min(al, N + 1) - min(ol, N + 1))
                    if n is None or sign(n) != want:
                        return r.bad(p.ins, "slot-order", "comparing a key with a slot does not depend on exactly the slot's slice and length", "order")


def check_slot_suffix(r):
    ok = node_field(r.fn.prog, "Masstree::leaf", "keylenx_")
    k = KeyRun(r)
    name = r.fn.q.split("::")[-1]
    for slot in (0, 9):
        for kx in list(range(N + 1)) + [64, 128]:
            for sl in (1, 3, N, N + 1):
                for al in (N + 1, N + 3, 2 * N, 2 * N + 1):
                    def setup(eng):
                        this, a = eng.argt[0], eng.argt[2]
                        l = [("arg", 1, C(slot, 32)), ("cell", this, ok + slot, C(kx, 8), 1), ("get", sl)]
                        if len(eng.argt) > 3:
                            l.append(("arg", 3, C(kx, 32)))
                        return l + k.state(a, al, 1)
                    paths = r.case(setup)
                    if not paths:
                        return r.bad(r.first(), "key-paths", "never returns", "paths")
                    for p in paths:
                        if kx != 64 and not (kx == 128 and name == "ksuf_equals"):
                            n = numof(p.bits(p.ret, 32))
                            want = -N if kx == 128 else 1
                            if n != want:
                                return r.bad(p.ins, "slot-match", "a slot of length %d without a stored suffix is answered with %s" % (kx, n), "match")
                            continue
                        if kx != 64:
                            continue
                        g = [z for z in p.mon if z[0] == "call" and z[1] == "get"]
                        if sl != al - N and numof(p.bits(p.ret, 32)) == 0:
                            continue
                        if len(g) != 1 or p.bits(g[0][3][1], 32) != const(slot, 32):
                            return r.bad(p.ins, "slot-suffix", "the suffix compared is not that of the slot", "slot")
                        if sl != al - N:
                            if numof(p.bits(p.ret, 32)) != 0:
                                return r.bad(p.ins, "slot-suffix", "suffixes of different lengths count as equal", "length")
                            continue
                        s = xv(g[0][2], (0,))
                        want = frozenset(xor_e(x, y) for j in range(sl) for x, y in zip(byte(s, j), byte(FIRST, 2 * N + j)))
                        if not equal_result(r, p, want, "suffixes of %d bytes" % sl):
                            return


def nodes(tier):
    return run("keynodes", NODE_TUS, NODE_SPEC, {("leaf", "compare_key"): check_slot_compare, ("internode", "compare_key"): check_slot_compare,
                                                 ("leaf", "ksuf_matches"): check_slot_suffix})


def run(name, tus, spec, checks):
    import build
    import ir
    prog = ir.Program(build.export(name, tus, spec))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    done = set()
    for k, f in enumerate(prog.raw):
        fn = prog.fn(k)
        name = f["q"].split("::")[-1]
        cls = f["q"].split("::")[-2]
        if name == "Str":
            name = "operator lcdf::Str"
            cls = "key"
        h = checks.get((cls, name))
        if h is None:
            continue
        out["blocks"] += len(fn.blocks)
        h(Run(out, fn))
        out["counts"].setdefault("functions", []).append("%s:%s %s" % (fn.file, fn.line, fn.dem[:120]))
        done.add((cls, name))
    missing = [k for k in checks if k not in done]
    if missing:
        raise LookupError("not found: %s" % missing)
    return out


def table(tier):
    return run("keys", TUS, SPEC, CHECKS)


CHECKS = {
    ("string_slice", "make"): lambda r: check_make(r, False, False),
    ("string_slice", "make_comparable"): lambda r: check_make(r, False, True),
    ("string_slice", "make_sloppy"): lambda r: check_make(r, True, False),
    ("string_slice", "make_comparable_sloppy"): lambda r: check_make(r, True, True),
    ("string_slice", "unparse_comparable"): check_unparse_slice,
    ("string_slice", "equals_sloppy"): check_equals,
    ("key", "key"): check_ctor,
    ("key", "shift"): check_shift,
    ("key", "shift_by"): check_shift_by,
    ("key", "unshift_all"): check_unshift_all,
    ("key", "unshift"): check_unshift,
    ("key", "shift_clear"): check_shift_clear,
    ("key", "shift_clear_reverse"): check_shift_clear,
    ("key", "assign_store_ikey"): check_store_ikey,
    ("key", "assign_store_suffix"): check_store_suffix,
    ("key", "assign_store_length"): check_store_length,
    ("key", "suffix"): check_string,
    ("key", "prefix_string"): check_string,
    ("key", "full_string"): check_string,
    ("key", "operator lcdf::Str"): check_string,
    ("key", "ikey"): check_number,
    ("key", "length"): check_number,
    ("key", "has_suffix"): check_number,
    ("key", "suffix_length"): check_number,
    ("key", "is_shifted"): check_number,
    ("key", "prefix_length"): check_number,
    ("key", "unparse"): check_unparse,
    ("key", "compare"): check_compare,
}
