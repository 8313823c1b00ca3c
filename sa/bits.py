"""Bit provenance: where each bit of a term comes from.

An entry is 0, 1, ('v', leaf, i): bit i of the leaf value; ('+', leaf, k, i):
bit i of leaf + 2^k, i >= k; ('o', leaf, k, j): the carry out of bit j - 1 of
that sum; ('x', e1, e2): the exclusive or of two entries; None: unknown.  A
lattice for dataflow over straight bit operations; nothing is enumerated."""
from engine import *


def leaf(t, w, known):
    r = []
    for i in range(w):
        k = known.get((t, i)) if known else None
        r.append(k if k is not None else ("v", t, i))
    return r


def bnot_e(e):
    if e in (0, 1) and e.__class__ is int:
        return 1 - e
    if e is not None and e[0] == "n":
        return e[1]
    return ("n", e) if e is not None else None


def isbit(e):
    return e.__class__ is int


def and_e(a, b):
    if a == 0 and isbit(a) or b == 0 and isbit(b):
        return 0
    if isbit(a):
        return b
    if isbit(b):
        return a
    return a if a == b else None


def or_e(a, b):
    if a == 1 and isbit(a) or b == 1 and isbit(b):
        return 1
    if isbit(a):
        return b
    if isbit(b):
        return a
    return a if a == b else None


def xor_e(a, b):
    if isbit(a) and isbit(b):
        return a ^ b
    if isbit(a):
        return bnot_e(b) if a else b
    if isbit(b):
        return bnot_e(a) if b else a
    if a is None or b is None:
        return None
    parts, flip = [], 0
    for e in (a, b):
        q = [e]
        while q:
            e = q.pop()
            if e[0] == "x":
                q += [e[2], e[1]]
            elif e[0] == "n":
                flip ^= 1
                q.append(e[1])
            elif e in parts:
                parts.remove(e)
            else:
                parts.append(e)
    if not parts:
        return flip
    r = parts[0]
    for e in parts[1:]:
        r = ("x", r, e)
    return ("n", r) if flip else r


def add_e(x, y):
    """sum of two entry lists: constants exactly, leaf + power of two as '+' entries"""
    r = []
    c = 0            # carry: 0, 1 or ('o', leaf, k) symbolic
    for i, (a, b) in enumerate(zip(x, y)):
        if isbit(b) and b == 0 or not isbit(a) and isbit(b):
            pass
        else:
            a, b = b, a
        # b is a constant when either is
        if c is None or a is None or b is None:
            r.append(None)
            c = None if not (isbit(a) and isbit(b) and a == b) else a
            continue
        if isbit(c):
            if isbit(a) and isbit(b):
                s = a + b + c
                r.append(s & 1)
                c = s >> 1
            elif isbit(b):
                # a symbolic, b + c in 0..2
                s = b + c
                if s == 0:
                    r.append(a)
                elif s == 2:
                    r.append(a)
                    c = 1
                    continue
                else:
                    if a[0] == "v" and a[2] == i:
                        r.append(("+", a[1], i, i))
                        c = ("o", a[1], i)
                    else:
                        r.append(None)
                        c = None
                    continue
                c = 0
            elif a == b:
                r.append(c)
                c = None
            else:
                r.append(None)
                c = None
        else:
            if isbit(a) and isbit(b):
                if a + b == 0:
                    r.append(("o", c[1], c[2], i))
                    c = 0
                elif a + b == 2:
                    r.append(("o", c[1], c[2], i))
                    c = 1
                else:
                    r.append(None)
                    c = c
            elif isbit(b) and b == 0 and a == ("v", c[1], i):
                r.append(("+", c[1], c[2], i))
            else:
                r.append(None)
                c = None
    return r


class Memo(dict):
    """a substitution that remembers what it was applied to"""
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.memo.clear()


def bits(t, w, known=None, sub=None):
    """entries of a term, lowest bit first"""
    m = sub.memo if sub.__class__ is Memo and not known else None
    if m is None:
        return bits_(t, w, known, sub)
    r = m.get((t, w))
    if r is None:
        r = m[(t, w)] = bits_(t, w, known, sub)
    return list(r)


def bits_(t, w, known, sub):
    if sub and t in sub:
        return list(sub[t])[:w] + [0] * (w - len(sub[t]))
    k = t.k
    if k == "c":
        v = t.a[0] & ((1 << w) - 1)
        return [v >> i & 1 for i in range(w)]
    if k in ("and", "or", "xor"):
        f = {"and": and_e, "or": or_e, "xor": xor_e}[k]
        return [f(a, b) for a, b in zip(bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub))]
    if k == "add":
        return add_e(bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub))
    if k == "sub":
        return add_sub(bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub))
    if k == "ptr":
        return add_e(bits(t.a[0], w, known, sub), bits(C(t.a[1]), w))
    if k in ("sdiv", "srem"):
        x, y = bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub)
        if all(isbit(b) for b in x + y) and any(y):
            f = lambda z: sum(b << i for i, b in enumerate(z)) - (z[-1] << w)
            p, q = f(x), f(y)
            v = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            v = v if k == "sdiv" else p - v * q
            return [v >> i & 1 for i in range(w)]
        return [None] * w
    if k in ("udiv", "urem"):
        y = bits(t.a[2], w, known, sub)
        if all(isbit(b) for b in y) and sum(y) == 1:
            n = y.index(1)
            x = bits(t.a[1], w, known, sub)
            return x[n:] + [0] * n if k == "udiv" else x[:n] + [0] * (w - n)
        return [None] * w
    if k in ("shl", "lshr", "ashr"):
        s = bits(t.a[2], w, known, sub)
        if not all(isbit(b) for b in s):
            return [None] * w
        n = sum(b << i for i, b in enumerate(s))
        x = bits(t.a[1], t.a[0], known, sub)
        if n >= t.a[0]:
            return [None] * w
        if k == "shl":
            x = [0] * n + x[:len(x) - n]
        else:
            x = x[n:] + ([0] * n if k == "lshr" else [x[-1]] * n)
        return x[:w] + [0] * (w - len(x))
    if k == "mul":
        y = bits(t.a[2], w, known, sub)
        if all(isbit(b) for b in y) and sum(y) == 1:
            n = y.index(1)
            return ([0] * n + bits(t.a[1], w, known, sub))[:w]
        return [None] * w
    if k == "zext":
        x = bits(t.a[0], t.a[1], known, sub)
        return x[:w] + [0] * (w - len(x))
    if k == "sext":
        x = bits(t.a[0], t.a[1], known, sub)
        return (x + [x[-1]] * w)[:w]
    if k == "trunc":
        return bits(t.a[0], w, known, sub)
    if k == "bswap":
        x = bits(t.a[1], t.a[0], known, sub)
        return swapped(x)[:w] + [0] * (w - len(x))
    if k == "cttz":
        x = bits(t.a[0], 64, known, sub)
        n = next((i for i, e in enumerate(x) if not (isbit(e) and e == 0)), None)
        if n is None or not isbit(x[n]):
            return [None] * w
        return [n >> i & 1 for i in range(w)]
    if k in ("eq", "ult", "slt", "not"):
        b = boolean(t, known, sub)
        return [b] + [0] * (w - 1)
    return leaf(t, w, known)


def swapped(x):
    r = []
    for j in range(len(x) - 8, -1, -8):
        r += x[j:j + 8]
    return r


def add_sub(x, y):
    if all(isbit(b) for b in y):
        n = -sum(b << i for i, b in enumerate(y))
        return add_e(x, [n >> i & 1 for i in range(len(x))])
    if any(b is None for b in x) or x != y:
        return [None] * len(x)
    return [0] * len(x)


def boolean(t, known=None, sub=None):
    """entry of a truth value"""
    if sub and t in sub:
        return sub[t][0]
    if t.k == "c":
        return t.a[0] & 1
    if t.k == "not":
        return bnot_e(boolean(t.a[0], known, sub))
    if t.k in ("zext", "trunc"):
        return boolean(t.a[0], known, sub)
    if t.k == "eq":
        w = t.a[0]
        d = [xor_e(a, b) for a, b in zip(bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub))]
        if any(isbit(e) and e == 1 for e in d):
            return 0
        d = [e for e in d if not isbit(e)]
        if not d:
            return 1
        if len(d) == 1:
            return bnot_e(d[0])
        return None
    if t.k == "ult":
        w = t.a[0]
        x, y = bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub)
        if all(isbit(e) for e in x + y):
            f = lambda z: sum(b << i for i, b in enumerate(z))
            return 1 if f(x) < f(y) else 0
        if all(isbit(e) for e in x) and not any(x):     # 0 < y
            return boolean(mk("not", cmp_("eq", w, t.a[2], C(0, w))), known, sub)
    if t.k == "slt":
        w = t.a[0]
        x, y = bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub)
        if all(isbit(e) for e in x + y):
            f = lambda z: sum(b << i for i, b in enumerate(z)) - (z[-1] << w)
            return 1 if f(x) < f(y) else 0
    return ("v", t, 0)


def zeros(t, val, known=None, sub=None):
    """entries that are 0 (and 1) when the truth value t is val: (zero, one)"""
    if t.k == "not":
        return zeros(t.a[0], not val, known, sub)
    if t.k in ("zext", "sext", "trunc") and t.a[1] == 1:
        return zeros(t.a[0], val, known, sub)
    z, o = [], []
    if t.k in ("eq", "ult"):
        w = t.a[0]
        x, y = bits(t.a[1], w, known, sub), bits(t.a[2], w, known, sub)
        if t.k == "eq":
            d = [xor_e(a, b) for a, b in zip(x, y)]
            if val:
                for e in d:
                    if e is not None and not isbit(e):
                        z.append(e)
            else:
                d = [e for e in d if not (isbit(e) and e == 0)]
                if len(d) == 1 and d[0] is not None and not isbit(d[0]):
                    o.append(d[0])
        else:
            if not val:                # y <= x
                x, y = y, x
            if all(isbit(b) for b in y):
                n = sum(b << i for i, b in enumerate(y)) - (1 if val else 0)
                top = n.bit_length() if n >= 0 else 0
                for i in range(top, w):
                    if x[i] is not None and not isbit(x[i]):
                        z.append(x[i])
    norm_z, norm_o = [], []
    for l, same, other in ((z, norm_z, norm_o), (o, norm_o, norm_z)):
        for e in l:
            if e[0] == "n":
                other.append(e[1])
            else:
                same.append(e)
    return norm_z, norm_o
