"""Rules over log replay and recovery: what is read back from a log, what is applied,
what is kept of the log file."""
from engine import *
from readers import field
from bounds import lin, ladd, const, prove
from serve import Facts

TUS = ["log.cc"]
SPEC_STORE = "root logrec_.*::store\n"
SPEC_EXTRACT = "root logrecord::extract\n"
HDR = {"kv": "logrec_kv", "delta": "logrec_kvdelta", "epoch": "logrec_epoch", "base": "logrec_base"}
BITS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i1": 1}


def layout(pr):
    L = {}
    for k, s in HDR.items():
        z = pr.structs.get(s)
        if z is None:
            raise LookupError("record type %s not found" % s)
        L[k] = {"size": z["size"]}
        for f in ("command_", "size_", "ts_", "prev_ts_", "keylen_", "buf_", "epoch_"):
            o = field(pr, s, f)
            if o is not None:
                L[k][f] = o
    return L


class StoreMon(Facts):
    """a record writer fills in every field of its record from the operation"""

    def init(self, eng, st):
        self.L = layout(eng.fn.prog)
        m = re.match(r"logrec_(\w+)::", eng.fn.q)
        self.kind = {"kv": "kv", "kvdelta": "delta", "epoch": "epoch", "base": "base"}.get(m.group(1) if m else "")
        if self.kind is None:
            raise LookupError("unknown record writer %s" % eng.fn.q)
        n = {"kv": 7, "delta": 8, "epoch": 3, "base": 2}[self.kind]
        if len(eng.argt) != n:
            raise LookupError("%s has an unexpected signature" % eng.fn.q)
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        A = eng.argt
        if kind == "mem":
            d, s, n = kw["dst"], kw["src"], kw["n"]
            self.add(st, "cpy", d, s, n)
            if isc(n) and baseoff(d)[0] is A[0] and rootof(s).k in ("arg", "al"):
                c = st.cells.get(baseoff(s))
                if c is not None:
                    self.add(st, "w", baseoff(d)[1], c[0])
        elif kind == "store":
            b, o = baseoff(kw["addr"])
            if b is A[0]:
                st.mon = frozenset(z for z in st.mon if not (z[0] == "w" and z[1] == o)) | {("w", o, kw["val"])}
        elif kind == "ret":
            eng.count("record writers", ins)
            L = self.L[self.kind]
            kv = self.kind in ("kv", "delta")
            size = {"": L["size"]}
            if kv:
                size = ladd(ladd(size, lin(A[3])), lin(A[5]))
            want = {"command_": lin(A[1]), "size_": size}
            if kv:
                want["keylen_"] = lin(A[3])
                want["ts_"] = lin(A[-1])
            if self.kind == "delta":
                want["prev_ts_"] = lin(A[6])
            if self.kind == "epoch":
                want["epoch_"] = lin(A[2])
            for k, v in want.items():
                c = [z[2] for z in st.mon if z[0] == "w" and z[1] == L[k]]
                if not c or const(ladd(lin(c[0]), v, -1)) != 0:
                    eng.report("record-field", ins, "writes a record whose %s is not the operation's" % k.rstrip("_"), st, key=k)
                    return None
            if const(ladd(lin(kw["val"]), size, -1)) != 0:
                eng.report("record-field", ins, "reports a record length other than the one in the record", st, key="ret")
            if kv:
                kp = ladd(lin(A[0]), {"": L["buf_"]})
                for what, p, s, n in (("key", kp, A[2], A[3]), ("value", ladd(kp, lin(A[3])), A[4], A[5])):
                    if not any(z[0] == "cpy" and const(ladd(lin(z[1]), p, -1)) == 0 and z[2] is s and const(ladd(lin(z[3]), lin(n), -1)) == 0 for z in st.mon):
                        eng.report("record-bytes", ins, "does not copy the operation's whole %s into the record" % what, st, key=what)
        return None


class ExtractMon(Facts):
    """reading a record back: only bytes inside the log are looked at, key, value, times and
    epoch come from where the writer put them, and the next record starts right behind"""

    def init(self, eng, st):
        pr = eng.fn.prog
        self.L = layout(pr)
        if len(eng.argt) != 3:
            raise LookupError("logrecord::extract has an unexpected signature")
        self.o = {}
        for k in ("command", "key", "val", "ts", "prev_ts", "epoch"):
            self.o[k] = field(pr, "logrecord", k)
            if self.o[k] is None:
                raise LookupError("logrecord::%s not found" % k)
        self.c = {k: pr.enum(k) for k in ("logcmd_none", "logcmd_put", "logcmd_replace", "logcmd_remove", "logcmd_modify", "logcmd_epoch")}
        if None in self.c.values():
            raise LookupError("log commands not found")
        for k, o in self.o.items():
            if k not in ("key", "val"):
                eng.store(st, ptr(eng.argt[0], o), mk("sym", ("old", k), 0, "v"), 4 if k == "command" else 8)
        return frozenset({("olde", mk("sym", ("old", "epoch"), 0, "v"))})

    def event(self, eng, st, ins, kind, **kw):
        this, buf, end = eng.argt
        if kind == "load":
            b, o = baseoff(kw["addr"])
            if b is buf:
                eng.count("log bytes read", ins)
                n = BITS.get(ins.d["t"], 8)
                g = ladd(lin(end), lin(buf), -1)
                g[""] -= o + n
                if o < 0 or not prove(eng, st, g):
                    eng.report("read-past-log", ins, "reads bytes %d..%d of a record without having checked that the log holds that many" % (o, o + n - 1), st)
                    return False
                self.add(st, "f", o, kw["val"])
        elif kind == "mem" and baseoff(kw["src"])[0] is buf:
            o = baseoff(kw["src"])[1]
            g = ladd(ladd(lin(end), lin(buf), -1), lin(kw["n"]), -1)
            g[""] -= o
            eng.count("log bytes read", ins)
            if o < 0 or not prove(eng, st, g):
                eng.report("read-past-log", ins, "copies bytes from %d on of a record without having checked that the log holds them" % o, st)
                return False
            if isc(kw["n"]) and kw["n"].a[0] in (4, 8):
                t = mk("sym", ("rec", o), 0, "v")
                eng.store(st, kw["dst"], t, kw["n"].a[0])
                self.add(st, "f", o, t)
        elif kind == "ret":
            return self.ret(eng, st, ins, kw["val"])
        return None

    def cell(self, st, o, z=8):
        c = st.cells.get(baseoff(ptr(self.this, o)))
        return c[0] if c else None

    def fld(self, st, o):
        return [z[2] for z in st.mon if z[0] == "f" and z[1] == o]

    def isf(self, st, t, o):
        return t is not None and any(const(ladd(lin(t), lin(x), -1)) == 0 for x in self.fld(st, o))

    def known(self, eng, st, c, names):
        """the command is known to be one of names / known to be none of them"""
        r = [eng.truth(st, cmp_("eq", 32, c, C(self.c[n], 32))) for n in names]
        return True if True in r else False if all(x is False for x in r) else None

    def ret(self, eng, st, ins, val):
        eng.count("exits", ins)
        self.this, buf, end = eng.argt
        cmd = self.cell(st, self.o["command"])
        if cmd is None:
            eng.report("command-unset", ins, "returns without having set the record's command", st)
            return None
        if eng.truth(st, cmp_("eq", 32, cmd, C(self.c["logcmd_none"], 32))) is True:
            eng.count("malformed records", ins)
            return None
        L = self.L["base"]
        if not self.isf(st, cmd, L["command_"]):
            eng.report("record-field", ins, "takes the command from somewhere else than the record's command", st, key="command")
            return None
        if not any(const(ladd(ladd(lin(val), lin(buf), -1), lin(s), -1)) == 0 for s in self.fld(st, L["size_"])):
            eng.report("next-record", ins, "continues somewhere else than right behind the record", st)
            return None
        for s in self.fld(st, L["size_"])[:1]:
            g = ladd(ladd(lin(end), lin(buf), -1), lin(s), -1)
            if not prove(eng, st, g):
                eng.report("read-past-log", ins, "accepts a record that is longer than what is left of the log", st, key="size")
                return None
            h = dict(lin(s))
            h[""] -= L["size"]
            if not prove(eng, st, h):
                eng.report("record-too-short", ins, "accepts a record shorter than a record header (replay would not advance)", st)
                return None
        kv = self.known(eng, st, cmd, ("logcmd_put", "logcmd_replace", "logcmd_remove"))
        dl = self.known(eng, st, cmd, ("logcmd_modify",))
        ep = self.known(eng, st, cmd, ("logcmd_epoch",))
        if kv is True or dl is True:
            eng.count("data records accepted", ins)
            L = self.L["delta" if dl is True else "kv"]
            kl = self.fld(st, L["keylen_"])
            sz = self.fld(st, L["size_"])
            ks, kn = self.cell(st, self.o["key"]), self.cell(st, self.o["key"] + 8)
            vs, vn = self.cell(st, self.o["val"]), self.cell(st, self.o["val"] + 8)
            if not kl or kn is None or not self.isf(st, kn, L["keylen_"]) or ks is None or \
                    const(ladd(lin(ks), ladd(lin(buf), {"": L["buf_"]}), -1)) != 0:
                eng.report("record-field", ins, "takes the key from somewhere else than where it was written", st, key="key")
                return None
            if vs is None or const(ladd(lin(vs), ladd(ladd(lin(buf), {"": L["buf_"]}), lin(kn)), -1)) != 0 or vn is None or \
                    const(ladd(ladd(ladd(lin(vn), lin(kn)), {"": L["size"]}), lin(sz[0]), -1)) != 0:
                eng.report("record-field", ins, "takes the value from somewhere else than where it was written", st, key="value")
                return None
            if not prove(eng, st, lin(vn)):
                eng.report("record-too-short", ins, "accepts a record whose key does not fit its length: the value's length is negative", st)
                return None
            if not self.isf(st, self.cell(st, self.o["ts"]), L["ts_"]):
                eng.report("record-field", ins, "takes the timestamp from somewhere else than the record's", st, key="ts")
                return None
            if dl is True and not self.isf(st, self.cell(st, self.o["prev_ts"]), L["prev_ts_"]):
                eng.report("record-field", ins, "takes the base timestamp from somewhere else than the record's", st, key="prev_ts")
                return None
        elif ep is True:
            eng.count("epoch records accepted", ins)
            if not self.isf(st, self.cell(st, self.o["epoch"]), self.L["epoch"]["epoch_"]):
                eng.report("record-field", ins, "takes the epoch from somewhere else than the epoch record", st, key="epoch")
                return None
        elif None in (kv, dl, ep):
            eng.report("record-kind", ins, "accepts a record without having told its kind", st)
            return None
        if ep is not True:
            e = self.cell(st, self.o["epoch"])
            if e is None or e is not self.get(st, "olde")[1]:
                eng.report("epoch-changed", ins, "changes the current epoch on a record that is not an epoch record", st)
        return None

    def joinmon(self, a, b):
        return a & b

    def gmon(self, m):
        return m


SPEC_REPLAY = r"""
root logreplay::replayandclean1
keep logrecord::extract
keep logrecord::run
keep safe_write
keep lcdf::.*
keep std::.*
"""
KV = ("logcmd_put", "logcmd_replace", "logcmd_remove", "logcmd_modify")


def order(eng, st, a, b):
    """what the facts say about a - b as a signed difference: '<', '>=' , '>' , '<=' (a set)"""
    out = set()
    if a is None or b is None:
        return out
    d = ladd(lin(a), lin(b), -1)
    n = {k: -v for k, v in d.items()}
    for c, v in st.facts.items():
        if c.k not in ("slt", "ult"):
            continue
        e = ladd(lin(c.a[1]), lin(c.a[2]), -1)
        if e == d:
            out.add("<" if v else ">=")
        elif e == n:
            out.add(">" if v else "<=")
    for c, (lo, hi) in st.rng.items():
        if c.k != "sub":
            continue
        e = ladd(lin(c.a[1]), lin(c.a[2]), -1)
        for x, a, b in ((d, "<", ">="), (n, ">", "<=")):
            if e == x:
                out |= {a} if hi is not None and hi < 0 else {b} if lo is not None and lo >= 0 else set()
    return out


def lt(eng, st, a, b):
    """a < b: True, False or None"""
    if a is not None and b is not None and const(ladd(lin(a), lin(b), -1)) == 0:
        return False
    o = order(eng, st, a, b)
    return True if "<" in o else False if o & {">=", ">"} else None


class ReplayMon(Facts):
    """replay applies every record of the epoch window and no other, keeps of the log file
    at least what it applied, and never loses the old file before the new one is on disk"""
    pure = (r"lcdf::.*", r"std::.*", r"logrecord::(extract|run)", r"safe_write", r"(fs|s?n?)printf", r"open(64)?", r"creat(64)?", r"f?stat(64)?", r"ftruncate(64)?",
            r"lseek(64)?", r"fsync", r"fdatasync", r"close", r"munmap", r"rename", r"strerror", r"__errno_location", r"snprintf", r"printf", r"fprintf")
    width = 64

    def init(self, eng, st):
        pr = eng.fn.prog
        if len(eng.argt) != 4:
            raise LookupError("replayandclean1 has an unexpected signature")
        self.this, self.lo, self.hi, self.ti = eng.argt
        self.o = {k: field(pr, "logrecord", k) for k in ("command", "key", "val", "ts", "prev_ts", "epoch")}
        bo, so = field(pr, "logreplay", "buf_"), field(pr, "logreplay", "size_")
        self.c = {k: pr.enum(k) for k in KV + ("logcmd_none", "logcmd_epoch")}
        if None in self.o.values() or bo is None or so is None or None in self.c.values():
            raise LookupError("replay state not found")
        self.consts = frozenset(C(v, 32).a[0] for v in self.c.values())
        self.B, self.S = mk("sym", ("log", "buf"), 0, "p"), mk("sym", ("log", "size"), 0, "v")
        eng.store(st, ptr(self.this, bo), self.B, 8)
        eng.store(st, ptr(self.this, so), self.S, 8)
        st.nn.add(self.B)
        return frozenset({("B", self.B), ("S", self.S), ("bd", self.B), ("next", self.B)})

    def known(self, eng, st, c, names):
        """the command of the record read last is one of names"""
        r = []
        for n in names:
            z = [y[2] for y in st.mon if y[0] == "is" and y[1] == n]
            r.append(z[0] if z else eng.truth(st, cmp_("eq", 32, c, C(self.c[n], 32))))
        return True if True in r else False if all(x is False for x in r) else None

    def lrcell(self, st, k):
        l = self.get(st, "lr")
        if not l:
            return None
        c = st.cells.get(baseoff(ptr(l[1], self.o[k])))
        return c[0] if c else None

    def pred(self, eng, st, k):
        """what is known of the current epoch: zero, before the window, before its end"""
        z = self.get(st, k)
        if z:
            return z[1]
        if k == "m0":
            return eng.truth(st, cmp_("eq", 64, self.lo, FALSE))
        e = self.lrcell(st, "epoch")
        if e is None:
            return None
        if k == "e0":
            return eng.truth(st, cmp_("eq", 64, e, FALSE))
        return lt(eng, st, e, self.lo if k == "elo" else self.hi)

    def window(self, eng, st):
        """is the current epoch inside [lo, ...)?"""
        z, m, l = (self.pred(eng, st, k) for k in ("e0", "m0", "elo"))
        if z is True or m is False and l is True:
            return False
        if z is False and (m is True or l is False):
            return True
        return None

    def settle(self, eng, st, ins, last=False):
        """the record read last is done with"""
        c = self.get(st, "rec")
        if not c:
            return None
        self.drop(st, "rec")
        cmd, pos, nxt, ran = c[1:]
        kv = self.known(eng, st, cmd, KV)
        w = self.window(eng, st)
        none = self.known(eng, st, cmd, ("logcmd_none",))
        ep = self.known(eng, st, cmd, ("logcmd_epoch",))
        if ep is not False and none is not True:
            below = self.pred(eng, st, "ehi")
            if not last and below is not True:
                eng.report("past-window", ins, "goes on to the next record without having established that the epoch it belongs to is to be replayed", st)
                return False
            self.put(st, "hi", below is True)
            self.put(st, "seen", w is True)
            if not self.get(st, "applied") and (self.pred(eng, st, "m0") is True or self.pred(eng, st, "elo") is True):
                self.add(st, "beg", pos)
        if none is not False:
            if not last:
                eng.report("past-corruption", ins, "goes on after a malformed record", st)
                return False
            return None
        if kv is not False and not ran and w is not False and not (last and ep is True):
            eng.report("record-not-applied", ins, "leaves out a data record of the epoch window", st)
            return False
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = re.sub("64$", "", q.split("::")[-1])
            if q == "logrecord::extract":
                return self.extract(eng, st, ins, a, v)
            if q == "logrecord::run":
                return self.run(eng, st, ins, a)
            return self.io(eng, st, ins, k, q, a, v)
        if kind == "ret":
            eng.count("exits", ins)
            if not self.get(st, "done"):
                eng.report("log-not-rewritten", ins, "returns without having cut the log down to what was replayed, on disk", st)
        return None

    def extract(self, eng, st, ins, a, v):
        eng.count("records read", ins)
        if self.get(st, "unmapped") or self.get(st, "rewriting"):
            eng.report("read-after-unmap", ins, "reads a record after the log was unmapped or rewritten", st)
            return False
        if self.settle(eng, st, ins) is False:
            return False
        n = self.get(st, "next")
        if n[1] is not a[1]:
            eng.report("record-skipped", ins, "reads the next record from somewhere else than where the last one ended", st)
            return False
        if const(ladd(ladd(lin(a[2]), lin(self.get(st, "B")[1]), -1), lin(self.get(st, "S")[1]), -1)) != 0:
            eng.report("log-end", ins, "reads records up to another address than the end of the log", st)
            return False
        self.put(st, "lr", a[0])
        old = self.lrcell(st, "epoch")
        if old is None:
            old = mk("sym", ("ep0", ins.key), 0, "v")
        op = tuple(self.pred(eng, st, k) for k in ("e0", "elo", "ehi"))
        if self.window(eng, st):
            self.put(st, "in")
        self.drop(st, "e0", "elo", "ehi", "is")
        cmd = mk("sym", ("cmd", ins.key), 0, "v")
        new = mk("sym", ("ep", ins.key), 0, "v")
        eng.havoc(st, a[0])
        eng.store(st, ptr(a[0], self.o["command"]), cmd, 4)
        eng.store(st, ptr(a[0], self.o["epoch"]), new, 8)
        self.put(st, "pend", cmd, old, *op)
        self.put(st, "rec", cmd, a[1], v, False)
        if any(z[0] == "ge" and z[1] is a[1] for z in st.mon):
            self.add(st, "ge", v)
        self.add(st, "bd", v)
        self.put(st, "next", v)
        st.nn.add(a[1])
        st.nn.add(v)
        return None

    def assume(self, eng, st, c, val):
        r = self.get(st, "rec")
        if r and c.k == "eq" and r[1] in (c.a[1], c.a[2]):
            k = c.a[2] if c.a[1] is r[1] else c.a[1]
            for n in self.c:
                if k is C(self.c[n], 32):
                    self.add(st, "is", n, val)
                    if val:
                        st.mon = frozenset(z for z in st.mon if z[0] != "is") | {("is", m, m == n) for m in self.c}
        p = self.get(st, "pend")
        if p:
            ise = self.known(eng, st, p[1], ("logcmd_epoch",))
            if ise is not None:
                self.drop(st, "pend")
            if ise is False:
                eng.store(st, ptr(self.get(st, "lr")[1], self.o["epoch"]), p[2], 8)
                for k, v in zip(("e0", "elo", "ehi"), p[3:]):
                    if v is not None:
                        self.put(st, k, v)
        if c.k == "eq" and self.lo in c.a[1:] and FALSE in c.a[1:]:
            if self.pred(eng, st, "m0") is (not val):
                return False
            self.put(st, "m0", val)
        e = self.lrcell(st, "epoch")
        if e is not None and c.k == "eq" and FALSE in c.a[1:] and e in c.a[1:] and not isc(e):
            if self.pred(eng, st, "e0") is (not val):
                return False
            self.put(st, "e0", val)
        if e is not None and c.k in ("slt", "ult"):
            x = ladd(lin(c.a[1]), lin(c.a[2]), -1)
            for k, b in (("elo", self.lo), ("ehi", self.hi)):
                d = ladd(lin(e), lin(b), -1)
                if x == d:
                    # the epochs in a log do not go back: once inside the window, no later
                    # record lies before it
                    if self.pred(eng, st, k) is (not val) or val and k == "elo" and self.get(st, "in") and self.pred(eng, st, "m0") is False:
                        return False
                    self.put(st, k, val)
                elif x == {y: -n for y, n in d.items()} and val:
                    self.put(st, k, False)
        if c.k == "eq" and val:
            w = self.get(st, "wrote")
            if w:
                d = ladd(lin(w[1]), lin(w[2]), -1)
                x = ladd(lin(c.a[1]), lin(c.a[2]), -1)
                if const(ladd(x, d)) == 0 or const(ladd(x, d, -1)) == 0:
                    self.put(st, "wrote-ok")
        if c.k == "eq" and isc(c.a[2]) and c.a[2].a[0] == 0 and val:
            for k in ("fsync", "rename", "ftruncate"):
                z = self.get(st, k)
                if z and z[1] is c.a[1]:
                    self.put(st, k + "-ok")
                    if k == "rename":
                        self.put(st, "done")
                    if k == "fsync" and self.get(st, "cut"):
                        self.put(st, "done")
        return None

    def run(self, eng, st, ins, a):
        eng.count("records applied", ins)
        c = self.get(st, "rec")
        if not c or a[0] is not self.get(st, "lr")[1] or self.get(st, "unmapped"):
            eng.report("stale-record", ins, "applies something else than the record read last, while its log is mapped", st)
            return False
        if c[4]:
            eng.report("applied-twice", ins, "applies one record twice", st)
            return False
        if self.known(eng, st, c[1], KV) is not True:
            eng.report("not-a-write", ins, "applies a record that is not known to be a data record", st)
            return False
        if self.window(eng, st) is not True:
            eng.report("before-window", ins, "applies a record without having established that its epoch is not before the epochs to replay", st)
            return False
        h = self.get(st, "hi")
        if not h or not h[1]:
            eng.report("past-window", ins, "applies a record without having established that its epoch is to be replayed", st)
            return False
        self.put(st, "rec", c[1], c[2], c[3], True)
        if not self.get(st, "applied"):
            self.put(st, "applied")
        st.mon = frozenset(z for z in st.mon if z[0] != "ge")
        self.add(st, "ge", c[3])
        return None

    def kept(self, eng, st, ins, first, last):
        """the part [first, last) of the old log is what stays"""
        if last is None:
            eng.report("kept-range", ins, "keeps a part of the log that does not end at a record boundary", st)
            return False
        if self.get(st, "applied"):
            if not any(z[0] == "ge" and z[1] is last for z in st.mon):
                eng.report("kept-range", ins, "cuts records off the log that it applied", st, key="end")
                return False
            if not any(z[0] == "beg" and z[1] is first for z in st.mon):
                eng.report("kept-range", ins, "keeps a part of the log that does not start with the epoch record from which it can be replayed again", st, key="begin")
                return False
        return None

    def bound(self, st, n, first):
        """the record boundary that lies n bytes behind first"""
        e = ladd(lin(n), lin(first))
        for z in st.mon:
            if z[0] == "bd" and const(ladd(e, lin(z[1]), -1)) == 0:
                return z[1]
        return None

    def io(self, eng, st, ins, k, q, a, v):
        B = self.get(st, "B")[1]
        if k in ("ftruncate", "safe_write", "creat", "open", "rename", "fsync") and not self.get(st, "rewriting"):
            if self.settle(eng, st, ins, True) is False:
                return False
            self.put(st, "rewriting")
        if k == "c_str":
            self.add(st, "path", v)
        elif k == "creat" or k == "open":
            eng.count("files opened", ins)
            own = any(z[0] == "path" and z[1] is a[0] for z in st.mon)
            trunc = k == "creat" or isc(a[1]) and a[1].a[0] & 0o1000 or not isc(a[1])
            if own and trunc:
                eng.report("log-truncated", ins, "empties the log file before what has to stay of it is on disk elsewhere", st)
                return False
            self.put(st, "fd", v, own, a[0])
        elif k == "ftruncate":
            eng.count("log cut or copied", ins)
            f = self.get(st, "fd")
            if not f or f[1] is not a[0] or not f[2]:
                eng.report("wrong-file", ins, "truncates something else than the log file", st)
                return False
            if self.kept(eng, st, ins, B, self.bound(st, a[1], B)) is False:
                return False
            self.put(st, "ftruncate", v)
            self.put(st, "data", f[1])
            self.drop(st, "fsync", "fsync-ok")
        elif k == "safe_write":
            eng.count("log cut or copied", ins)
            f = self.get(st, "fd")
            if not f or f[1] is not a[0] or f[2] or self.get(st, "data"):
                eng.report("wrong-file", ins, "writes the kept part of the log to something else than the fresh temporary file", st)
                return False
            if self.kept(eng, st, ins, a[1], self.bound(st, a[2], a[1])) is False:
                return False
            self.put(st, "data", f[1])
            self.put(st, "wrote", v, a[2])
            self.drop(st, "fsync", "fsync-ok")
        elif k in ("fsync", "fdatasync"):
            d = self.get(st, "data")
            eng.count("log syncs", ins)
            if not d or d[1] is not a[0]:
                eng.report("sync-early", ins, "syncs the log file before it was cut or written", st)
                return False
            if not self.complete(eng, st):
                eng.report("unchecked-write", ins, "goes on although the log may have been cut or copied incompletely", st)
                return False
            f = self.get(st, "fd")
            if f and f[2]:
                self.put(st, "cut")
            self.put(st, "fsync", v)
        elif k == "munmap":
            self.put(st, "unmapped")
        elif k == "rename":
            eng.count("logs replaced", ins)
            f = self.get(st, "fd")
            if not f or f[2] or f[3] is not a[0] or not any(z[0] == "path" and z[1] is a[1] for z in st.mon):
                eng.report("wrong-file", ins, "replaces the log file by something else than the copy of its kept part", st)
                return False
            if not self.get(st, "fsync-ok"):
                eng.report("replaced-before-sync", ins, "replaces the log file before its replacement is known to be on disk", st)
                return False
            self.put(st, "rename", v)
        elif k in ("unlink", "remove"):
            eng.report("log-removed", ins, "removes a file during replay", st)
            return False
        return None

    def complete(self, eng, st):
        return bool(self.get(st, "ftruncate-ok") if self.get(st, "ftruncate") else self.get(st, "wrote-ok"))

    def merge(self, eng, st, ins):
        live = set(st.env.values())
        B = self.get(st, "B")[1]
        st.mon = frozenset(z for z in st.mon if z[0] not in ("beg", "bd", "ge", "path") or z[1] in live or z[1] is B or any(
            y[0] in ("next", "rec") and z[1] in y for y in st.mon))
        return None

    def gmon(self, m):
        return frozenset(z if z[0] in ("hi", "seen", "e0", "m0", "elo", "ehi", "is", "B", "S", "next", "lr", "rec", "pend") else z[:1] for z in m if z[0] not in ("beg", "bd", "ge", "path"))

    def joinmon(self, a, b):
        return a & b


SPEC_INFO = r"""
root logreplay::info
root logreplay::min_post_quiescent_wake_epoch
keep lcdf::.*
"""


class LogScanMon(Facts):
    """the passes over a log that find out up to where it can be replayed: they look only
    at bytes of the log, visit every record, and report what the records say"""
    pure = (r"lcdf::String::.*", r"f?printf")
    width = 64

    def init(self, eng, st):
        pr = eng.fn.prog
        self.L = layout(pr)
        self.info = eng.fn.q.endswith("::info")
        if len(eng.argt) != 2:
            raise LookupError("%s has an unexpected signature" % eng.fn.q)
        this = eng.argt[1 if self.info else 0]
        bo, so = field(pr, "logreplay", "buf_"), field(pr, "logreplay", "size_")
        self.c = {k: pr.enum("logcmd_" + k) for k in ("put", "replace", "remove", "modify", "epoch", "wake", "quiesce")}
        self.F = ("first_epoch", "last_epoch", "wake_epoch", "quiescent")
        self.o = {k: field(pr, "logreplay::info_type", k) for k in self.F} if self.info else {}
        if bo is None or so is None or None in self.c.values() or None in self.o.values():
            raise LookupError("log scan state not found")
        self.consts = frozenset(C(v, 32).a[0] for v in self.c.values())
        self.q = None if self.info else eng.argt[1]
        B, S = mk("sym", ("log", "buf"), 0, "p"), mk("sym", ("log", "size"), 0, "v")
        eng.store(st, ptr(this, bo), B, 8)
        eng.store(st, ptr(this, so), S, 8)
        st.nn.add(B)
        return frozenset({("B", B), ("S", S), ("pos", B), ("le", FALSE)})

    def cell(self, eng, st, k):
        c = st.cells.get(baseoff(ptr(eng.argt[0], self.o[k])))
        return c[0] if c else None

    def f(self, st, o):
        for z in st.mon:
            if z[0] == "f" and z[1] == o:
                return z[2]

    def known(self, eng, st, n):
        for z in st.mon:
            if z[0] == "is" and z[1] == n:
                return z[2]
        c = self.f(st, self.L["base"]["command_"])
        return eng.truth(st, cmp_("eq", 32, c, C(self.c[n], 32))) if c is not None else None

    def reads(self, eng, st, ins, addr, n):
        pos = self.get(st, "pos")[1]
        o = const(ladd(lin(addr), lin(pos), -1))
        eng.count("log bytes read", ins)
        if o is None:
            eng.report("record-skipped", ins, "looks at bytes that are not part of the record at hand", st)
            return False
        g = ladd(self.end(st), lin(pos), -1)
        g[""] -= o + n
        if o < 0 or not prove(eng, st, g):
            eng.report("read-past-log", ins, "reads bytes %d..%d of a record without having checked that the log holds that many" % (o, o + n - 1), st)
            return False
        return o

    def end(self, st):
        return ladd(lin(self.get(st, "B")[1]), lin(self.get(st, "S")[1]))

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            r = rootof(kw["addr"])
            if r.k in ("arg", "al", "g"):
                return None
            o = self.reads(eng, st, ins, kw["addr"], BITS.get(ins.d["t"], 8))
            if o is False:
                return False
            old = self.f(st, o)
            if old is not None:
                eng.subst(st, {kw["val"]: old}) if kw["val"].k == "sym" else None
            else:
                self.add(st, "f", o, kw["val"])
            if self.info and not self.get(st, "s"):
                for k in self.F:
                    c = self.cell(eng, st, k)
                    if c is None:
                        eng.report("unset", ins, "starts a scan with %s unset" % k, st, key=k)
                        return False
                    self.add(st, "s", k, c)
        elif kind == "mem" and rootof(kw["src"]).k not in ("arg", "al", "g"):
            n = kw["n"]
            o = self.reads(eng, st, ins, kw["src"], n.a[0] if isc(n) else 1 << 30)
            if o is False:
                return False
            t = self.f(st, o) or mk("sym", ("rec", o), 0, "v")
            self.add(st, "f", o, t)
            if rootof(kw["dst"]).k in ("arg", "al"):
                eng.store(st, kw["dst"], t, n.a[0])
        elif kind == "ret":
            eng.count("exits", ins)
            ep = self.known(eng, st, "epoch")
            if ep is True and self.f(st, self.L["epoch"]["epoch_"]) is not None or any(self.known(eng, st, k) for k in self.c if k != "epoch" and (self.info or k != "wake")):
                eng.report("stopped-early", ins, "stops at a record that is in order, although more may follow", st)
            if not self.info:
                return self.answer(eng, st, ins, kw["val"])
            for k in self.F[:3]:
                c = self.cell(eng, st, k)
                s = [z[2] for z in st.mon if z[0] == "s" and z[1] == k]
                if c is None or s and c is not s[0] and not self.current(eng, st, k, c):
                    eng.report("wrong-answer", ins, "reports a %s that is not the log's" % k.replace("_", " "), st, key=k)
        elif kind == "store" and rootof(kw["addr"]).k not in ("arg", "al"):
            eng.report("log-changed", ins, "writes to the log while looking through it", st)
        return None

    def assume(self, eng, st, c, val):
        cmd = self.f(st, self.L["base"]["command_"])
        if cmd is not None and c.k == "eq" and cmd in c.a[1:] and not isc(cmd):
            k = c.a[2] if c.a[1] is cmd else c.a[1]
            for n in self.c:
                if k is C(self.c[n], 32):
                    if self.known(eng, st, n) is (not val):
                        return False
                    self.add(st, "is", n, val)
                    if val:
                        st.mon = frozenset(z for z in st.mon if z[0] != "is") | {("is", m, m == n) for m in self.c}
        if c.k == "eq" and FALSE in c.a[1:]:
            for k, t in self.watch(st, "0"):
                if t in c.a[1:] and not isc(t):
                    self.put(st, k, val)
        elif c.k in ("slt", "ult"):
            x = ladd(lin(c.a[1]), lin(c.a[2]), -1)
            for k, (a, b) in self.watch(st, "<"):
                d = ladd(lin(a), lin(b), -1)
                if x == d:
                    self.put(st, k, val)
                elif x == {y: -n for y, n in d.items()} and val:
                    self.put(st, k, False)
        return None

    def watch(self, st, what):
        """the comparisons the verdict on a record depends on"""
        s = dict((z[1], z[2]) for z in st.mon if z[0] == "s")
        e = self.f(st, self.L["epoch"]["epoch_"])
        if what == "0":
            return [("first0", s["first_epoch"])] if s else [] if self.info else [("le0", self.get(st, "le")[1])]
        if self.info:
            return [("wrap", (e, s["wake_epoch"]))] if s and e is not None else []
        return [("leq", (self.get(st, "le")[1], self.q))]

    def told(self, eng, st, k):
        z = self.get(st, k)
        if z:
            return z[1]
        for n, t in self.watch(st, "0"):
            if n == k:
                return eng.truth(st, cmp_("eq", 64, t, FALSE))
        for n, (a, b) in self.watch(st, "<"):
            if n == k:
                return lt(eng, st, a, b)

    def current(self, eng, st, k, c):
        """c is what the record at hand makes of field k"""
        s = dict((z[1], z[2]) for z in st.mon if z[0] == "s")
        e = self.f(st, self.L["epoch"]["epoch_"])
        ep, wk = self.known(eng, st, "epoch"), self.known(eng, st, "wake")
        if k == "last_epoch":
            return ep is True and c is e or ep is False and c is s[k]
        if k == "first_epoch":
            z = self.told(eng, st, "first0")
            return ep is False and c is s[k] or ep is True and (z is True and c is e or z is False and c is s[k])
        if k == "wake_epoch":
            if wk is True:
                return c is s["last_epoch"]
            return c is s[k] or ep is True and isc(c) and c.a[0] == 0 and self.told(eng, st, "wrap") is True
        q = self.known(eng, st, "quiesce")
        t = c
        while t.k in ("zext", "sext", "trunc"):
            t = t.a[0]
        v = eng.truth(st, t) if t.k != "sym" else None
        return v is not None and v is q or t is cmp_("eq", 32, self.f(st, self.L["base"]["command_"]), C(self.c["quiesce"], 32))

    def phi(self, eng, st, ins, t):
        size = self.f(st, self.L["base"]["size_"])
        pos = self.get(st, "pos")[1]
        if size is None or const(ladd(ladd(lin(t), lin(pos), -1), lin(size), -1)) != 0:
            return None
        eng.count("records passed", ins)
        g = dict(lin(size))
        g[""] -= self.L["base"]["size"]
        if not prove(eng, st, g):
            eng.report("no-progress", ins, "goes on behind a record shorter than a record header", st)
        ep, wk = self.known(eng, st, "epoch"), self.known(eng, st, "wake")
        if self.info:
            for k in self.F:
                c = self.cell(eng, st, k)
                if c is None or not self.current(eng, st, k, c):
                    eng.report("wrong-summary", ins, "goes on to the next record without having updated %s from this one" % k.replace("_", " "), st, key=k)
        else:
            le = self.get(st, "le")[1]
            if wk is not False:
                if self.told(eng, st, "le0") is not True and self.told(eng, st, "leq") is not True:
                    eng.report("wake-missed", ins, "passes over a wake record without having established that it lies before the quiescent epoch", st)
        if ep is True:
            e = self.f(st, self.L["epoch"]["epoch_"])
            if e is None:
                eng.report("wrong-summary", ins, "passes over an epoch record without having read its epoch", st, key="epoch")
            else:
                self.put(st, "le", e)
                self.drop(st, "le0", "leq")
        elif ep is None:
            eng.report("wrong-summary", ins, "passes over a record without having told whether it is an epoch record", st, key="epoch")
        self.drop(st, "f", "is", "s", "first0", "wrap")
        p = mk("sym", ins.key, 0, "p")
        self.put(st, "pos", p)
        st.nn.add(p)
        return p

    def answer(self, eng, st, ins, v):
        if eng.truth(st, cmp_("eq", 64, v, FALSE)) is True:
            return None
        le = self.get(st, "le")[1]
        if v is not le or self.known(eng, st, "wake") is not True or self.told(eng, st, "leq") is not False:
            eng.report("wrong-answer", ins, "returns something else than the epoch of the first wake record at or after the quiescent epoch", st)
        return None

    def joinmon(self, a, b):
        return a & b

    def gmon(self, m):
        return frozenset(z for z in m if z[0] in ("is", "B", "S", "pos", "le", "f", "s", "first0", "wrap", "le0", "leq"))


SPEC_RECOVER = r"""
root recover
keep recphase
keep lcdf::.*
keep std::.*
keep read_file_contents
keep threadinfo::.*
"""
REC_TUS = ["mtd.cc"]
PHASES = ("REC_CKP", "REC_LOG_TS", "REC_LOG_ANALYZE_WAKE", "REC_LOG_REPLAY", "REC_DONE")


class RecoverMon(Facts):
    """recovery runs its phases in order and replays a window of epochs that every log can
    vouch for"""
    pure = (r"lcdf::.*", r"std::.*", r"read_file_contents", r"(fs|s?n?)printf", r"open(64)?", r"operator .*", r"threadinfo::.*")
    width = 4
    namedsyms = True
    aborts = False
    GL = ("rec_ckp_min_epoch", "rec_ckp_max_epoch", "rec_replay_min_epoch", "rec_replay_max_epoch", "rec_replay_min_quiescent_last_epoch",
          "rec_log_infos", "nlogger", "nckthreads", "ckp_gen", "recovering", "global_log_epoch")
    DEAD = {"REC_CKP": (), "REC_LOG_TS": ("ckp_gen", "nckthreads"), "REC_LOG_ANALYZE_WAKE": ("rec_replay_min_quiescent_last_epoch", "ckp_gen", "nckthreads"),
            "REC_LOG_REPLAY": ("rec_ckp_min_epoch", "rec_ckp_max_epoch", "rec_replay_min_epoch"), "REC_DONE": ("rec_log_infos",)}
    JS = {"ckp_gen": "generation", "rec_ckp_min_epoch": "min_epoch", "rec_ckp_max_epoch": "max_epoch"}

    def init(self, eng, st):
        pr = eng.fn.prog
        self.P = {pr.enum(k): k for k in PHASES}
        z = pr.structs.get("logreplay::info_type")
        if z is None or None in self.P:
            raise LookupError("recovery state not found")
        self.size = z["size"]
        self.o = {k: field(pr, "logreplay::info_type", k) for k in ("first_epoch", "last_epoch", "wake_epoch", "min_post_quiescent_wake_epoch", "quiescent")}
        if None in self.o.values():
            raise LookupError("log summary fields not found")
        self.n = {v: k for k, v in self.o.items()}
        return frozenset()

    def glob(self, addr):
        return addr.a[0] if addr.k == "g" and addr.a[0] in self.GL else None

    def g(self, st, n):
        for z in st.mon:
            if z[0] == "g" and z[1] == n:
                return z[2]

    def setg(self, st, n, v):
        st.mon = frozenset(z for z in st.mon if not (z[0] == "g" and z[1] == n)) | {("g", n, v)}

    def phase(self, st):
        z = self.get(st, "ph")
        return z[1] if z else None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            n = self.glob(kw["addr"])
            if n:
                v = self.g(st, n)
                if v is None:
                    self.setg(st, n, kw["val"])
                elif kw["val"].k == "sym" and v is not kw["val"]:
                    eng.subst(st, {kw["val"]: v})
                return None
            if self.get(st, "loop"):
                self.read(eng, st, ins, kw["addr"], kw["val"])
        elif kind == "mem":
            n = self.glob(kw["dst"])
            if n:
                s = self.glob(kw["src"])
                v = self.g(st, s) if s else None
                if v is None:
                    v = mk("sym", ins.key, 9, "v")
                    if self.get(st, "loop"):
                        self.read(eng, st, ins, kw["src"], v)
                        v = next((z[3] for z in st.mon if z[0] == "r" and z[3] is v), self.last or v)
                return self.gstore(eng, st, ins, n, v if v is not None else mk("sym", ins.key, 9, "v"))
            if isc(kw["src"]) and any(z[0] == "new" and z[1] is kw["dst"] for z in st.mon):
                self.add(st, "zero", kw["dst"])
        elif kind == "store":
            n = self.glob(kw["addr"])
            if n:
                return self.gstore(eng, st, ins, n, kw["val"])
        elif kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            if q == "recphase":
                return self.enter(eng, st, ins, a)
            if k == "operator[]" and a and a[-1].k == "g" and len(a[-1].a) > 1:
                self.drop(st, "jk")
                self.add(st, "jk", a[0], a[-1].a[1])
            elif k in ("to_u64", "as_u64", "to_i", "as_i"):
                z = self.get(st, "jk")
                if z and z[1] is a[0]:
                    self.add(st, "ju", v, z[2])
            elif q.startswith("operator new"):
                st.nn.add(v)
                self.add(st, "new", v)
            elif q in ("pthread_mutex_lock", "pthread_mutex_unlock") and a[0].k == "g" and a[0].a[0] == "rec_mu":
                if q.endswith("unlock") and self.phase(st) != "REC_DONE":
                    eng.report("recovery-unlocked", ins, "releases the recovery lock before recovery is done", st)
                self.put(st, "mu", not q.endswith("unlock"))
        elif kind == "ret":
            eng.count("exits", ins)
            if not self.get(st, "over"):
                eng.report("still-recovering", ins, "returns without having declared recovery over", st)
        return None

    def gstore(self, eng, st, ins, n, v):
        if n in self.JS and not (isc(v) and v.a[0] == 0) and self.g(st, n) is not v:
            js = [z[2] for z in st.mon if z[0] == "ju" and z[1] is v]
            if self.JS[n] not in js:
                eng.report("checkpoint-field", ins, "takes the checkpoint's %s from somewhere else than the checkpoint's record of it" % self.JS[n].replace("_", " "), st, key=n)
        if n == "recovering":
            on = eng.truth(st, v) if not isc(v) else bool(v.a[0])
            if on is False:
                if self.phase(st) != "REC_DONE" or not self.get(st, "epoch"):
                    eng.report("recovered-early", ins, "declares recovery over before the logs are replayed and the next epoch is set", st)
                    return False
                self.put(st, "over")
        if n == "global_log_epoch":
            eng.count("first epochs set", ins)
            m = self.g(st, "rec_replay_max_epoch")
            d = ladd(lin(v), lin(m), -1) if m is not None else {"": 0}
            if self.phase(st) not in ("REC_LOG_REPLAY", "REC_DONE") or d.get("", 0) != 1 or any(c != 1 or t.k != "eq" for t, c in d.items() if t != ""):
                eng.report("epoch-reused", ins, "starts with another epoch than the one after the last epoch of the recovered logs", st)
                return False
            self.put(st, "epoch")
        self.setg(st, n, v)
        return None

    def enter(self, eng, st, ins, a):
        eng.count("recovery phases", ins)
        ph = self.P.get(a[1].a[0]) if isc(a[1]) else None
        old = self.phase(st)
        want = PHASES[PHASES.index(old) + 1] if old != "REC_DONE" and old else "REC_CKP" if not old else None
        if ph is None or ph != want:
            eng.report("phase-order", ins, "starts a recovery phase out of order", st)
            return False
        r = self.g(st, "recovering")
        if not self.get(st, "mu") or not self.get(st, "mu")[1] or r is None or eng.truth(st, r) is not True and not (isc(r) and r.a[0]):
            eng.report("phase-unannounced", ins, "starts a recovery phase without holding the recovery lock or while writers may run", st)
            return False
        n = self.g(st, "nckthreads" if ph == "REC_CKP" else "nlogger")
        if ph != "REC_DONE" and (n is None or const(ladd(lin(a[0]), lin(n), -1)) != 0):
            eng.report("phase-threads", ins, "does not wait for all threads that take part in this phase", st)
            return False
        if ph == "REC_LOG_TS":
            if isc(n) and n.a[0] == 0 or eng.truth(st, cmp_("eq", 64, n, FALSE)) is True:
                return False    # a server has at least one log
            A = self.g(st, "rec_log_infos")
            z = [z for z in st.mon if z[0] == "zero" and A is not None and const(ladd(lin(z[1]), lin(A), -1)) == 0]
            if not z:
                eng.report("info-unset", ins, "lets the logs report without having cleared the reports: a log without a file leaves garbage", st)
                return False
        for z in st.mon:
            if z[0] == "p":
                st.facts.setdefault(z[1], z[2])
        if ph == "REC_LOG_ANALYZE_WAKE":
            W = [z[2] for z in st.mon if z[0] == "all" and z[1] == "max-wake_epoch"]
            Q = [z[2] for z in st.mon if z[0] == "all" and z[1] == "minq"]
            R = self.g(st, "rec_replay_min_quiescent_last_epoch")
            ok = False
            if W and Q and R is not None:
                for q in Q:
                    ok = ok or R is q
                    for w in W:
                        z = isc(R) and R.a[0] == 0
                        ok = ok or z and (eng.truth(st, cmp_("eq", 64, w, FALSE)) is True or lt(eng, st, w, q) is True or eng.truth(st, cmp_("eq", 64, q, FALSE)) is True)
            if not ok:
                eng.report("missed-wakes", ins, "looks for missed wake records from another epoch than the earliest one at which a quiescent log stops", st)
                return False
        if ph == "REC_LOG_REPLAY":
            lo, ck = self.g(st, "rec_replay_min_epoch"), self.g(st, "rec_ckp_min_epoch")
            if lo is None or lo is not ck:
                eng.report("window-start", ins, "replays from another epoch than the one at which the checkpoint began", st)
                return False
            hi = self.g(st, "rec_replay_max_epoch")
            z = [z for z in st.mon if z[0] == "all" and z[1] == "upper" and z[2] is hi]
            if not z:
                eng.report("window-end", ins, "replays up to an epoch that is not bounded by every log that stops without quiescing and every missed wake record", st)
                return False
            if not any(y[0] == "all" and y[1] == "max-last_epoch" and y[2] is x[3] and self.fromck(eng, st, y[3]) for x in z for y in st.mon):
                eng.report("window-end", ins, "does not consider all logs and the checkpoint for the last epoch to replay", st, key="start")
                return False
        self.drop(st, "r", "ix", "loop", "cur", "p", "ph", "c", "ju", "jk")
        st.mon = frozenset(z for z in st.mon if not (z[0] == "g" and z[1] in self.DEAD[ph] or z[0] in ("new", "zero") and ph != "REC_CKP" or
                                                     z[0] == "all" and z[1] in ("minq", "max-wake_epoch") and ph == "REC_LOG_ANALYZE_WAKE"))
        self.put(st, "ph", ph)
        return None

    def fromck(self, eng, st, v):
        c = self.g(st, "rec_ckp_max_epoch")
        if c is None:
            return False
        if v is c and eng.truth(st, cmp_("eq", 64, c, FALSE)) is True or isc(v) and isc(c) and v.a[0] == c.a[0] == 0:
            return True
        d = ladd(lin(v), lin(c), -1)
        return d.get("") == 1 and all(n == 1 and t.k == "eq" for t, n in d.items() if t != "") or any(z[0] == "nx" and z[1] is v and z[2] is c for z in st.mon)

    # -- the passes over the logs' summaries --
    def bases(self, st):
        """the element a pass is at, for every loop variable that may number the elements"""
        A = self.g(st, "rec_log_infos")
        for z in st.mon:
            if z[0] == "ix" and A is not None:
                t = self.cur(st, z[1])
                if t is not None:
                    yield z[1], z[2], lin(t) if z[2] == "p" else ladd(lin(A), {k: v * self.size for k, v in lin(t).items()})

    def read(self, eng, st, ins, addr, val):
        l = lin(addr)
        self.last = None
        for i, k, base in self.bases(st):
            o = const(ladd(l, base, -1))
            if o in self.n:
                eng.count("log summaries used", ins)
                for z in st.mon:
                    if z[0] == "r" and z[1] == i and z[2] == self.n[o]:
                        self.last = z[3]
                        if val.k == "sym" and val is not z[3]:
                            eng.subst(st, {val: z[3]})
                        break
                else:
                    self.add(st, "r", i, self.n[o], val)

    def header(self, eng, frm, to):
        """is edge frm -> to an entry to (1) or a repetition of (2) a loop with header to"""
        fn = eng.fn
        if not hasattr(self, "hd"):
            self.hd = {}
        if to not in self.hd:
            seen, work = {to}, [to]
            while work:
                for y in fn.succ[work.pop()]:
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            self.hd[to] = (seen, any(to in fn.succ[x] and x not in seen for x in range(len(fn.succ))))
        seen, h = self.hd[to]
        return (2 if frm in seen else 1) if h else 0

    def edge(self, eng, st, frm, to, new):
        A = self.g(st, "rec_log_infos")
        h = self.header(eng, frm, to)
        self.step = {}
        self.hdr = bool(h)
        if A is None or not h:
            return
        if h == 1:
            self.drop(st, "ix", "r", "c", "loop", "nx", "g0", "cur", "p")
            self.put(st, "loop", to)
            ck = self.g(st, "rec_ckp_max_epoch")
            g = self.g(st, "rec_replay_max_epoch")
            if g is not None:
                self.add(st, "c", "upper", "g", g)
                self.put(st, "g0", g)
            for y, u in new:
                if u is A:
                    self.add(st, "ix", y.i, "p")
                    continue
                if isc(u) and u.a[0] == 0:
                    self.add(st, "ix", y.i, "n")
                for k in ("minq", "upper", "max-last_epoch", "max-wake_epoch"):
                    self.add(st, "c", k, y.i, u)
                if self.fromck(eng, st, u):
                    self.add(st, "nx", u, ck)
            return
        if (self.get(st, "loop") or (0, None))[1] != to:
            return
        eng.count("passes over the logs", new[0][0] if new else None)
        nt = {y.i: (y, t) for y, t in new}
        ix = set()
        for z in st.mon:
            if z[0] == "ix" and z[1] in nt and self.cur(st, z[1]) is not None and \
                    const(ladd(lin(nt[z[1]][1]), lin(self.cur(st, z[1])), -1)) == (self.size if z[2] == "p" else 1):
                ix.add(z)
        for z in st.mon:
            if z[0] == "p":
                st.facts.setdefault(z[1], z[2])
        keep = set()
        for x in ix:
            self.fl = {z[2]: z[3] for z in st.mon if z[0] == "r" and z[1] == x[1]}
            for z in st.mon:
                if z[0] != "c" or z[2] == x[1]:
                    continue
                if z[2] == "g":
                    old, t = self.get(st, "g0"), self.g(st, "rec_replay_max_epoch")
                    old = old[1] if old else None
                else:
                    old, t = self.cur(st, z[2]), nt.get(z[2], (0, None))[1]
                if old is not None and t is not None and self.inductive(eng, st, z[1], old, t):
                    keep.add(z)
        st.mon = frozenset(z for z in st.mon if z[0] not in ("c", "r", "ix", "g0", "p")) | keep | ix
        g = self.g(st, "rec_replay_max_epoch")
        if g is not None:
            self.put(st, "g0", g)
        for z in ix:
            y = nt[z[1]][0]
            p = mk("sym", y.key, 0, "p" if z[2] == "p" else "i")
            if z[2] == "p":
                st.nn.add(p)
            self.step[y.i] = p

    def phi(self, eng, st, ins, t):
        if not getattr(self, "hdr", False) or not self.get(st, "loop"):
            return None
        u = self.step.get(ins.i)
        if u is None:
            u = eng.general(t, ins.key, eng.fn.flags[ins.i])
        st.mon = frozenset(z for z in st.mon if z[:2] != ("cur", ins.i)) | {("cur", ins.i, u)}
        return u

    def cur(self, st, i):
        for z in st.mon:
            if z[0] == "cur" and z[1] == i:
                return z[2]

    def fld(self, st, k):
        return self.fl.get(k)

    def inductive(self, eng, st, kind, old, t):
        z0 = lambda v: None if v is None else eng.truth(st, cmp_("eq", 64, v, FALSE)) if not isc(v) else v.a[0] == 0
        le = lambda a, b: a is b or lt(eng, st, b, a) is False or lt(eng, st, a, b) is True
        if kind.startswith("max-"):
            f = self.fld(st, kind[4:])
            if f is None:
                return False
            if z0(f) is True:
                return t is old
            if t is f:
                return z0(f) is False and (z0(old) is True or lt(eng, st, old, f) is True)
            return t is old and (z0(old) is False and lt(eng, st, old, f) is False)
        q = self.fld(st, "quiescent")
        isq = None
        if q is not None:
            isq = eng.truth(st, q) if not isc(q) else bool(q.a[0])
            if isq is None:
                for c, v in st.facts.items():
                    if c.k == "trunc" and c.a[0] is q:
                        isq = v
                    elif c.k == "eq" and q in c.a[1:] and FALSE in c.a[1:]:
                        isq = not v
                    elif c.k == "eq" and c.a[1].k in ("and", "trunc") and q in c.a[1].a and FALSE in c.a[1:]:
                        isq = not v
        f = self.fld(st, "last_epoch")
        if kind == "minq":
            if isq is False:
                return t is old
            if isq is None or f is None:
                return False
            if t is f:
                return z0(old) is True or lt(eng, st, f, old) is True
            return t is old and z0(old) is False and lt(eng, st, f, old) is False
        m = self.fld(st, "min_post_quiescent_wake_epoch")
        nodes = [old]
        if isq is not True and z0(f) is not True:
            if f is None:
                return False
            nodes.append(f)
        if z0(m) is not True:
            if m is None:
                return False
            nodes.append(m)
        if not any(t is x for x in nodes):
            return False
        if t is f and t is not old and (isq is not False or z0(f) is not False) or t is m and t is not old and z0(m) is not False:
            return False
        seen, work = {t}, [t]
        while work:
            x = work.pop()
            for y in nodes:
                if y not in seen and le(x, y):
                    seen.add(y)
                    work.append(y)
        return all(y in seen for y in nodes)

    def assume(self, eng, st, c, val):
        if any(z[0] == "ix" for z in st.mon):
            self.add(st, "p", c, val)
        elif c.k in ("slt", "ult"):
            A = [z[2] for z in st.mon if z[0] == "all"]
            d = ladd(lin(c.a[1]), lin(c.a[2]), -1)
            if sum(1 for t in d if t in A) == 2:
                self.add(st, "p", c, val)
        if not self.get(st, "loop"):
            return None
        if c.k not in ("eq", "slt", "ult"):
            return None
        A, N = self.g(st, "rec_log_infos"), self.g(st, "nlogger")
        if A is None or N is None:
            return None
        d = ladd(lin(c.a[1]), lin(c.a[2]), -1)
        for i, k, base in self.bases(st):
            t = self.cur(st, i)
            end = ladd(lin(A), {k: v * self.size for k, v in lin(N).items()}) if k == "p" else lin(N)
            e = ladd(lin(t), end, -1)
            if d == e and val is (c.k == "eq") or c.k == "eq" and val and d == {k: -v for k, v in e.items()}:
                if t is A or isc(t) and t.a[0] == 0:
                    return False    # a server has at least one log
                out = set()
                for z in st.mon:
                    if z[0] == "c":
                        t = self.g(st, "rec_replay_max_epoch") if z[2] == "g" else self.cur(st, z[2])
                        if t is not None:
                            out.add(("all", z[1], t, z[3]))
                self.drop(st, "c", "ix", "r", "loop", "g0", "cur", "p")
                st.mon = st.mon | out
                return None
        return None

    def joinmon(self, a, b):
        return a & b

    def gmon(self, m):
        return frozenset(z for z in m if z[0] not in ("ju", "jk"))


SPEC_PHASE = r"""
root logreplay::replay
root waituntilphase
root inactive
root recphase
keep waituntilphase
keep inactive
keep logreplay::info
keep logreplay::min_post_quiescent_wake_epoch
keep logreplay::replayandclean1
keep threadinfo::rcu_(start|stop)
keep lcdf::.*
"""


class PhaseMon(Facts):
    """a log's recovery thread does its part in every phase before it reports back"""
    pure = (r".*",)
    width = 16
    aborts = False
    namedsyms = True
    PH = ("REC_LOG_TS", "REC_LOG_ANALYZE_WAKE", "REC_LOG_REPLAY")
    WANT = {"REC_LOG_TS": "sum", "REC_LOG_ANALYZE_WAKE": "wake", "REC_LOG_REPLAY": "run"}

    def init(self, eng, st):
        pr = eng.fn.prog
        self.P = {pr.enum(k): k for k in self.PH}
        self.size = pr.structs.get("logreplay::info_type", {}).get("size")
        self.ow, self.om, self.oq = (field(pr, "logreplay::info_type", k) for k in ("wake_epoch", "min_post_quiescent_wake_epoch", "quiescent"))
        bo = field(pr, "logreplay", "buf_")
        if None in self.P or None in (self.size, self.ow, self.om, self.oq, bo) or len(eng.argt) != 3:
            raise LookupError("log recovery state not found")
        self.B = mk("sym", ("log", "buf"), 0, "p")
        eng.store(st, ptr(eng.argt[0], bo), self.B, 8)
        return frozenset({("B", self.B)})

    def slot(self, st, addr):
        """offset of addr in this log's summary"""
        A = self.get(st, "gl", "rec_log_infos")
        if A is None:
            return None
        d = ladd(lin(addr), lin(A[2]), -1)
        w = lin(self.which)
        return const(ladd(d, {k: v * self.size for k, v in w.items()}, -1))

    def gl(self, st, n, v):
        st.mon = frozenset(z for z in st.mon if z[:2] != ("gl", n)) | {("gl", n, v)}

    def event(self, eng, st, ins, kind, **kw):
        self.which = eng.argt[1]
        if kind == "load":
            a = kw["addr"]
            if a.k == "g":
                old = self.get(st, "gl", a.a[0])
                if old and kw["val"].k == "sym":      # fixed while the phase lasts
                    eng.subst(st, {kw["val"]: old[2]})
                else:
                    self.gl(st, a.a[0], kw["val"])
            elif self.slot(st, a) == self.ow:
                self.put(st, "W", kw["val"])
        elif kind == "mem":
            n, s, d = kw["n"], kw["src"], kw["dst"]
            if s.k == "g" and isc(n) and n.a[0] == 8 and rootof(d).k == "al":
                v = mk("sym", ins.key, 0, "v")
                eng.store(st, d, v, 8)
                self.gl(st, s.a[0], v)
            elif self.slot(st, d) == 0 and isc(n) and n.a[0] > self.oq and self.get(st, "info", s):
                self.put(st, "done", "sum")
                eng.count("summaries reported", ins)
            elif self.slot(st, d) == self.om and rootof(s).k == "al":
                c = st.cells.get(baseoff(s))
                return self.setwake(eng, st, ins, c[0] if c else None)
        elif kind == "store" and self.slot(st, kw["addr"]) == self.om:
            return self.setwake(eng, st, ins, kw["val"])
        elif kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            if q == "waituntilphase":
                eng.count("phases waited for", ins)
                p = self.P.get(a[0].a[0]) if isc(a[0]) else None
                old = self.get(st, "ph")
                want = self.PH[0] if not old else self.PH[self.PH.index(old[1]) + 1] if old[1] != self.PH[-1] else None
                if p is None or p != want or self.get(st, "open"):
                    eng.report("thread-phase", ins, "waits for a phase out of order, or without having reported back for the one before", st)
                    return False
                A = self.get(st, "gl", "rec_log_infos")     # set up before the threads start
                self.drop(st, "done", "gl", "W", "info", "m")
                if A:
                    self.add(st, *A)
                self.put(st, "ph", p)
                self.put(st, "open")
            elif q == "inactive":
                eng.count("phases reported back", ins)
                if not self.get(st, "open"):
                    eng.report("thread-phase", ins, "reports back twice for one phase", st, key="twice")
                    return False
                p = self.get(st, "ph")[1]
                if not self.finished(eng, st, p):
                    eng.report("phase-skipped", ins, "reports back without having done its part of %s" % p, st, key=p)
                    return False
                if self.get(st, "rcu"):
                    eng.report("phase-skipped", ins, "reports back inside an RCU section", st, key="rcu")
                self.drop(st, "open")
            elif k == "info":
                self.put(st, "info", a[0])
            elif k == "min_post_quiescent_wake_epoch":
                R = self.get(st, "gl", "rec_replay_min_quiescent_last_epoch")
                if R and a[1] is R[2]:
                    self.put(st, "m", v)
            elif k == "rcu_start":
                self.put(st, "rcu")
            elif k == "rcu_stop":
                self.drop(st, "rcu")
            elif k == "replayandclean1":
                eng.count("logs replayed", ins)
                lo, hi = self.get(st, "gl", "rec_replay_min_epoch"), self.get(st, "gl", "rec_replay_max_epoch")
                if not lo or not hi or a[1] is not lo[2] or a[2] is not hi[2] or a[0] is not eng.argt[0] or a[3] is not eng.argt[2]:
                    eng.report("replay-window", ins, "replays another window of epochs than the one recovery fixed", st)
                    return False
                if not self.get(st, "rcu"):
                    eng.report("replay-unprotected", ins, "replays outside an RCU section", st)
                if not self.get(st, "ph") or self.get(st, "ph")[1] != "REC_LOG_REPLAY" or self.get(st, "done"):
                    eng.report("thread-phase", ins, "replays its log outside the replay phase, or twice", st, key="replay")
                    return False
                self.put(st, "done", "run")
        elif kind == "ret":
            eng.count("exits", ins)
            if self.get(st, "open") or not self.get(st, "ph") or self.get(st, "ph")[1] != self.PH[-1]:
                eng.report("thread-phase", ins, "returns before the last phase is reported back", st, key="end")
        return None

    def setwake(self, eng, st, ins, v):
        m = self.get(st, "m")
        if v is None or not m or v is not m[1]:
            eng.report("wake-report", ins, "reports another missed wake epoch than the first one at or after the epoch asked for", st)
            return False
        self.put(st, "done", "wake")

    def finished(self, eng, st, p):
        if eng.truth(st, cmp_("eq", 64, self.get(st, "B")[1], FALSE)) is True:
            return True
        d = self.get(st, "done")
        if d and d[1] == self.WANT[p]:
            return True
        if p == "REC_LOG_ANALYZE_WAKE":
            R, W = self.get(st, "gl", "rec_replay_min_quiescent_last_epoch"), self.get(st, "W")
            if R and (isc(R[2]) and R[2].a[0] == 0 or eng.truth(st, cmp_("eq", 64, R[2], FALSE)) is True):
                return True
            return bool(R and W and lt(eng, st, W[1], R[2]) is True)
        return False

    def joinmon(self, a, b):
        return a & b

    def gmon(self, m):
        return m


class CondMon(Facts):
    """the recovery phase hand-shake: state changes under the lock, every waiter is told,
    and nobody goes on without having seen the state it waits for"""
    pure = (r".*",)
    width = 16
    aborts = False

    def init(self, eng, st):
        self.role = eng.fn.q
        self.G = ("rec_state", "rec_nactive")
        return frozenset({("mu",)} if self.role == "recphase" else ())

    def event(self, eng, st, ins, kind, **kw):
        if kind in ("load", "store"):
            a = kw["addr"]
            if a.k != "g" or a.a[0] not in self.G:
                return None
            n = a.a[0]
            eng.count("phase state accesses", ins)
            if not self.get(st, "mu"):
                eng.report("phase-race", ins, "uses the recovery phase without holding its lock", st)
            if kind == "load":
                self.put(st, "v-" + n, kw["val"])
                return None
            v = kw["val"]
            if self.role == "recphase":
                if v is not eng.argt[0 if n == "rec_nactive" else 1]:
                    eng.report("phase-state", ins, "starts another phase, or waits for another number of threads, than asked to", st)
                self.put(st, "set-" + n)
            elif self.role == "inactive" and n == "rec_nactive":
                o = self.get(st, "v-" + n)
                if not o or const(ladd(lin(v), lin(o[1]), -1)) not in (-1, (1 << 32) - 1) or self.get(st, "set-" + n):
                    eng.report("phase-state", ins, "does not take exactly itself off the number of active threads", st)
                self.put(st, "set-" + n)
            else:
                eng.report("phase-state", ins, "changes the recovery phase", st, key="other")
            self.drop(st, "v-" + n, "told")
        elif kind == "call":
            q, a = kw["q"], kw["args"]
            if q in ("pthread_mutex_lock", "pthread_mutex_unlock") and a[0].k == "g" and a[0].a[0] == "rec_mu":
                if q.endswith("_unlock"):
                    self.leave(eng, st, ins)
                    self.drop(st, "mu")
                else:
                    self.put(st, "mu")
            elif q == "pthread_cond_wait":
                eng.count("phase waits", ins)
                if a[0].k != "g" or a[0].a[0] != "rec_cond" or a[1].k != "g" or a[1].a[0] != "rec_mu" or not self.get(st, "mu"):
                    eng.report("phase-race", ins, "waits on the wrong condition, or without the lock", st, key="wait")
                if self.untold(st):
                    eng.report("phase-untold", ins, "waits without having told the others about the change", st)
                self.drop(st, "v-rec_state", "v-rec_nactive")
            elif q == "pthread_cond_broadcast" and a[0].k == "g" and a[0].a[0] == "rec_cond":
                eng.count("phase announcements", ins)
                self.put(st, "told")
        elif kind == "ret":
            eng.count("exits", ins)
            if self.role == "recphase":
                self.leave(eng, st, ins)
            elif self.get(st, "mu"):
                eng.report("phase-race", ins, "returns with the recovery lock held", st, key="ret")
            if self.role == "inactive" and not self.get(st, "set-rec_nactive") or self.role == "recphase" and not (self.get(st, "set-rec_state") and self.get(st, "set-rec_nactive")):
                eng.report("phase-state", ins, "returns without having changed the phase's state", st, key="none")
        return None

    def untold(self, st):
        return any(z[0].startswith("set-") for z in st.mon) and not self.get(st, "told")

    def leave(self, eng, st, ins):
        if self.untold(st):
            eng.report("phase-untold", ins, "goes on without having told the others about the change", st)
        if self.role == "waituntilphase":
            s = self.get(st, "v-rec_state")
            if not s or eng.truth(st, cmp_("eq", 32, s[1], eng.argt[0])) is not True and s[1] is not eng.argt[0]:
                eng.report("phase-early", ins, "goes on without having seen the phase it waits for", st)
        elif self.role == "recphase":
            s = self.get(st, "v-rec_nactive")
            if not s or not (isc(s[1]) and s[1].a[0] == 0 or eng.truth(st, cmp_("eq", 32, s[1], FALSE)) is True):
                eng.report("phase-early", ins, "goes on while threads are still at work in this phase", st)

    def gmon(self, m):
        return frozenset(m)

    def joinmon(self, a, b):
        return a & b
