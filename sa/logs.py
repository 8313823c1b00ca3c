"""Rules over the write-ahead log: recording, flushing, replay."""
from engine import *
from readers import field
from bounds import lin, ladd, const, prove

KEEP_MISC = r"""
keep loginfo::(acquire|release)
keep lcdf::.*
keep std::.*
erase threadinfo::mark
"""
LOGTUS = ["log.cc"]
SPEC_FLUSH = "root loginfo::run\n" + r"""
keep loginfo::(acquire|release)
keep lcdf::.*
keep logrecord::run
keep logreplay::.*
keep check_epoch
keep napms
"""
LOCKED = ("buf_", "pos_", "log_epoch_", "wake_epoch_", "quiescent_epoch_", "waiting_")


def lfield(addr):
    """loginfo member an address names"""
    for l in labels(addr)[:2]:
        if l.startswith("loginfo.") or l.startswith("loginfo::front."):
            f = l.split(".")[-1]
            if f != "f_":
                return f
    return None


class LogMon(Monitor):
    """lock discipline of one log; mon is a frozenset of facts, ('held',) = lock held"""
    pure = (r"lcdf::.*", r"logreplay::.*", r"check_epoch", r"napms", r"logrec_.*", r"write", r"open", r"nanosleep", r"loginfo::.*")

    def off(self, eng):
        pr = eng.fn.prog
        self.o = {}
        for k in ("buf_", "pos_", "log_epoch_", "flushed_epoch_", "len_", "quiescent_epoch_", "wake_epoch_"):
            self.o[k] = field(pr, "loginfo", k)
            if self.o[k] is None:
                raise LookupError("member %s of the log not found" % k)

    def cell(self, eng, st, k):
        c = st.cells.get(baseoff(ptr(eng.argt[0], self.o[k])))
        return c[0] if c else None

    SZ = {"buf_": 8, "pos_": 4, "log_epoch_": 8, "flushed_epoch_": 8, "quiescent_epoch_": 8, "wake_epoch_": 8}

    def seed(self, eng, st, tag):
        """other threads may have used the log: its members hold unknown values"""
        out = {}
        eng.havoc(st, eng.argt[0])
        for k, z in self.SZ.items():
            t = mk("sym", ("li", tag, k), 0, "p" if k == "buf_" else "v")
            # a renamed survivor of an earlier hold must not be confused with it
            if any(t in v.syms for v, _ in st.cells.values()) or any(t in v.syms for v in st.env.values()):
                t = mk("sym", ("li", tag, k), 1, "p" if k == "buf_" else "v")
            eng.store(st, ptr(eng.argt[0], self.o[k]), t, z)
            out[k] = t
        return out

    def get(self, st, k):
        for z in st.mon:
            if z[0] == k:
                return z
        return None

    def put(self, st, *z):
        st.mon = frozenset(y for y in st.mon if y[0] != z[0]) | {z}

    def drop(self, st, *ks):
        st.mon = frozenset(y for y in st.mon if y[0] not in ks)

    def access(self, eng, st, ins, kind, **kw):
        if kind in ("load", "store"):
            f = lfield(kw["addr"])
            if f in LOCKED and rootof(kw["addr"]) is eng.argt[0]:
                eng.count("accesses to log state", ins)
                if not self.get(st, "held"):
                    eng.report("log-state-unlocked", ins, "%s %s of the log without holding the log's lock" % ("reads" if kind == "load" else "writes", f), st)
                    return False
        return None


class FlushMon(LogMon):
    """the logging thread: an epoch is declared flushed only after the buffer that holds
    everything up to it was written completely and synced"""

    def init(self, eng, st):
        self.off(eng)
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        if self.access(eng, st, ins, kind, **kw) is False:
            return False
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            if q == "loginfo::acquire":
                eng.count("log lock acquisitions", ins)
                if self.get(st, "held"):
                    eng.report("log-double-lock", ins, "takes the log lock it already holds", st)
                    return False
                if self.get(st, "drained") and not self.get(st, "written"):
                    eng.report("records-dropped", ins, "goes on to the next buffer although the one taken before was not written out", st)
                    return False
                s = self.seed(eng, st, "run")
                st.mon = frozenset({("held",), ("buf0", s["buf_"]), ("posv", s["pos_"]), ("fd",) + (self.get(st, "fd") or ("fd", NULL))[1:]})
            elif q == "loginfo::release":
                eng.count("log lock releases", ins)
                if not self.get(st, "held"):
                    eng.report("log-unlock-not-held", ins, "releases the log lock without holding it", st)
                    return False
                b0 = self.get(st, "buf0")[1]
                b1, p1, e1 = self.cell(eng, st, "buf_"), self.cell(eng, st, "pos_"), self.cell(eng, st, "log_epoch_")
                dr = self.get(st, "drain")
                if dr:
                    eng.count("buffers taken for writing", ins)
                    if b1 is b0:
                        eng.report("buffer-shared", ins, "empties the log buffer but leaves it in place: new records overwrite the ones being written", st)
                        return False
                    if not (p1 is not None and isc(p1) and p1.a[0] == 0):
                        eng.report("buffer-position", ins, "takes the log buffer but leaves a position other than 0 for the new one", st)
                        return False
                    st.mon = frozenset({("drained", b0, dr[1], e1), ("pg", C(0, 64)), ("fd",) + self.get(st, "fd")[1:]})
                else:
                    if b1 is not b0:
                        eng.report("records-dropped", ins, "replaces the log buffer although it was not emptied", st)
                        return False
                    st.mon = frozenset({("fd",) + self.get(st, "fd")[1:]})
            elif q in ("open", "open64"):
                fl = a[1]
                if isc(fl):
                    if fl.a[0] & 0o1000:
                        eng.report("log-truncated", ins, "opens the log file with O_TRUNC: records not yet checkpointed are lost", st)
                    if not fl.a[0] & 0o2000:
                        eng.report("log-not-appended", ins, "opens the log file without O_APPEND: old records are overwritten", st)
                if not self.get(st, "replayed"):
                    eng.report("log-open-before-replay", ins, "opens the log for writing before its old contents were replayed", st)
                self.put(st, "fd", v)
            elif q == "logreplay::replay":
                self.put(st, "replayed")
            elif q in ("write", "safe_write"):
                eng.count("buffer writes", ins)
                if self.get(st, "held"):
                    return None
                d = self.get(st, "drained")
                if d:
                    P = self.progress(st)
                    at = ladd(lin(a[1]), lin(d[1]), -1)
                    left = ladd(lin(d[2]), lin(a[2]), -1)
                    T = next((t for t in P if const(ladd(at, lin(t), -1)) == 0 and const(ladd(left, lin(t), -1)) == 0), None)
                    self.drop(st, "pg", "pgi", "pend")
                    if T is not None:
                        self.put(st, "wr", a[0])
                        self.put(st, "pend", v, T)
            elif q in ("fsync", "fdatasync"):
                eng.count("syncs", ins)
                if self.written(eng, st, ins):
                    self.put(st, "written")
                    if a[0] is self.get(st, "wr")[1]:
                        self.put(st, "sync", v)
        elif kind == "load":
            if lfield(kw["addr"]) == "pos_" and rootof(kw["addr"]) is eng.argt[0]:
                self.put(st, "posv", kw["val"])
        elif kind == "store":
            f = lfield(kw["addr"])
            if rootof(kw["addr"]) is not eng.argt[0]:
                return None
            if f == "pos_":
                p = kw["val"]
                if isc(p) and p.a[0] == 0:
                    pv = self.get(st, "posv")
                    self.put(st, "drain", pv[1])
                else:
                    self.put(st, "posv", p)
            elif f == "flushed_epoch_":
                eng.count("flushed-epoch updates", ins)
                d = self.get(st, "drained")
                if d is None or not self.written(eng, st, ins):
                    eng.report("flushed-before-write", ins, "declares an epoch flushed although the buffer was not (known to be) written completely", st)
                    return False
                s = self.get(st, "sync")
                if s is None:
                    eng.report("flushed-before-sync", ins, "declares an epoch flushed before the log file was synced", st)
                    return False
                if eng.truth(st, cmp_("eq", 32, s[1], FALSE)) is not True:
                    eng.report("sync-unchecked", ins, "declares an epoch flushed although fsync may have failed", st)
                    return False
                if kw["val"] is not d[3]:
                    eng.report("flushed-epoch-value", ins, "declares flushed an epoch other than the one the written buffer ends with", st)
                    return False
                self.put(st, "written")
        elif kind == "rmw" or kind == "cmpxchg":
            pass
        return None

    def progress(self, st):
        """terms for how much of the buffer is known to be written"""
        return {z[1] for z in st.mon if z[0] == "pg"} | {st.env[z[1]] for z in st.mon if z[0] == "pgi" and z[1] in st.env}

    def assume(self, eng, st, c, val):
        """a write that transferred something moves the written part forward"""
        z = self.get(st, "pend")
        d = self.get(st, "drained")
        if d and self.get(st, "wr") and (c.k == "eq" and val or c.k in ("ult", "slt") and not val):
            # no write transfers more than it was given
            h = ladd(lin(c.a[1]), lin(c.a[2]), -1)
            for t in self.progress(st):
                g = ladd(lin(t), lin(d[2]), -1)
                if const(ladd(g, h, -1)) == 0 or c.k == "eq" and const(ladd(g, h)) == 0:
                    self.put(st, "all")
        if not z or c.k not in ("eq", "slt"):
            return None
        v, T = z[1:]
        x, y = c.a[1], c.a[2]
        n = next((sx(u(t.a[0], 64), 64) for t in (x, y) if isc(t)), None)
        if c.k == "eq" and v in (x, y):
            ok = val and (n is None or n >= 0)
        elif c.k == "slt" and n is not None and v in (x, y):
            ok = not val and n >= 0 if v is x else val and n >= -1
        else:
            return None
        if ok:
            self.drop(st, "pend")
            st.mon = st.mon | {("pg", binop("add", 64, T, v))}
        return None

    def edge(self, eng, st, frm, to, new):
        """a written amount that is carried into a block keeps its name there"""
        P = self.progress(st)
        ids = {y.i for y, t in new}
        out = {("pgi", y.i) for y, t in new if any(const(ladd(lin(t), lin(p), -1)) == 0 for p in P)}
        if new or out:
            keep = {z for z in st.mon if z[0] != "pgi" or z[1] not in ids}
            gone = {st.env[i] for i in ids if i in st.env and st.env[i].k == "sym"}
            st.mon = frozenset(z for z in keep if not (z[0] == "pg" and z[1].syms & gone)) | out

    def written(self, eng, st, ins):
        d = self.get(st, "drained")
        if not d or not self.get(st, "wr"):
            return False
        if self.get(st, "all"):
            return True
        return any(const(ladd(lin(t), lin(d[2]), -1)) == 0 for t in self.progress(st))

    def joinmon(self, a, b):
        return a & b

    def gmon(self, m):
        return frozenset(z[0] for z in m)


SPEC_RECORD = "root loginfo::record\n" + r"""
keep loginfo::(acquire|release)
keep lcdf::.*
keep msgpack::.*
keep logrec_.*::store
keep napms
erase printf
"""
REC = {"logrec_epoch::store": "logrec_epoch", "logrec_base::store": "logrec_base", "logrec_kv::store": "logrec_kv", "logrec_kvdelta::store": "logrec_kvdelta"}


class RecordMon(LogMon):
    """loginfo::record writes exactly one key record, after the epoch and wake records it
    needs, into space it checked, under the lock it was entered with"""
    pure = LogMon.pure + (r"lcdf::.*",)

    def init(self, eng, st):
        self.off(eng)
        pr = eng.fn.prog
        self.cmd = {k: pr.enum(k) for k in ("logcmd_put", "logcmd_modify", "logcmd_epoch", "logcmd_wake")}
        self.size = {k: pr.structs[v]["size"] for k, v in REC.items() if v in pr.structs}
        self.qt = {k: field(pr, "loginfo::query_times", k) for k in ("epoch", "ts", "prev_ts")}
        if None in self.cmd.values() or len(self.size) != 4 or None in self.qt.values():
            raise LookupError("log record layout not recognised: %s %s %s" % (self.cmd, self.size, self.qt))
        self.seed(eng, st, "in")
        for k in self.qt:
            eng.store(st, ptr(eng.argt[2], self.qt[k]), mk("sym", ("qt", k), 0, "v"), 8)
        if len(eng.argt) != 6:
            raise LookupError("loginfo::record has an unexpected signature")
        # the value string is passed in memory
        self.vs, self.vl = mk("sym", ("val", 0), 0, "p"), mk("sym", ("val", 1), 0, "v")
        m = {("held",), ("sum", 0), ("qvs", self.vs), ("qvl", self.vl)} | self.qtm(eng, st)
        self.seedval(eng, st, self.vs, self.vl)
        return frozenset(m)

    def qtm(self, eng, st):
        return {("q" + k, st.cells[baseoff(ptr(eng.argt[2], o))][0]) for k, o in self.qt.items()}

    def seedval(self, eng, st, s, l):
        eng.store(st, eng.argt[5], s, 8)
        eng.store(st, ptr(eng.argt[5], 8), l, 4)

    def q(self, st, k):
        return self.get(st, "q" + k)[1]

    def event(self, eng, st, ins, kind, **kw):
        if self.access(eng, st, ins, kind, **kw) is False:
            return False
        if kind == "call":
            return self.call(eng, st, ins, **kw)
        if kind == "load":
            a = kw["addr"]
            if rootof(a) is eng.argt[0]:
                f = lfield(a)
                if f == "waiting_":
                    self.put(st, "head", kw["val"])
                    if not self.get(st, "enq"):
                        # this call's waiter is not in the queue
                        for b in {b for b, o in st.cells if b.k == "al"}:
                            c = cmp_("eq", 64, kw["val"], b)
                            if not isc(c):
                                eng.assume(st, c, False)
            elif self.get(st, "enq") and rootof(a) is self.get(st, "enq")[1]:
                # the others only append waiters of their own
                c = cmp_("eq", 64, kw["val"], rootof(a))
                if not isc(c):
                    eng.assume(st, c, False)
            elif a.k == "g" and a.a[0] == "global_wake_epoch":
                st.mon = st.mon | {("we", kw["val"])}
        elif kind == "asm":
            if any(x.k == "g" and x.a[0] == "global_wake_epoch" for x in kw["args"]):
                st.mon = st.mon | {("we", kw["val"])}
                if self.q(st, "epoch") in kw["args"]:
                    self.put(st, "raised")
        elif kind in ("store", "mem"):
            return self.stored(eng, st, ins, kw["addr"] if kind == "store" else kw["dst"], kw.get("val"))
        elif kind == "ret":
            eng.count("exits", ins)
            if self.get(st, "held"):
                eng.report("log-lock-leak", ins, "returns with the log still locked", st)
            if not self.get(st, "kv"):
                eng.report("write-not-recorded", ins, "returns without having written a record for the operation", st)
            if self.get(st, "enq"):
                eng.report("dangling-waiter", ins, "returns while the log's wait queue still points at this call's stack", st)
        return None

    def stored(self, eng, st, ins, a, val):
        r = rootof(a)
        if val is not None and rootof(val).k == "al" and r.k != "al" and not (rootof(val) is r):
            eng.count("wait queue insertions", ins); 
            self.put(st, "enq", rootof(val))
            return None
        if r is not eng.argt[0]:
            return None
        f = lfield(a)
        if f == "waiting_":
            e, h = self.get(st, "enq"), self.get(st, "head")
            if e and h and h[1] is e[1]:
                self.drop(st, "enq")
            elif not e:
                eng.report("wait-queue-overwritten", ins, "changes the head of the wait queue although this call is not at the head", st)
                return False
            self.drop(st, "head")
            return None
        if f == "pos_":
            x = self.get(st, "next")
            if x is None or not self.same(lin(val), lin(x[1])):
                eng.report("log-position", ins, "moves the log position by something other than the size of the record just written", st)
                return False
            self.drop(st, "next")
            return None
        c = {k: self.cell(eng, st, k) for k in self.SZ}
        if f == "log_epoch_":
            if c[f] is not self.q(st, "epoch"):
                eng.report("log-epoch-value", ins, "sets the log's epoch to something other than the operation's epoch", st)
                return False
            self.put(st, "needepoch")
        elif f == "quiescent_epoch_":
            self.put(st, "needraise")
        elif f == "wake_epoch_":
            if self.get(st, "wrote"):
                self.drop(st, "wrote")      # the record is already in the log
            else:
                self.put(st, "needwake")
        elif f == "flushed_epoch_":
            eng.count("flushed-epoch updates", ins)
            if not self.get(st, "fq"):
                eng.report("flushed-without-quiescence", ins, "declares an epoch flushed without having checked that the quiescence record is on disk", st)
                return False
            if c[f] is not self.q(st, "epoch"):
                eng.report("flushed-epoch-value", ins, "declares flushed an epoch other than the operation's", st)
                return False
        return None

    def same(self, x, y):
        return const(ladd(x, y, -1)) == 0

    def call(self, eng, st, ins, q, args, val):
        if q == "loginfo::acquire":
            if self.get(st, "held"):
                eng.report("log-double-lock", ins, "takes the log lock it already holds", st)
                return False
            self.seed(eng, st, "re")
            e = self.get(st, "enq")
            if e:
                eng.havoc(st, e[1])
            keep = {z for z in st.mon if z[0] in ("kv", "enq") or z[0].startswith("q")}
            st.mon = frozenset(keep | {("held",), ("sum", 0)})
            for k in self.qt:
                eng.store(st, ptr(eng.argt[2], self.qt[k]), self.q(st, k), 8)
        elif q == "loginfo::release":
            eng.count("log lock releases", ins)
            if not self.get(st, "held"):
                eng.report("log-unlock-not-held", ins, "releases the log lock without holding it", st)
                return False
            if self.get(st, "next"):
                eng.report("log-position", ins, "releases the log without having moved its position past the record just written", st)
                return False
            if self.get(st, "sum")[1] and not self.get(st, "kv"):
                eng.report("partial-record", ins, "releases the log after an epoch or wake record but before the operation's record", st)
                return False
            self.drop(st, "held", "fq", "sum")
        elif q in REC:
            return self.record(eng, st, ins, q, args, val)
        return None

    def record(self, eng, st, ins, q, args, val):
        eng.count("records written", ins)
        c = {k: self.cell(eng, st, k) for k in self.SZ}
        n = self.size[q]
        kv = "kv" in q
        dst = lin(args[0])
        if not self.get(st, "held") or c["buf_"] is None or c["pos_"] is None or not self.same(dst, ladd(lin(c["buf_"]), lin(c["pos_"]))):
            eng.report("record-misplaced", ins, "writes a record somewhere else than at the log's current position", st)
            return False
        if self.get(st, "next"):
            eng.report("log-position", ins, "writes a second record without having moved the log position past the first", st)
            return False
        tot = {"": self.get(st, "sum")[1] + n}
        if kv:
            tot = ladd(ladd(tot, lin(eng.argt[4])), lin(self.q(st, "vl")))
        room = self.get(st, "room")
        if room is None:
            eng.report("record-without-room", ins, "writes a record without having checked that the buffer has room for it", st)
            return False
        g = ladd(lin(room[1]), tot, -1)
        if not (const(g) is not None and const(g) >= 0 or all(x == "" or k > 0 for x, k in g.items()) and g[""] >= 0):
            eng.report("record-overflow", ins, "may write more bytes into the log buffer than it checked room for", st)
            return False
        self.put(st, "sum", tot[""])
        self.put(st, "next", binop("add", 32, c["pos_"], cast("trunc", val, 64, 32)))
        if q == "logrec_epoch::store":
            if args[2] is not self.q(st, "epoch"):
                eng.report("log-epoch-value", ins, "records an epoch other than the operation's", st)
                return False
            self.drop(st, "needepoch")
            self.put(st, "epochok")
        elif q == "logrec_base::store":
            if isc(args[1]) and args[1].a[0] == self.cmd["logcmd_wake"]:
                if not self.get(st, "needwake"):
                    self.put(st, "wrote")
                self.drop(st, "needwake")
                self.put(st, "wakeok")
        elif kv:
            A = eng.argt
            if self.get(st, "kv"):
                eng.report("recorded-twice", ins, "writes a second record for the same operation", st)
                return False
            if self.get(st, "needepoch") or not self.get(st, "epochok") and c["log_epoch_"] is not self.q(st, "epoch") and \
                    eng.truth(st, cmp_("eq", 64, c["log_epoch_"], self.q(st, "epoch"))) is not True:
                eng.report("epoch-record-missing", ins, "records an operation of a new epoch without an epoch record before it", st)
                return False
            if self.get(st, "needwake") or not self.get(st, "wakeok"):
                eng.report("wake-record-missing", ins, "records an operation without the wake record due before it", st)
                return False
            if eng.truth(st, cmp_("eq", 64, c["quiescent_epoch_"], FALSE)) is not True:
                eng.report("quiescence-not-ended", ins, "records an operation but leaves the log marked quiescent", st)
                return False
            if self.get(st, "needraise") and not self.get(st, "noraise"):
                eng.report("wake-epoch-not-raised", ins, "ends the log's quiescence without raising the global wake epoch to the operation's epoch", st)
                return False
            want = list(args[2:6])
            if not (want[0] is A[3] and want[1] is A[4] and want[2] is self.q(st, "vs") and want[3] is self.q(st, "vl")):
                eng.report("record-content", ins, "records another key or value than the operation's", st)
                return False
            ts = args[-1]
            if ts is not self.q(st, "ts"):
                eng.report("record-timestamp", ins, "records another timestamp than the operation's", st)
                return False
            if q == "logrec_kvdelta::store":
                if args[6] is not self.q(st, "prev_ts") or not (isc(args[1]) and args[1].a[0] == self.cmd["logcmd_modify"]):
                    eng.report("record-content", ins, "records a modification with another command or base timestamp than the operation's", st)
                    return False
                if eng.truth(st, cmp_("eq", 32, A[1], C(self.cmd["logcmd_put"], 32))) is not True and not (isc(A[1])) and not self.get(st, "isput"):
                    eng.report("record-content", ins, "records an operation that is not a put as a modification", st)
                    return False
                if eng.truth(st, cmp_("eq", 64, self.q(st, "prev_ts"), FALSE)) is not False or not self.get(st, "evenprev"):
                    eng.report("record-content", ins, "records a modification although there was no live previous value", st)
                    return False
            elif args[1] is not A[1] and not (isc(args[1]) and eng.truth(st, cmp_("eq", 32, A[1], args[1])) is True):
                eng.report("record-content", ins, "records another command than the operation's", st)
                return False
            elif self.get(st, "isput") and not (self.get(st, "evenprev") is None or eng.truth(st, cmp_("eq", 64, self.q(st, "prev_ts"), FALSE)) is True):
                eng.report("record-content", ins, "records a modification of a live value as if it created the value", st)
                return False
            self.put(st, "kv")
        return None

    def assume(self, eng, st, c, val):
        if c.k in ("ult", "slt"):
            x, y = c.a[1], c.a[2]
            # room check: not (len_ - pos_ < n)
            p = self.cell(eng, st, "pos_")
            if c.k == "ult" and p is not None and self.get(st, "held"):
                s, n = (x, y) if not val else (y, x)
                ls = lin(s)
                pa = lin(p)
                if all(ls.get(k) == -v for k, v in pa.items() if k != "") and len(ls) == 2 + len(pa) - 1 and ls[""] == -pa[""]:
                    rest = [k for k in ls if k != "" and k not in pa]
                    o = st.org.get(rest[0]) if rest else None
                    isl = rest and (o is not None and lfield(o) == "len_" or st.cells.get(baseoff(ptr(eng.argt[0], self.o["len_"])), (None,))[0] is rest[0])
                    if isl and ls[rest[0]] == 1:
                        eng.count("room checks", eng.cur)
                        self.put(st, "room", n)
            # we >= epoch
            if not val and c.k == "slt" and isc(y) and y.a[0] == 0:
                l = lin(x)
                e = self.q(st, "epoch")
                if l.get(e) == -1 and any(("we", t) in st.mon for t in l if t != ""):
                    self.put(st, "noraise")
        elif c.k == "eq":
            x, y = c.a[1], c.a[2]
            cl = {k: self.cell(eng, st, k) for k in self.SZ}
            if val:
                if {x, y} == {cl["flushed_epoch_"], cl["quiescent_epoch_"]}:
                    self.put(st, "fq")
                w = cl["wake_epoch_"]
                if w in (x, y):
                    o = y if x is w else x
                    if ("we", o) in st.mon or o is self.q(st, "epoch"):
                        self.put(st, "wakeok")
                if cl["log_epoch_"] in (x, y) and self.q(st, "epoch") in (x, y):
                    self.put(st, "epochok")
            if x is eng.argt[1] and isc(y) and y.a[0] == C(self.cmd["logcmd_put"], 32).a[0] and val:
                self.put(st, "isput")
            if isc(y) and y.a[0] == 0 and x.k == "and" and self.q(st, "prev_ts") in x.syms and val:
                self.put(st, "evenprev")
        elif c.k == "trunc" and c.a[0] is self.q(st, "prev_ts") and not val:
            self.put(st, "evenprev")
        return None

    def merge(self, eng, st, ins):
        if any(z[0] == "we" and z[1].syms and all(s.a[0].__class__ is tuple and s.a[0][0] == "t" for s in z[1].syms) for z in st.mon):
            st.mon = frozenset(z for z in st.mon if not (z[0] == "we" and z[1].syms and all(s.a[0].__class__ is tuple and s.a[0][0] == "t" for s in z[1].syms)))
        return None
