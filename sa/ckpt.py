"""Rules over checkpoints: what one contains, when it is complete, how it is made durable
and how it is read back."""
from engine import *
from readers import field
from bounds import lin, ladd, const
from serve import Facts
from passes import Passes
from replay import order, lt

TUS = ["mtd.cc"]
SPEC_MAIN = r"""
root conc_checkpointer
keep recovercheckpoint
keep conc_filecheckpoint
keep prepare_checkpoint
keep commit_checkpoint
keep max_flushed_epoch
keep .*findpivots
keep loginfo::(acquire|release)
keep threadinfo::(rcu_start|rcu_stop|index)
keep lcdf::(Json\w*|String\w*|StringAccum)::.*
keep std::.*
keep now
keep set_timespec
"""


class CkMain(Passes):
    """the checkpoint threads' protocol: one generation at a time, every key range handed
    out, the window's start fixed before and its end after the scans, committed only once
    every log has flushed past the window's end"""
    CONST = ("cks", "nckthreads", "nlogger", "tree", "logs")
    POS = ("nckthreads", "nlogger")

    def init(self, eng, st):
        pr = eng.fn.prog
        self.sz = pr.structs.get("ckstate", {}).get("size")
        self.lsz = pr.structs.get("loginfo", {}).get("size")
        self.o = {k: field(pr, "ckstate", k) for k in ("state", "startkey", "endkey", "state_cond")}
        self.S = {k: pr.enum("CKState_" + k) for k in ("Ready", "Go", "Quit")}
        if None in (self.sz, self.lsz) or None in self.o.values() or None in self.S.values() or len(eng.argt) != 1:
            raise LookupError("checkpoint thread state not found")
        self.me = mk("sym", ("me",), 0, "v")
        return frozenset({("me", self.me)})

    def arrays(self, eng, st):
        pv = self.get(st, "pv")
        return {"cks": (self.K(st, "cks"), self.sz), "log": (self.K(st, "logs"), self.lsz), "pv": (pv[1] if pv else None, 16)}

    def ck(self, eng, st, addr, f):
        """index of the checkpoint thread whose field f this is"""
        e = self.elem(eng, st, addr)
        return e[1] if e and e[0] == "cks" and e[2] == self.o[f] else None

    def mine(self, eng, st, ix):
        return const(ladd(ix, lin(self.get(st, "me")[1]), -1)) == 0

    def chief(self, eng, st):
        m = self.get(st, "me")[1]
        return True if isc(m) and m.a[0] == 0 else eng.truth(st, cmp_("eq", 32, m, FALSE))

    def locked(self, st):
        return bool(self.get(st, "mu"))

    def json(self, st, t):
        return ("pj", t) in st.mon

    def assume(self, eng, st, c, val):
        if c.k == "eq":
            for z in st.mon:
                if z[0] == "seen" and z[2] in c.a[1:]:
                    o = c.a[1] if z[2] is c.a[2] else c.a[2]
                    if isc(o) and o.a[0] == self.S["Ready"] and val:
                        self.mark(st, dict(z[1]), "ready")
                    if isc(o) and o.a[0] == self.S["Go"] and val and self.mine(eng, st, dict(z[1])) and self.locked(st):
                        self.put(st, "go")
                    if isc(o) and self.locked(st) and (not val or o.a[0] == self.S["Ready"] and self.mine(eng, st, dict(z[1]))):
                        self.add(st, "unready", z[1])
                    break
        z = self.get(st, "mfe")
        x = self.get(st, "max")
        if z and c.k == "eq" and z[1] in c.a[1:] and FALSE in c.a[1:] and val:
            self.put(st, "flushed")
        if z and x and c.k in ("slt", "ult"):
            d = ladd(lin(c.a[2]), lin(c.a[1]), -1)      # c: d > 0
            d = d if val else ladd({"": 1}, d, -1)      # d >= 1
            e = const(ladd(d, ladd(lin(z[1]), lin(x[1]), -1), -1))
            if e is not None and e <= 0:
                self.put(st, "flushed")
        y = self.get(st, "jb")
        if y:
            v = None
            for t, f in ((c, True), (c.a[0], True) if c.k in ("trunc", "zext") else (c, True), *(((c.a[1], False), (c.a[2], False)) if c.k == "eq" and FALSE in c.a[1:] else ())):
                while t.k == "xv":
                    t = t.a[0]
                if t is y[1]:
                    v = val if f else not val
            if v is not None:
                j = self.get(st, "jv", y[2])
                if j and j[2] is not v:
                    return False
                self.put(st, "pending", bool(v))
                self.drop(st, "jb")
        return super().assume(eng, st, c, val)

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            if self.constload(eng, st, a, v):
                return None
            if a.k == "g":
                n = a.a[0]
                if n == "global_log_epoch":
                    self.drop(st, "ep")
                    self.unmark(st, "barrier")
                    self.put(st, "ep", v)
                elif n == "ckp_gen":
                    self.put(st, "gen", v)
                return None
            ix = self.ck(eng, st, a, "state")
            if ix is not None:
                eng.count("thread states read", ins)
                z = self.get(st, "seen", self.fz(ix))
                if z and self.locked(st):       # it cannot change meanwhile
                    eng.subst(st, {v: z[2]})
                    return None
                self.drop(st, "seen")
                self.add(st, "seen", self.fz(ix), v)
            e = self.elem(eng, st, a)
            if e and e[0] == "pv" and e[2] in (0, 8):
                if e[2] == 0:
                    self.put(st, "pvs", v)
                st.mon = frozenset(z for z in st.mon if not (z[0] == "pvl" and z[3] == e[2])) | {("pvl", v, self.fz(e[1]), e[2])}
        elif kind == "mem":
            d, s = kw["dst"], kw["src"]
            n = kw["n"]
            if not isc(n) or n.a[0] < 12:
                return None
            self.copy(eng, st, ins, d, s)
        elif kind == "store":
            return self.setv(eng, st, ins, kw["addr"], kw["val"])
        elif kind == "call":
            return self.called(eng, st, ins, kw["q"], kw["args"], kw["val"])
        elif kind == "ret":
            eng.count("thread exits", ins)
            if self.locked(st):
                eng.report("checkpoint-lock", ins, "returns with the checkpoint lock held", st)
            if self.get(st, "go"):
                eng.report("checkpoint-stuck", ins, "returns without having done its part of the checkpoint under way", st)
        return None

    def copy(self, eng, st, ins, d, s):
        """a key (a pivot or the empty string) is copied"""
        es = self.elem(eng, st, s)
        if es and es[0] == "pv" and es[2] == 0:
            what = ("pv", self.fz(es[1]))
        elif rootof(s).k == "al":
            z = self.get(st, "tmp", s)
            if z:
                what = z[2]
            else:
                b, o = baseoff(s)
                c0, c1 = st.cells.get((b, o)), st.cells.get((b, o + 8))
                empty = c1 is not None and isc(c1[0]) and c1[0].a[0] == 0
                what = ("empty",) if empty else None
        else:
            what = None
        if rootof(d).k == "al":
            st.mon = frozenset(z for z in st.mon if not (z[0] == "tmp" and z[1] is d))
            if what:
                self.add(st, "tmp", d, what)
            return
        self.keyset(eng, st, ins, d, what)

    def keyset(self, eng, st, ins, d, what):
        ix = self.ck(eng, st, d, "startkey")
        if ix is not None:
            eng.count("key ranges handed out", ins)
            if what and what[0] == "pv" and dict(what[1]) == ix and self.get(st, "piv"):
                self.mark(st, ix, "start")
            else:
                eng.report("checkpoint-range", ins, "a checkpoint thread's range does not start at its own pivot of this checkpoint", st, key="start")
                return False
            return
        ix = self.ck(eng, st, d, "endkey")
        if ix is None:
            return
        n = self.K(st, "nckthreads")
        last = self.last(st, ix, n) if n is not None else None
        if what == ("empty",) or what and what[0] == "pv" and const(ladd(dict(what[1]), ix, -1)) == 1 and last is False and self.get(st, "piv"):
            self.mark(st, ix, "end")
            return
        eng.report("checkpoint-range", ins, "a checkpoint thread's range does not end where the next one's starts, or the last one's is bounded", st, key="end")

    def half(self, eng, st, ins, a, f, e, v):
        """one word of a key is stored"""
        o = e[2] - self.o[f]
        ix = self.fz(e[1])
        what = ("zero",) if isc(v) and v.a[0] == 0 else None
        for z in st.mon:
            if z[0] == "pvl" and z[1] is v and z[3] == o:
                what = ("pv", z[2])
        h = self.get(st, "half")
        if h and h[1] == f and h[2] == ix and h[3] == 8 - o:
            self.drop(st, "half")
            n, s = (what, h[4]) if o else (h[4], what)
            w = ("empty",) if n == ("zero",) else n if n == s else None
            return self.keyset(eng, st, ins, ptr(a, -o) if o else a, w)
        self.put(st, "half", f, ix, o, what)
        return None

    def setv(self, eng, st, ins, a, v):
        if a.k == "g" and a.a[0] == "ckp_gen":
            eng.count("generations started", ins)
            g = self.get(st, "gen")
            d = ladd(lin(v), lin(g[1]), -1) if g else {"": 0}
            n = self.K(st, "nckthreads")
            if d.get("") != 1 or any(c != 1 or t.k != "eq" for t, c in d.items() if t != ""):
                eng.report("checkpoint-generation", ins, "does not go on to the next checkpoint generation", st)
                return False
            p = self.get(st, "pending")
            if not p or p[1]:
                eng.report("checkpoint-uncommitted", ins, "starts the next generation while a complete checkpoint waits to be committed", st)
                return False
            if n is None or not self.every(eng, st, 1, n, "ready"):
                eng.report("checkpoint-overlap", ins, "starts the next generation while threads may still write the last one", st)
                return False
            if self.get(st, "bumped"):
                eng.report("checkpoint-generation", ins, "skips a generation", st, key="twice")
                return False
            self.put(st, "bumped")
            self.drop(st, "gen", "prep", "filed")
            self.unmark(st, "ready", "go", "sig")
            return None
        e = self.elem(eng, st, a)
        for f in ("startkey", "endkey"):
            if e and e[0] == "cks" and e[2] - self.o[f] in (0, 8):
                return self.half(eng, st, ins, a, f, e, v)
        ix = self.ck(eng, st, a, "state")
        if ix is None:
            return None
        eng.count("thread states changed", ins)
        k = [k for k, x in self.S.items() if isc(v) and v.a[0] == x]
        if not k:
            eng.report("checkpoint-state", ins, "sets a checkpoint thread's state to an unknown value", st)
            return False
        k = k[0]
        own = self.mine(eng, st, ix)
        if k == "Ready":
            if not own:
                eng.report("checkpoint-state", ins, "declares another thread's part of the checkpoint done", st, key="other")
                return False
            if not self.get(st, "init"):
                if not self.get(st, "cond"):
                    eng.report("checkpoint-state", ins, "is ready before it can be signalled", st, key="init")
                self.put(st, "init")
                return None
            if not self.get(st, "filed"):
                eng.report("checkpoint-early", ins, "declares its part of the checkpoint done before the file is written", st)
                return False
            if self.chief(eng, st) is not True:
                if not self.locked(st):
                    eng.report("checkpoint-wakeup", ins, "declares its part done without the lock: the coordinator can miss it", st)
                self.drop(st, "filed", "go")
                self.put(st, "untold")
            return None
        if self.chief(eng, st) is not True:
            eng.report("checkpoint-state", ins, "a thread other than the coordinator starts or ends checkpoints", st, key="chief")
            return False
        if not self.locked(st):
            eng.report("checkpoint-wakeup", ins, "changes another thread's state without the lock: it can miss the change", st, key="go")
            return False
        if k == "Quit":
            self.put(st, "quit")
            return None
        n = self.K(st, "nckthreads")
        if not self.get(st, "bumped"):
            eng.report("checkpoint-generation", ins, "starts the threads without a new generation", st, key="go")
            return False
        if not self.marked(st, ix, "start") or not self.marked(st, ix, "end"):
            eng.report("checkpoint-range", ins, "starts a checkpoint thread before its key range is set", st, key="go")
            return False
        if not self.window(eng, st, ins):
            return False
        self.mark(st, ix, "go")
        return None

    def window(self, eng, st, ins):
        """the first epoch is fixed, and every request of an earlier epoch has changed the tree"""
        n = self.K(st, "nlogger")
        if not self.get(st, "ep"):
            eng.report("checkpoint-window", ins, "scans before the first epoch to replay is fixed", st)
            return False
        self.put(st, "ep0", self.get(st, "ep")[1])
        if n is None or not self.every(eng, st, 0, n, "barrier"):
            eng.report("checkpoint-inflight", ins, "scans while requests of earlier epochs may not have changed the tree yet", st)
            return False
        return True

    def called(self, eng, st, ins, q, a, v):
        k = q.split("::")[-1]
        mu = len(a) and a[-1].k == "g" and a[-1].a[0] == "checkpoint_mu"
        n = self.K(st, "nckthreads")
        if q in ("pthread_mutex_lock", "pthread_mutex_unlock") and mu:
            self.drop(st, "seen", "unready")
            if q.endswith("_unlock"):
                if self.get(st, "untold"):
                    eng.report("checkpoint-wakeup", ins, "does not tell the coordinator that its part is done", st, key="untold")
                    self.drop(st, "untold")
                self.drop(st, "mu")
            else:
                if self.locked(st):
                    eng.report("checkpoint-lock", ins, "takes the checkpoint lock twice", st, key="twice")
                self.put(st, "mu")
        elif q in ("pthread_cond_wait", "pthread_cond_timedwait"):
            eng.count("waits", ins)
            if a[1].k != "g" or a[1].a[0] != "checkpoint_mu" or not self.locked(st):
                eng.report("checkpoint-lock", ins, "waits without the checkpoint lock", st, key="wait")
            ix = self.ck(eng, st, a[0], "state_cond")
            if q == "pthread_cond_wait":
                if ix is None or ("unready", self.fz(ix)) not in st.mon:
                    eng.report("checkpoint-wakeup", ins, "waits without having looked, under the same lock, whether there is anything to wait for", st, key="wait")
            self.drop(st, "seen", "unready")
        elif q in ("pthread_cond_signal", "pthread_cond_broadcast"):
            ix = self.ck(eng, st, a[0], "state_cond")
            if ix is not None:
                self.mark(st, ix, "sig")
                if self.mine(eng, st, ix):
                    self.drop(st, "untold")
        elif q == "pthread_cond_init":
            ix = self.ck(eng, st, a[0], "state_cond")
            if ix is not None and self.mine(eng, st, ix):
                self.put(st, "cond")
        elif q == "threadinfo::index":
            m = self.get(st, "me")[1]
            if a[0] is eng.argt[0] and v is not m:
                eng.subst(st, {v: m})
        elif k == "rcu_start":
            self.put(st, "rcu")
        elif k == "rcu_stop":
            self.drop(st, "rcu")
        elif q.startswith("operator new"):
            st.nn.add(v)
            self.put(st, "pv", v)
        elif k == "findpivots":
            eng.count("pivots chosen", ins)
            pv = self.get(st, "pv")
            if not self.get(st, "rcu"):
                eng.report("checkpoint-unprotected", ins, "walks the tree outside an RCU section", st, key="pivots")
            if not pv or a[1] is not pv[1] or n is None or const(ladd(lin(a[2]), lin(n), -1)) != 1:
                eng.report("checkpoint-range", ins, "does not choose one pivot for each checkpoint thread", st, key="pivots")
                return False
            self.put(st, "piv")
            self.unmark(st, "start", "end")
        elif k == "acquire":
            e = self.elem(eng, st, a[0])
            if e and e[0] == "log" and e[2] == 0:
                eng.count("logs waited for", ins)
                self.mark(st, e[1], "barrier")
                self.add(st, "held", self.fz(e[1]))
        elif k == "release":
            e = self.elem(eng, st, a[0])
            if e:
                st.mon = st.mon - {("held", self.fz(e[1]))}
        elif q == "conc_filecheckpoint":
            eng.count("checkpoint files", ins)
            if a[0] is not eng.argt[0]:
                eng.report("checkpoint-file", ins, "writes another thread's part of the checkpoint", st)
                return False
            if not self.get(st, "rcu"):
                eng.report("checkpoint-unprotected", ins, "scans the tree outside an RCU section", st)
            if self.locked(st):
                eng.report("checkpoint-lock", ins, "writes its file with the checkpoint lock held", st, key="file")
            if self.get(st, "held"):
                eng.report("checkpoint-inflight", ins, "scans with a log's lock held", st, key="held")
            if self.chief(eng, st) is True:
                if not self.get(st, "bumped") or not self.marked(st, {"": 0}, "start") or not self.marked(st, {"": 0}, "end") or not self.get(st, "ep0"):
                    eng.report("checkpoint-range", ins, "the coordinator writes its file before its range and generation are set", st, key="chief")
                    return False
            elif not self.get(st, "go"):
                eng.report("checkpoint-early", ins, "writes its file without having been told to", st, key="go")
                return False
            self.put(st, "filed")
        elif q == "prepare_checkpoint":
            return self.prepare(eng, st, ins, a, v, n)
        elif k == "max_flushed_epoch":
            self.put(st, "mfe", v)
            self.drop(st, "flushed")
        elif k == "to_u64" and self.get(st, "jm", a[0]):
            self.put(st, "max", v)
        elif q == "commit_checkpoint":
            eng.count("commits", ins)
            if not self.json(st, a[0]):
                eng.report("checkpoint-commit", ins, "commits something else than the checkpoint just completed", st)
            elif not self.get(st, "flushed"):
                eng.report("checkpoint-unflushed", ins, "commits the checkpoint before every log is flushed past its last epoch", st)
            self.drop(st, "flushed")
        elif k == "free" or q.startswith("operator delete"):
            z = self.get(st, "pvs")
            if z and z[1] is a[0] and not self.get(st, "prep"):
                eng.report("checkpoint-range", ins, "frees a pivot that is still in use", st, key="free")
        elif q.startswith("lcdf::Json::"):
            if k == "operator[]" and len(a) == 3 and self.json(st, a[1]):
                if a[2].k == "g" and len(a[2].a) > 1 and a[2].a[1] == "max_epoch":
                    self.add(st, "jm", a[0])
            elif k in ("Json", "operator=") and len(a) == 2:
                p = self.json(st, a[1])
                st.mon = st.mon - {("pj", a[0])}
                if p:
                    self.add(st, "pj", a[0])
                st.mon = frozenset(z for z in st.mon if not (z[0] == "jv" and z[1] is a[0]))
                j = self.get(st, "jv", a[1])
                if j:
                    self.add(st, "jv", a[0], j[2])
                elif p:
                    self.add(st, "jv", a[0], True)
                self.drop(st, "jb", "pending") if k == "operator=" else None
            elif k == "Json" and len(a) == 1:
                self.add(st, "jv", a[0], False)
            elif k == "operator bool" or "operator " in q and len(a) == 1:
                self.drop(st, "pending")
                self.put(st, "jb", v, a[0])
            elif k == "~Json":
                st.mon = frozenset(z for z in st.mon if not (z[0] in ("pj", "jv") and z[1] is a[0]))
        return None

    def prepare(self, eng, st, ins, a, v, n):
        eng.count("checkpoints completed", ins)
        ep = self.get(st, "ep0")
        if not ep or a[1] is not ep[1]:
            eng.report("checkpoint-window", ins, "records another first epoch than the one fixed before the scans", st, key="record")
            return False
        if n is None or not self.get(st, "filed") or not self.every(eng, st, 1, n, "ready"):
            eng.report("checkpoint-early", ins, "completes the checkpoint before every thread has written its part", st, key="prepare")
            return False
        if not self.every(eng, st, 0, n, "go") or not self.every(eng, st, 1, n, "sig"):
            eng.report("checkpoint-range", ins, "completes the checkpoint without having started every thread on its range", st, key="all")
            return False
        if const(ladd(lin(a[2]), lin(n), -1)) != 0 or not self.get(st, "pv") or a[3] is not self.get(st, "pv")[1]:
            eng.report("checkpoint-record", ins, "records another number of parts, or other pivots, than were used", st)
            return False
        self.add(st, "pj", a[0])
        self.put(st, "prep")
        self.drop(st, "bumped", "filed", "ep0", "ep", "piv", "gen")
        self.unmark(st, "go", "sig", "start", "end", "barrier")
        return None


SPEC_VISIT = r"""
root ckstate::visit_value
root ckstate::insert
keep msgpack::(unparser|parser)::.*
keep .*row_is_marker
keep .*::checkpoint_(write|read)
keep .*::timestamp
keep Masstree::tcursor::.*
keep .*::finish
keep .*::observe_phantoms
keep lcdf::Json.*
keep lcdf::String_(base|generic)::(compare|data_equals|hashcode)
"""


class X(Facts):
    pure = (r".*",)
    width = 4


SPEC_FILE = r"""
root conc_filecheckpoint
root prepare_checkpoint
root commit_checkpoint
root max_flushed_epoch
root read_checkpoint
root recovercheckpoint
root sync_write_file_contents
root atomic_write_file_contents
keep read_checkpoint
keep sync_write_file_contents
keep atomic_write_file_contents
keep checked_write
keep safe_write
keep safe_read
keep waituntilphase
keep inactive
keep ckstate::insert
keep .*::scan
keep new_bufkvout
keep free_kvout
keep msgpack::.*
keep threadinfo::(rcu_start|rcu_stop|index)
keep loginfo::quiescent
keep loginfo::flushed_epoch
keep lcdf::.*
keep std::.*
keep now
"""
