"""Rules over the row-level write path (query::run_put/run_replace/run_remove)."""
from engine import *
from readers import field
from tree import nodefield
from bounds import lin, ladd, const

TUS = ["mtd.cc", "query_masstree.cc", "kvthread.cc"]
SPEC_ROWS = r"""
root query::run_(put|replace|remove)
keep loginfo::.*
keep lcdf::.*
keep Masstree::tcursor::(find_insert|find_locked|finish|tcursor|~tcursor)
keep value_\w+::.*
keep threadinfo::(update_timestamp|observe_phantoms|rcu_.*|deallocate.*)
keep circular_int::(less|less_equal)
erase threadinfo::mark
"""
ROW = re.compile(r"value_\w+::(\w+)$")
FREE = {"deallocate_rcu", "deallocate_rcu_after_update"}
MAKE = {"create", "create1"}


class RowMon(Monitor):
    """mode selects the property: log (logging under both locks), ts (timestamp and
    phantom order), rcu (old rows are unlinked, then released once, deferred), res (result)"""
    pure = (r"lcdf::.*", r"loginfo::.*", r"Masstree::tcursor::(find_\w+|finish|~tcursor)", r"value_\w+::.*", r"threadinfo::.*", r"circular_int::.*")
    width = 8

    def __init__(self, mode="log"):
        self.mode = mode

    def init(self, eng, st):
        pr = eng.fn.prog
        A = eng.argt
        # query* this is the first argument, threadinfo& the last one
        self.this, self.ti = A[0], A[-1]
        q = field(pr, "query", "qtimes_")
        self.qo = {}
        for k in ("epoch", "ts", "prev_ts"):
            f = field(pr, "loginfo::query_times", k)
            if q is None or f is None:
                raise LookupError("query times not found")
            self.qo[k] = q + f
        self.lg = field(pr, "threadinfo", "logger_")
        if self.lg is None:
            raise LookupError("threadinfo::logger_ not found")
        eng.store(st, ptr(self.ti, self.lg), mk("sym", ("logger", 0), 0, "p"), 8)
        return frozenset()

    def cell(self, st, base, o):
        c = st.cells.get(baseoff(ptr(base, o)))
        return c[0] if c else None

    def logger(self, st):
        return self.cell(st, self.ti, self.lg)

    def q(self, st, k):
        return self.cell(st, self.this, self.qo[k])

    def get(self, st, k):
        for z in st.mon:
            if z[0] == k:
                return z
        return None

    def put(self, st, *z):
        st.mon = frozenset(y for y in st.mon if y[0] != z[0]) | {z}

    def drop(self, st, *ks):
        st.mon = frozenset(y for y in st.mon if y[0] not in ks)

    def bad(self, eng, mode, rule, ins, msg, st):
        if mode != self.mode:
            return None
        eng.report(rule, ins, msg, st)
        return False

    def isslot(self, a):
        f = nodefield(a)
        return f is not None and f[1].startswith("lv_")

    def nolog(self, eng, st):
        l = self.logger(st)
        return l is not None and eng.truth(st, cmp_("eq", 64, l, FALSE)) is True

    def found(self, eng, st):
        f = self.get(st, "found")
        return eng.truth(st, f[1]) if f else None

    def change(self, eng, st, ins, what):
        """the stored value is about to change"""
        eng.count("row changes", ins)
        if not self.get(st, "node"):
            return self.bad(eng, "log", "change-unlocked", ins, "%s while the key's node is not locked" % what, st)
        if not self.nolog(eng, st) and not self.get(st, "log"):
            return self.bad(eng, "log", "change-before-log-lock", ins, "%s before the log is locked: records of two writes to a key may be logged in the other order" % what, st)
        if self.get(st, "log") and not self.get(st, "epoch"):
            return self.bad(eng, "log", "epoch-not-assigned", ins, "%s before the operation's epoch was taken under the log lock" % what, st)
        self.put(st, "changed")
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            return self.call(eng, st, ins, **kw)
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            if self.isslot(a) and ins.d["t"] == "ptr":
                s = self.get(st, "slot")
                if s and s[1] is a and not isc(v):
                    # same slot, still locked: the value stored or read last
                    if s[2] is not v and not isc(s[2]):
                        eng.subst(st, {v: s[2]}) if v.k == "sym" and v not in s[2].syms else None
                elif not s:
                    self.put(st, "slot", a, v)
                    self.put(st, "old", v)
                if self.found(eng, st) is True and self.get(st, "old")[1] is v:
                    st.nn.add(v)        # a key that was found has a row
        elif kind == "store":
            return self.stored(eng, st, ins, kw["addr"], kw["val"])
        elif kind == "mem":
            self.mem(eng, st, ins, kw["dst"], kw["src"])
        elif kind == "ret":
            return self.ret(eng, st, ins, kw["val"])
        return None

    def epochset(self, eng, st, ins):
        eng.count("epoch assignments", ins)
        if self.get(st, "log") and self.get(st, "node"):
            self.put(st, "epoch")

    def mem(self, eng, st, ins, dst, src):
        b, o = baseoff(dst)
        if b is self.this and o == self.qo["epoch"]:
            if src.k == "g" and src.a[0] == "global_log_epoch":
                self.epochset(eng, st, ins)
            else:
                self.drop(st, "epoch")

    def stored(self, eng, st, ins, a, v):
        b, o = baseoff(a)
        if b is self.this and o == self.qo["epoch"]:
            src = st.org.get(v)
            if src is not None and src.k == "g" and src.a[0] == "global_log_epoch":
                self.epochset(eng, st, ins)
            else:
                self.drop(st, "epoch")
            return None
        f = nodefield(a)
        if f is None:
            return None
        if f[1].startswith("lv_"):
            s = self.get(st, "slot")
            new = self.get(st, "new")
            if s and v is s[2]:
                return None
            if self.change(eng, st, ins, "stores a new value") is False:
                return False
            if new is None or new[1] is not v:
                if not isc(v):
                    return self.bad(eng, "ts", "value-without-timestamp", ins, "stores a value that was not created for this operation", st)
            old = self.get(st, "old")
            self.put(st, "slot", a, v)
            if old and not self.get(st, "released") and self.found(eng, st) is not False:
                self.put(st, "owed")
        elif f[1].startswith("phantom_epoch_"):
            eng.count("phantom epoch updates", ins)
            t = self.q(st, "ts")
            d = const(ladd(lin(v), lin(t), -1)) if t is not None else None
            if d is None or d <= 0:
                return self.bad(eng, "ts", "phantom-epoch-value", ins, "sets the node's phantom epoch to a value not above the removal's timestamp", st)
            self.put(st, "phantom")
        return None

    def call(self, eng, st, ins, q, args, val):
        k = q.split("::")[-1]
        if q.startswith("Masstree::tcursor::find"):
            self.put(st, "node")
            self.put(st, "found", val)
        elif q == "Masstree::tcursor::finish":
            return self.finish_op(eng, st, ins, args)
        elif q == "loginfo::acquire":
            eng.count("log lock acquisitions", ins)
            if self.get(st, "log"):
                return self.bad(eng, "log", "log-double-lock", ins, "takes the log lock it already holds", st)
            if args[0] is not self.logger(st):
                return self.bad(eng, "log", "foreign-log", ins, "locks another log than the thread's own", st)
            self.put(st, "log")
        elif q == "loginfo::release":
            if not self.get(st, "log"):
                return self.bad(eng, "log", "log-unlock-not-held", ins, "releases the log lock without holding it", st)
            self.drop(st, "log", "epoch")
            if self.get(st, "changed"):
                return self.bad(eng, "log", "log-released-early", ins, "releases the log lock between changing the row and recording the change", st)
        elif q == "threadinfo::observe_phantoms":
            eng.count("phantom observations", ins)
            if self.get(st, "node"):
                self.put(st, "obs")
        elif q == "threadinfo::update_timestamp":
            return self.stamp(eng, st, ins, args, val)
        elif k in ("less", "less_equal") and q.startswith("circular_int::"):
            st.mon = st.mon | {("cmp", k, args[0], args[1], val)}
        else:
            m = ROW.match(q)
            if m:
                return self.row(eng, st, ins, m.group(1), args, val)
        return None

    def stamp(self, eng, st, ins, args, val):
        eng.count("timestamps assigned", ins)
        if not self.nolog(eng, st) and not self.get(st, "log"):
            self.bad(eng, "log", "timestamp-before-log-lock", ins, "takes the operation's timestamp before the log is locked: log order and timestamp order may disagree", st)
            return False
        if not self.get(st, "node"):
            return self.bad(eng, "ts", "timestamp-unlocked", ins, "takes the operation's timestamp while the key's node is not locked", st)
        self.put(st, "ts", val)
        old = self.get(st, "old")
        if len(args) > 1:
            t = self.get(st, "tsof")
            if t and t[1] is args[1] and old and t[2] is old[1]:
                self.put(st, "above")
        if self.get(st, "obs"):
            self.put(st, "aboveph")
        return None

    def row(self, eng, st, ins, m, args, val):
        old = self.get(st, "old")
        if m == "timestamp":
            o = self.get(st, "oldts")
            if old and args[0] is old[1]:
                if o is None:
                    self.put(st, "oldts", val)
                elif o[1] is not val and val.k == "sym" and val not in o[1].syms:
                    # the row cannot change while its node is locked
                    eng.subst(st, {val: o[1]})
                    val = o[1]
            self.put(st, "tsof", val, args[0])
        elif m in MAKE or m == "update":
            eng.count("rows created", ins)
            if self.change(eng, st, ins, "creates the new row") is False:
                return False
            t = args[-2]
            if self.get(st, "ts") is None or t is not self.get(st, "ts")[1] or t is not self.q(st, "ts"):
                return self.bad(eng, "ts", "row-timestamp", ins, "creates the row with a timestamp other than the one just assigned to the operation", st)
            f = self.found(eng, st)
            if f is not False and not self.get(st, "above"):
                return self.bad(eng, "ts", "timestamp-not-above-old", ins, "gives the new row a timestamp that was not taken above the old row's", st)
            if f is not True and not self.get(st, "aboveph"):
                return self.bad(eng, "ts", "phantom-not-observed", ins, "gives a new key a timestamp without having observed the node's phantom epoch: it may be below an earlier removal's", st)
            p = self.q(st, "prev_ts")
            if m == "update":
                if old is None or args[0] is not old[1]:
                    return self.bad(eng, "rcu", "update-of-other-row", ins, "derives the new row from another row than the stored one", st)
                o = self.get(st, "oldts")
                if o is None or p is not o[1]:
                    return self.bad(eng, "log", "base-timestamp", ins, "updates a row but leaves another base timestamp in the operation's log times than the old row's", st)
                if self.markertest(eng, st) is not False:
                    return self.bad(eng, "res", "marker-updated", ins, "updates a row without having ruled out that it is a removal marker", st)
            elif m == "create" and not (p is not None and isc(p) and p.a[0] == 0):
                return self.bad(eng, "log", "base-timestamp", ins, "creates a row from scratch but leaves a base timestamp in the operation's log times", st)
            elif m == "create" and f is not False and self.markertest(eng, st) is not True:
                return self.bad(eng, "res", "columns-dropped", ins, "replaces an existing row by a new one in a partial update", st)
            self.put(st, "new", val)
            self.put(st, "made", "update" if m == "update" else "new")
        elif m in FREE:
            eng.count("rows released", ins)
            if self.change(eng, st, ins, "releases the old row") is False:
                return False
            if old is None or args[0] is not old[1] or self.found(eng, st) is False:
                return self.bad(eng, "rcu", "release-of-other-row", ins, "releases a row that is not the one replaced", st)
            if self.get(st, "released"):
                return self.bad(eng, "rcu", "row-released-twice", ins, "releases the old row twice", st)
            self.put(st, "released")
            self.drop(st, "owed")
        elif m == "deallocate" or m == "deallocate_after_failed_update":
            return self.bad(eng, "rcu", "row-freed-at-once", ins, "frees a row at once although readers may still use it", st)
        return None

    def markertest(self, eng, st):
        """is the old row known to be a removal marker?"""
        o = self.get(st, "oldts")
        if o is None:
            return None
        for c in (cmp_("eq", 64, binop("and", 64, o[1], C(1)), FALSE),):
            v = eng.truth(st, c)
            if v is not None:
                return not v
        return eng.truth(st, cast("trunc", o[1], 64, 1))

    def finish_op(self, eng, st, ins, args):
        eng.count("operations finished", ins)
        s = self.get(st, "slot")
        removing = isc(args[1]) and args[1].a[0] < 0
        f = self.found(eng, st)
        if removing and f is not False:
            if not self.get(st, "released"):
                self.bad(eng, "rcu", "row-leak", ins, "removes a key without releasing its row", st)
                return False
            t = self.q(st, "ts")
            ok = self.get(st, "phantom") is not None
            if not ok:
                for z in st.mon:
                    if z[0] == "cmp" and t is not None:
                        v = eng.truth(st, z[4])
                        if z[1] == "less_equal" and z[3] is t and v is False or z[1] == "less" and z[2] is t and v is True:
                            ok = True
            if not ok:
                self.bad(eng, "ts", "phantom-epoch-not-raised", ins, "removes a key without raising the node's phantom epoch above the removal's timestamp: a later insert may get an older one", st)
                return False
            if not self.get(st, "above"):
                self.bad(eng, "ts", "timestamp-not-above-old", ins, "removes a row with a timestamp that was not taken above the row's", st)
                return False
        if not removing and "run_remove" in eng.fn.q:
            if self.get(st, "changed"):
                self.bad(eng, "res", "write-lost", ins, "finishes a removal it has started without taking the key out", st)
                return False
            if f is not False and self.markertest(eng, st) is not True:
                self.bad(eng, "res", "write-lost", ins, "leaves a key that is there in place", st)
                return False
        elif not removing:
            if self.get(st, "owed"):
                self.bad(eng, "rcu", "row-leak", ins, "replaces a row without releasing the old one", st)
                return False
            if self.get(st, "released") and s and self.get(st, "old")[1] is s[2]:
                self.bad(eng, "rcu", "released-row-linked", ins, "unlocks the node while it still refers to a released row", st)
                return False
            if not self.get(st, "new"):
                self.bad(eng, "res", "write-lost", ins, "finishes a write without having created the new row", st)
                return False
            n = self.get(st, "new")
            if s and s[2] is not n[1] and eng.truth(st, cmp_("eq", 64, s[2], n[1])) is not True:
                self.bad(eng, "res", "write-lost", ins, "finishes a write without having stored the new row", st)
                return False
            if not s:
                self.bad(eng, "res", "write-lost", ins, "finishes a write without having stored the new row", st)
                return False
        self.drop(st, "node")
        return None

    def ret(self, eng, st, ins, val):
        eng.count("exits", ins)
        if self.get(st, "node"):
            self.bad(eng, "log", "unfinished", ins, "returns without finishing the tree operation", st)
        ch = self.get(st, "changed")
        if ch and not self.nolog(eng, st) and not self.get(st, "log"):
            self.bad(eng, "log", "log-released-early", ins, "returns from a logged write without the log lock held for recording it", st)
        if not ch and self.get(st, "log"):
            self.bad(eng, "log", "log-lock-leak", ins, "returns with the log locked although nothing was written", st)
        f = self.found(eng, st)
        pr = eng.fn.prog
        if ch and "run_remove" in eng.fn.q and eng.truth(st, val) is not True:
            self.bad(eng, "log", "unreported-change", ins, "removes a key but reports that it was not there: the removal is not logged", st)
        if self.mode != "res" or val is None:
            return None
        if "run_remove" in eng.fn.q:
            v = eng.truth(st, val)
            mt = self.markertest(eng, st)
            want = False if f is False or mt is True else True if f is True and mt is False else None
            eng.count("result codes", ins)
            if want is None or v is not want:
                self.bad(eng, "res", "result-code", ins, "a removal does not tell truthfully whether the key was there (found %s, marker %s)" % (f, mt), st)
        else:
            i, u_ = pr.enum("Inserted"), pr.enum("Updated")
            if i is None or u_ is None:
                raise LookupError("result codes not found")
            mt = self.markertest(eng, st)
            want = None
            if f is False or mt is True:
                want = i
            elif f is True and mt is False:
                want = u_
            eng.count("result codes", ins)
            if want is None or eng.truth(st, cmp_("eq", 32, val, C(want, 32))) is not True:
                self.bad(eng, "res", "result-code", ins, "the result does not tell truthfully whether the key was there before (found %s, marker %s)" % (f, mt), st)
        return None

    def assume(self, eng, st, c, val):
        return None

    def gmon(self, m):
        return frozenset(z for z in m if z[0] != "cmp")

    def joinmon(self, a, b):
        return a & b


SPEC_GET = r"""
root query::run_get
keep lcdf::.*
keep Masstree::unlocked_tcursor::find_unlocked
keep query::emit_fields
keep value_\w+::.*
keep std::.*
erase threadinfo::mark
"""


class GetMon(Monitor):
    """a point lookup answers with the columns of the row found, exactly if it is a live row"""
    pure = (r"lcdf::.*", r"value_\w+::.*", r"std::.*")
    width = 8

    def init(self, eng, st):
        self.req = eng.argt[2]
        self.vo = field(eng.fn.prog, "Masstree::unlocked_tcursor", "lv_")
        return frozenset()

    def get(self, st, k):
        for z in st.mon:
            if z[0] == k:
                return z
        return None

    def put(self, st, *z):
        st.mon = frozenset(y for y in st.mon if y[0] != z[0]) | {z}

    def live(self, eng, st):
        f = self.get(st, "found")
        f = eng.truth(st, f[1]) if f else None
        t = self.get(st, "ts")
        m = None
        if t:
            v = eng.truth(st, cmp_("eq", 64, binop("and", 64, t[1], C(1)), FALSE))
            m = eng.truth(st, cast("trunc", t[1], 64, 1)) if v is None else not v
        return False if f is False or m is True else True if f is True and m is False else None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            if k == "find_unlocked":
                eng.count("lookups", ins)
                self.put(st, "found", v)
                self.put(st, "cur", a[0])
            elif k == "timestamp" and q.startswith("value_"):
                o = self.get(st, "ts")
                if o and o[2] is a[0] and o[1] is not v and v.k == "sym":
                    eng.subst(st, {v: o[1]})
                    v = o[1]
                self.put(st, "ts", v, a[0])
            elif k == "resize" and a[0] is self.req:
                if not (isc(a[1]) and a[1].a[0] == 2):
                    eng.report("reply-size", ins, "leaves request fields in the reply to a lookup", st)
                    return False
                self.put(st, "cut")
            elif k == "emit_fields":
                eng.count("rows returned", ins)
                if self.live(eng, st) is not True:
                    eng.report("not-live", ins, "answers a lookup with a row without having established that it was found and is not a removal marker", st)
                    return False
                t = self.get(st, "ts")
                if t[2] is not a[1]:
                    eng.report("other-row", ins, "answers a lookup with another row than the one found", st)
                    return False
                if not self.get(st, "cut") or a[2] is not self.req:
                    eng.report("reply-size", ins, "adds the row's columns behind the request fields", st)
                    return False
                if self.get(st, "out"):
                    eng.report("answered-twice", ins, "adds the row's columns twice", st)
                    return False
                self.put(st, "out")
        elif kind == "ret":
            eng.count("exits", ins)
            l = self.live(eng, st)
            if not self.get(st, "cut"):
                eng.report("reply-size", ins, "leaves request fields in the reply to a lookup: an absent key looks present", st)
            elif l is None or l is not bool(self.get(st, "out")):
                eng.report("lookup-result", ins, "the reply to a lookup does not tell whether the key was there", st)
        return None

    def gmon(self, m):
        return frozenset(z if z[0] in ("found", "ts") else z[:1] for z in m)

    def joinmon(self, a, b):
        return a & b
