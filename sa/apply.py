"""What replaying one log record does to the row of its key (logrecord::run)."""
from engine import *
from readers import field
from bounds import lin, ladd, const
from serve import Facts

TUS = ["log.cc"]
SPEC = r"""
root logrecord::run
keep lcdf::Json::.*
keep lcdf::String::.*
keep lcdf::String_base::.*
keep msgpack::.*
keep std::.*
keep parse_changeset
keep Masstree::tcursor::.*
keep value_\w+::.*
keep threadinfo::.*
erase threadinfo::mark
"""
V = mk("arg", "slot", "slot")       # where the tree holds the key's row
ROW = re.compile(r"value_\w+::(\w+)$")
FREE = ("deallocate", "deallocate_rcu")


class ApplyMon(Facts):
    pure = (r"lcdf::.*", r"value_\w+::.*", r"threadinfo::.*", r"Masstree::tcursor::.*", r"msgpack::.*", r"parse_changeset")
    width = 24
    aborts = True

    def init(self, eng, st):
        pr = eng.fn.prog
        A = eng.argt
        self.this, self.jrepo = A[0], A[2]
        o = {k: field(pr, "logrecord", k) for k in ("command", "key", "val", "ts", "prev_ts")}
        self.dm = {k: field(pr, "row_delta_marker", k) for k in ("prev_ts_", "prev_", "s_")}
        self.cmds = {k: pr.enum("logcmd_" + k) for k in ("put", "replace", "remove", "modify")}
        if None in o.values() or None in self.dm.values() or None in self.cmds.values():
            raise LookupError("layout of log records not found")
        for k in ("mt_remove", "mt_delta"):
            setattr(self, k, pr.enum(k))
        if self.mt_remove is None or self.mt_delta is None:
            raise LookupError("row markers not found")
        self.o = o

        def inj(n, off, size, kd="v"):
            t = mk("arg", "rec." + n, "rec." + n)
            eng.store(st, ptr(self.this, off), t, size)
            return t
        self.cmd = inj("command", o["command"], 4)
        self.ks, self.kl = inj("key.s", o["key"], 8), inj("key.len", o["key"] + 8, 4)
        self.vs, self.vl = inj("val.s", o["val"], 8), inj("val.len", o["val"] + 8, 4)
        self.T0 = inj("ts", o["ts"], 8)
        self.prev = inj("prev_ts", o["prev_ts"], 8)
        return frozenset()

    # -- what is known --
    def cell(self, st, k, off=0):
        c = st.cells.get(baseoff(ptr(self.this, self.o[k] + off)))
        return c[0] if c else None

    def iscmd(self, eng, st, k):
        v = eng.truth(st, cmp_("eq", 32, self.cmd, C(self.cmds[k], 32)))
        if v is None and any(c.k == "eq" and self.cmd in c.a and u for c, u in st.facts.items()):
            return False
        return v

    def assume(self, eng, st, cond, val):
        if val and cond.k == "eq" and self.cmd in cond.a and any(c.k == "eq" and self.cmd in c.a and u and c is not cond for c, u in st.facts.items()):
            return False
        if cond.k == "eq" and val and cond.a[1:] in ((V, NULL), (NULL, V)):
            return False
        return None

    def eq(self, eng, st, a, b):
        if a is b:
            return True
        return eng.truth(st, cmp_("eq", 64, a, b))

    def isnull(self, eng, st, x):
        return eng.truth(st, cmp_("eq", 64, x, NULL))

    def ts(self, st, x):
        z = self.get(st, "ts", x)
        return z[2] if z else None

    def later(self, eng, st, x):
        """is row x newer than the record?"""
        t, T = self.ts(st, x), self.cell(st, "ts")
        return None if t is None or T is None else eng.truth(st, cmp_("ult", 64, T, t))

    def older(self, eng, st, x):
        if self.get(st, "older", x):
            return True
        t, T = self.ts(st, x), self.cell(st, "ts")
        if t is None or T is None:
            return None
        return eng.truth(st, cmp_("ult", 64, t, T))

    def delta(self, eng, st, x):
        t = self.ts(st, x)
        if t is None:
            return None
        v = eng.truth(st, cmp_("eq", 64, binop("and", 64, t, C(1)), FALSE))
        if v is None:
            v = eng.truth(st, cast("trunc", t, 64, 1))
            v = None if v is None else not v
        if v is True:
            return False
        z = self.get(st, "typ", x)
        w = None if z is None else eng.truth(st, cmp_("eq", 32, z[2], C(self.mt_delta, 32)))
        if w is False:
            return False
        return True if v is False and w is True else None

    def rowof(self, st, b):
        """the row whose first column b points to"""
        if b.k == "xv":
            for z in st.mon:
                if z[0] == "col" and z[2] is b.a[0]:
                    return z[1]
        return None

    def base(self, st, x):
        z = self.get(st, "col", x)
        return xv(z[2], (0,)) if z else None

    def slotof(self, st, x):
        b = self.base(st, x)
        return None if b is None else ptr(b, self.dm["prev_"])

    def at(self, st, a):
        z = self.get(st, "at", a)
        return z[2] if z else None

    def put2(self, st, k, a, *v):
        st.mon = frozenset(y for y in st.mon if y[:2] != (k, a)) | {(k, a) + v}

    def drop2(self, st, k, a):
        st.mon = frozenset(y for y in st.mon if y[:2] != (k, a))

    def okslot(self, eng, st, a):
        """the search has established that nothing before this slot is older than the record"""
        if a is V:
            return True
        r = self.rowof(st, baseoff(a)[0])
        return r is not None and self.get(st, "cand", r) is not None and self.delta(eng, st, r) is True and self.later(eng, st, r) is True

    def slot(self, st, a):
        """canonical slot an address denotes, or None"""
        b, o = baseoff(a)
        if b is V and o == 0:
            return V
        if o == self.dm["prev_"] and self.rowof(st, b) is not None:
            return ptr(b, o)
        return None

    def bad(self, eng, rule, ins, msg, st):
        eng.report(rule, ins, msg, st)
        return False

    # -- events --
    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            return self.call(eng, st, ins, **kw)
        if kind == "load":
            return self.loaded(eng, st, ins, kw["addr"], kw["val"])
        if kind == "store":
            return self.stored(eng, st, ins, kw["addr"], kw["val"])
        if kind == "abort":
            return self.bad(eng, "replay-aborts", ins, "replaying a record can stop the server", st)
        if kind == "ret":
            return self.ret(eng, st, ins)
        return None

    def same(self, eng, st, k, x, val):
        """the value read before from an unchanging place"""
        z = self.get(st, k, x)
        if z is None:
            self.put2(st, k, x, val)
            return val
        if z[2] is not val and val.k == "sym":
            eng.subst(st, {val: z[2]})
        return z[2]

    def loaded(self, eng, st, ins, a, v):
        s = self.slot(st, a)
        b, o = baseoff(a)
        r = self.rowof(st, b)
        if r is not None:
            if self.get(st, "freed", r):
                return self.bad(eng, "row-used-after-free", ins, "looks into a row it has freed", st)
            if s is None:
                if o == 0:
                    self.same(eng, st, "typ", r, v)
                elif o == self.dm["prev_ts_"]:
                    self.same(eng, st, "pts", r, v)
                return None
        if s is None:
            return None
        x = self.at(st, s)
        if x is not None:
            if x is not v and v.k == "sym":
                eng.subst(st, {v: x})
            return None
        eng.count("rows looked at", ins)
        if s is V:
            f = self.get(st, "found")
            if not f or eng.truth(st, f[1]) is not True:
                return self.bad(eng, "slot-uninitialised", ins, "reads the row of a key that was not in the table", st)
        ok = not self.get(st, "applied") and self.okslot(eng, st, s)
        self.put2(st, "at", s, v)
        if ok:
            self.add(st, "cand", v)
        elif r is not None and self.older(eng, st, r) is True:
            self.add(st, "older", v)
        return None

    def stored(self, eng, st, ins, a, v):
        s = self.slot(st, a)
        b, o = baseoff(a)
        r = self.rowof(st, b)
        if r is not None:
            if self.get(st, "freed", r):
                return self.bad(eng, "row-used-after-free", ins, "changes a row it has freed", st)
            n = self.get(st, "new", r)
            if n and n[2] == "delta":
                if o == 0:
                    self.put2(st, "typ", r, v)
                elif o == self.dm["prev_ts_"]:
                    self.put2(st, "pts", r, v)
                elif s is not None:
                    self.put2(st, "at", s, v)
                return None
            if s is None:
                return self.bad(eng, "row-modified", ins, "changes a row in place", st)
        if s is None:
            if b is self.this and o == self.o["ts"]:
                if v is not binop("or", 64, self.T0, C(1)) or self.iscmd(eng, st, "remove") is not True:
                    return self.bad(eng, "record-timestamp", ins, "changes the record's timestamp other than to mark a removal", st)
            return None
        x = self.at(st, s)
        n = self.get(st, "new", v)
        if x is v and x is not None and not n:
            return None
        f = self.get(st, "found")
        if s is V and x is None:
            if f and eng.truth(st, f[1]) is False and v is NULL:
                self.put2(st, "at", V, v)
                self.add(st, "cand", v)
                return None
            return self.bad(eng, "blind-store", ins, "replaces a row without having looked at it", st)
        if n:
            if self.link(eng, st, ins, s, x, v, n) is False:
                return False
        else:
            eng.count("rows unlinked", ins)
            if self.iscmd(eng, st, "modify") is not False:
                return self.bad(eng, "base-dropped", ins, "drops a row for a record that only modifies", st)
            if self.get(st, "applied") or not self.okslot(eng, st, s) or x is None or self.older(eng, st, x) is not True:
                return self.bad(eng, "newer-dropped", ins, "drops a row that may be newer than the record", st)
            if self.owes(eng, st):
                return self.bad(eng, "row-leak", ins, "unlinks a row while another unlinked one has not been freed", st)
            p = self.slotof(st, x)
            if p is not None and self.at(st, p) is v and self.delta(eng, st, x) is True:
                self.add(st, "relinked", x)
                self.add(st, "older", v)
            elif v is not NULL:
                return self.bad(eng, "wrong-link", ins, "links something that is neither the row behind the one it drops nor a new row", st)
            self.put(st, "owed", x)
            self.put(st, "dropped")
        self.put2(st, "at", s, v)
        if not n and not self.get(st, "applied"):
            self.add(st, "cand", v)
            if v is NULL or self.get(st, "older", v):
                self.add(st, "older", v)
        return None

    def link(self, eng, st, ins, s, x, v, n):
        """a new row goes into slot s, where x was"""
        kind = n[2]
        eng.count("rows linked", ins)
        if kind == "merge":
            d = n[4]
            if x is not d:
                return self.bad(eng, "wrong-link", ins, "puts a merged row in another place than its delta marker's", st)
            if self.owes(eng, st):
                return self.bad(eng, "row-leak", ins, "unlinks a row while another unlinked one has not been freed", st)
            self.put(st, "owed", d)
            self.add(st, "relinked", d)
            if v is not n[3]:
                self.put(st, "owedif", n[3], v)
                self.forget(st, n[3])
        else:
            if self.get(st, "applied"):
                return self.bad(eng, "applied-twice", ins, "applies the record twice", st)
            if not self.okslot(eng, st, s) or x is None:
                return self.bad(eng, "wrong-position", ins, "stores the record's row in front of a row that may be newer", st)
            if self.isnull(eng, st, x) is not True and self.older(eng, st, x) is not True:
                return self.bad(eng, "newer-dropped", ins, "stores the record's row in place of one that may be newer", st)
            if kind == "full":
                if self.isnull(eng, st, x) is not True:
                    if self.owes(eng, st):
                        return self.bad(eng, "row-leak", ins, "unlinks a row while another unlinked one has not been freed", st)
                    self.put(st, "owed", x)
            elif kind == "update":
                if x is not n[3]:
                    return self.bad(eng, "wrong-link", ins, "puts a modified row in another place than its base's", st)
                self.put(st, "owedif", x, v)
                self.forget(st, x)
            else:
                p = self.slotof(st, v)
                ty, pt = self.get(st, "typ", v), self.get(st, "pts", v)
                if p is None or self.at(st, p) is not x or not ty or not pt or not (isc(ty[2]) and ty[2].a[0] == self.mt_delta) or pt[2] is not self.prev:
                    return self.bad(eng, "delta-marker", ins, "stores a delta marker that does not carry its kind, its base's timestamp and the rows behind it", st)
                t = self.ts(st, x)
                if self.isnull(eng, st, x) is not True and (t is None or self.eq(eng, st, t, self.prev) is not False):
                    return self.bad(eng, "delta-not-applied", ins, "keeps a modification as a delta marker although its base may be there", st)
            self.put(st, "applied")
        self.drop2(st, "new", v)
        return None

    def forget(self, st, x):
        """x may just have been changed in place"""
        st.mon = frozenset(z for z in st.mon if z[0] not in ("ts", "typ", "pts", "cand", "older") or z[1] is not x)

    def free(self, eng, st, ins, x):
        eng.count("rows freed", ins)
        if self.get(st, "freed", x):
            return self.bad(eng, "row-freed-twice", ins, "frees a row twice", st)
        c = self.get(st, "owedif", x)
        if c:
            if self.eq(eng, st, c[2], c[1]) is not False:
                return self.bad(eng, "live-row-freed", ins, "frees the old row although the update may have been made in place", st)
            self.drop(st, "owedif")
            self.add(st, "freed", x)
            return None
        if not self.get(st, "owed", x):
            return self.bad(eng, "live-row-freed", ins, "frees a row the table still holds", st)
        self.drop(st, "owed")
        if not self.get(st, "relinked", x):
            d = self.delta(eng, st, x)
            if d is True:
                p = self.slotof(st, x)
                y = self.at(st, p) if p is not None else None
                if y is None:
                    return self.bad(eng, "row-leak", ins, "frees a delta marker and loses the rows behind it", st)
                if self.isnull(eng, st, y) is not True:
                    self.put(st, "owed", y)
            elif d is None:
                return self.bad(eng, "row-leak", ins, "frees a row that may be a delta marker and loses the rows behind it", st)
        self.add(st, "freed", x)
        return None

    def call(self, eng, st, ins, q, args, val):
        k = q.split("::")[-1]
        if q == "Masstree::tcursor::tcursor":
            if args[2] is not self.ks or args[3] is not self.kl:
                return self.bad(eng, "other-key", ins, "looks up another key than the record's", st)
            self.put(st, "key")
        elif q.startswith("Masstree::tcursor::find"):
            self.put(st, "found", val)
        elif q == "Masstree::tcursor::value":
            if not self.get(st, "found"):
                return self.bad(eng, "slot-unlocked", ins, "uses the key's slot before the key was looked up and locked", st)
            eng.subst(st, {val: V})
        elif q == "Masstree::tcursor::node":
            eng.subst(st, {val: mk("arg", "node", "node")})
        elif q == "threadinfo::observe_phantoms":
            self.put(st, "obs")
        elif q == "Masstree::tcursor::finish":
            return self.finish_op(eng, st, ins, args)
        elif k == "parse_changeset":
            self.drop(st, "begin")
            self.put(st, "parsed", args[0], args[1], val)
        elif q.startswith("std::vector::") and k in ("data", "begin", "front", "operator[]") and args and args[0] is self.jrepo:
            if k != "operator[]" or isc(args[1]) and args[1].a[0] == 0:
                self.add(st, "begin", val)
        else:
            m = ROW.match(q)
            if m:
                return self.row(eng, st, ins, m.group(1), args, val)
        return None

    def row(self, eng, st, ins, m, args, val):
        if m not in ("create", "create1"):
            x = args[0]
            if self.get(st, "freed", x):
                return self.bad(eng, "row-freed-twice" if m in FREE else "row-used-after-free", ins, "uses a row it has freed", st)
        if m == "timestamp":
            self.same(eng, st, "ts", x, val)
        elif m == "col":
            if isc(args[1]) and args[1].a[0] == 0:
                self.same(eng, st, "col", x, val)
        elif m in FREE:
            return self.free(eng, st, ins, x)
        elif m == "create1":
            return self.create1(eng, st, ins, args, val)
        elif m in ("create", "update"):
            eng.count("rows created", ins)
            if m == "update":
                beg, end, t = args[1], args[2], args[3]
            else:
                x, beg, end, t = None, args[0], args[1], args[2]
            p = self.get(st, "parsed")
            if not p or end is not p[3] or not self.get(st, "begin", beg):
                return self.bad(eng, "other-changes", ins, "builds a row from something other than the changes parsed last", st)
            if self.get(st, "applied"):
                return self.merge_(eng, st, ins, x, p, t, val)
            if t is not self.cell(st, "ts") or t is not self.T0:
                return self.bad(eng, "row-timestamp", ins, "gives the row another timestamp than the record's", st)
            if p[1] is not self.vs or p[2] is not self.vl:
                return self.bad(eng, "other-changes", ins, "applies other changes than the record's", st)
            if x is None:
                if self.iscmd(eng, st, "modify") is not False or self.iscmd(eng, st, "replace") is not False or self.iscmd(eng, st, "remove") is not False:
                    return self.bad(eng, "wrong-kind", ins, "builds a row from scratch for a record of another kind", st)
                self.newrow(eng, st, val, t, "full")
            else:
                if self.iscmd(eng, st, "modify") is not True:
                    return self.bad(eng, "wrong-kind", ins, "modifies a row for a record of another kind", st)
                tx = self.ts(st, x)
                if not self.get(st, "cand", x) or self.isnull(eng, st, x) is True or tx is None or self.eq(eng, st, tx, self.prev) is not True:
                    return self.bad(eng, "wrong-base", ins, "applies a modification to a row that may not be the one it was made on", st)
                return self.inplace(eng, st, x, val, t, "update", x)
        elif m not in ("row_string", "ncol", "snapshot"):
            return self.bad(eng, "row-modified", ins, "does something else to a row (%s)" % m, st)
        return None

    def newrow(self, eng, st, n, t, *kind):
        if self.get(st, "new"):
            self.put(st, "lost")
        if n.k == "sym":
            st.nn.add(n)
        if kind[0] != "merge":
            self.put2(st, "ts", n, t)
        self.put2(st, "new", n, *kind)

    def create1(self, eng, st, ins, args, val):
        eng.count("rows created", ins)
        s, l, t = args[:3]
        if self.get(st, "applied"):
            return self.bad(eng, "applied-twice", ins, "builds a second row for the record", st)
        if self.iscmd(eng, st, "modify") is True:
            b, o = baseoff(s)
            d = const(ladd(lin(l), lin(self.vl), -1))
            if b is not self.vs or o != -self.dm["s_"] or d != self.dm["s_"]:
                return self.bad(eng, "delta-marker", ins, "makes a delta marker that does not hold the record's changes behind its header", st)
            if t is not binop("or", 64, self.T0, C(1)):
                return self.bad(eng, "row-timestamp", ins, "makes a delta marker that cannot be told from a row", st)
            self.newrow(eng, st, val, t, "delta")
            return None
        if t is not self.cell(st, "ts"):
            return self.bad(eng, "row-timestamp", ins, "gives the row another timestamp than the record's", st)
        if self.iscmd(eng, st, "replace") is True:
            if s is not self.vs or l is not self.vl:
                return self.bad(eng, "other-value", ins, "stores another value than the record's", st)
            if t is not self.T0:
                return self.bad(eng, "row-timestamp", ins, "gives the row another timestamp than the record's", st)
        elif self.iscmd(eng, st, "remove") is True:
            c = st.cells.get(baseoff(s)) if rootof(s).k == "al" else None
            if c is None or not isc(c[0]) or c[0].a[0] != self.mt_remove or not isc(l) or l.a[0] < 4:
                return self.bad(eng, "other-value", ins, "replays a removal without leaving a removal marker", st)
            if t is not binop("or", 64, self.T0, C(1)):
                return self.bad(eng, "row-timestamp", ins, "leaves a removal marker that cannot be told from a row", st)
        else:
            return self.bad(eng, "wrong-kind", ins, "stores a plain value for a record of another kind", st)
        self.newrow(eng, st, val, t, "full")
        return None

    def merge_(self, eng, st, ins, x, p, t, val):
        """a delta marker's changes are applied to the row behind it"""
        eng.count("delta markers merged", ins)
        if x is None:
            return self.bad(eng, "applied-twice", ins, "builds a second row for the record", st)
        b, o = baseoff(p[1])
        d = self.rowof(st, b)
        if d is None or o != self.dm["s_"] or const(ladd(lin(p[2]), lin(xv(self.get(st, "col", d)[2], (1,))), -1)) != -self.dm["s_"]:
            return self.bad(eng, "other-changes", ins, "merges something other than the changes behind a delta marker's header", st)
        if self.get(st, "freed", d):
            return self.bad(eng, "row-used-after-free", ins, "merges the changes of a delta marker it has freed", st)
        if self.delta(eng, st, d) is not True:
            return self.bad(eng, "other-changes", ins, "merges a row that may not be a delta marker", st)
        y = self.at(st, self.slotof(st, d))
        pt, tx = self.get(st, "pts", d), self.ts(st, x)
        if y is not x or not pt or tx is None or self.eq(eng, st, pt[2], tx) is not True:
            return self.bad(eng, "wrong-base", ins, "applies a delta marker to a row that may not be the one it was made on", st)
        td = self.ts(st, d)
        if td is None or const(ladd(lin(t), lin(td), -1)) != -1:
            return self.bad(eng, "row-timestamp", ins, "gives the merged row another timestamp than the modification's", st)
        return self.inplace(eng, st, x, val, t, "merge", x, d)

    def inplace(self, eng, st, x, val, t, *kind):
        """update() either changes the row itself or makes a new one"""
        s2 = st.copy()
        out = []
        try:
            eng.subst(s2, {val: x})
            self.forget(s2, x)
            if kind[0] == "update":
                self.put2(s2, "ts", x, t)
                self.put(s2, "applied")
            else:
                self.put2(s2, "new", x, "merge", x, kind[2])
            out.append(s2)
        except Infeasible:
            pass
        eng.assume(st, cmp_("eq", 64, val, x), False)
        self.newrow(eng, st, val, t, *kind)
        out.append(st)
        return out

    def owes(self, eng, st):
        o = self.get(st, "owed")
        return o is not None and self.isnull(eng, st, o[1]) is not True

    def debts(self, eng, st, ins):
        if self.get(st, "new") or self.get(st, "lost"):
            return self.bad(eng, "row-leak", ins, "builds a row that does not get into the table", st)
        if self.owes(eng, st):
            return self.bad(eng, "row-leak", ins, "takes a row out of the table without freeing it", st)
        c = self.get(st, "owedif")
        if c and self.eq(eng, st, c[2], c[1]) is not True:
            return self.bad(eng, "row-leak", ins, "takes a row out of the table without freeing it", st)
        return None

    def finish_op(self, eng, st, ins, args):
        eng.count("records finished", ins)
        if self.get(st, "fin"):
            return self.bad(eng, "finished-twice", ins, "unlocks the key twice", st)
        if not (isc(args[1]) and args[1].a[0] == 1):
            return self.bad(eng, "key-dropped", ins, "does not leave the key in the table", st)
        if self.debts(eng, st, ins) is False:
            return False
        f = self.get(st, "found")
        if not f or eng.truth(st, f[1]) is not True and not self.get(st, "obs"):
            return self.bad(eng, "phantom-not-observed", ins, "adds a key without having observed the node's removal mark", st)
        if not self.get(st, "applied"):
            if self.get(st, "dropped"):
                return self.bad(eng, "record-lost", ins, "drops older rows without storing the record's", st)
            for z in st.mon:
                if z[0] == "cand":
                    t, T = self.ts(st, z[1]), self.cell(st, "ts")
                    if t is not None and T is not None and self.isnull(eng, st, z[1]) is False and eng.truth(st, cmp_("ult", 64, t, T)) is False \
                            and (T is self.T0) is (self.iscmd(eng, st, "remove") is False):
                        break
            else:
                return self.bad(eng, "record-lost", ins, "skips a record although the key has nothing as new", st)
        elif not self.settled(eng, st):
            return self.bad(eng, "delta-left", ins, "leaves a delta marker in front of the row it was made on", st)
        self.put(st, "fin")
        return None

    def settled(self, eng, st):
        x = self.at(st, V)
        if x is not None and (self.isnull(eng, st, x) is True or self.delta(eng, st, x) is False):
            return True
        for z in st.mon:
            if z[0] == "col" and self.delta(eng, st, z[1]) is True:
                y = self.at(st, self.slotof(st, z[1]))
                if y is None:
                    continue
                if self.isnull(eng, st, y) is True:
                    return True
                pt, ty = self.get(st, "pts", z[1]), self.ts(st, y)
                if pt and ty is not None and self.delta(eng, st, y) is False and self.eq(eng, st, pt[2], ty) is False:
                    return True
        return False

    def ret(self, eng, st, ins):
        eng.count("exits", ins)
        if not self.get(st, "fin"):
            return self.bad(eng, "not-finished", ins, "returns without having unlocked the key", st)
        return None

    def edge(self, eng, st, frm, to, new):
        """at loop heads, forget the rows the loop is done with"""
        if not eng.fn.head[to]:
            return
        L0 = set()
        for t in [t for x, t in new] + list(st.env.values()):
            L0 |= t.syms
        L = set(L0)
        for z in st.mon:
            if z[0] == "col" and z[2].syms <= L0:
                L |= z[1].syms
            elif z[0] == "at" and z[1].syms <= L0:
                L |= z[2].syms
        keep = set()
        for z in st.mon:
            if z[0] in ("at", "col"):
                ok = (z[1] if z[0] == "at" else z[2]).syms <= L0
            elif z[0] in ("ts", "typ", "pts", "cand", "older", "freed", "relinked"):
                ok = z[1].syms <= L
            elif z[0] in ("parsed", "begin"):
                ok = all(x.syms <= L0 for x in z[1:])
            elif z[0] == "owedif":
                ok = self.eq(eng, st, z[1], z[2]) is not True
            else:
                ok = True
            if ok:
                keep.add(z)
        st.mon = frozenset(keep)
