"""Rules over checkpoint files: what goes into one, how it becomes durable, how it is read."""
from engine import *
from readers import field
from bounds import lin, ladd, const, prove
from serve import Facts
from passes import Passes
from replay import order, lt
from ckpt import SPEC_VISIT, SPEC_FILE
from rcu import findings, finding

TUS = ["mtd.cc", "file.cc", "checkpoint.cc"]


def text(t):
    return t.a[1] if t.k == "g" and len(t.a) > 1 and isinstance(t.a[1], str) else None


def strip(t):
    while t.k in ("sext", "zext", "trunc") or t.k == "xv":
        t = t.a[0]
    return t


class VisitMon(Facts):
    """one row met by the scan of a checkpoint thread"""
    pure = (r"lcdf::.*", r".*row_is_marker", r".*::timestamp", r"msgpack::.*", r".*checkpoint_write")
    width = 8

    def init(self, eng, st):
        pr = eng.fn.prog
        self.o = {k: field(pr, "ckstate", k) for k in ("vals", "count", "endkey")}
        if None in self.o.values() or len(eng.argt) < 4:
            raise LookupError("ckstate::visit_value not found")
        self.row = eng.argt[3] if len(eng.argt) == 5 else eng.argt[2]
        return frozenset({("out", 0), ("n", 0)})

    def own(self, eng, t):
        b, o = baseoff(t)
        return b is eng.argt[0], o

    def iskey(self, eng, st, t):
        """t is the address of, or a word of, the key visited"""
        if t.k == "al" or t.k == "ptr":
            b, o = baseoff(t)
            c = st.cells.get((b, o))
            return c is not None and c[0] is eng.argt[1]
        return t is eng.argt[1]

    def assume(self, eng, st, c, val):
        for z in list(st.mon):
            if z[0] == "mk" and c is z[1]:
                self.put(st, "marker", val)
            if z[0] == "elen" and c.k == "eq" and z[1] in c.a[1:] and FALSE in c.a[1:]:
                self.put(st, "end", not val)
            if z[0] == "elen" and c.k == "slt" and c.a[1] is FALSE and c.a[2] is z[1]:
                self.put(st, "end", val)
            if z[0] == "cmp":
                # key - endkey is z[1] * z[2]
                if c.k == "slt" and c.a[1] is z[1] and c.a[2] is FALSE:
                    self.put(st, "past", (not val) if z[2] > 0 else None)
                elif c.k == "slt" and c.a[2] is z[1] and c.a[1] is FALSE:
                    self.put(st, "past", (val if z[2] > 0 and val else None) if z[2] > 0 else not val)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            own, o = self.own(eng, kw["addr"])
            if own and o == self.o["endkey"] + 8:
                self.put(st, "elen", kw["val"])
            if own and o == self.o["vals"]:
                self.put(st, "vals", kw["val"])
            if own and o == self.o["count"]:
                self.put(st, "cnt", kw["val"])
        elif kind == "store":
            own, o = self.own(eng, kw["addr"])
            if own and o == self.o["count"]:
                c = self.get(st, "cnt")
                if not c or const(ladd(lin(kw["val"]), lin(c[1]), -1)) != 1 or self.get(st, "n")[1] != 0:
                    eng.report("checkpoint-count", ins, "does not count the row exactly once", st)
                    return False
                self.put(st, "n", 1)
            elif own and o in self.o.values():
                eng.report("checkpoint-visit", ins, "changes the thread's range or buffer during the scan", st, key="field")
                return False
        elif kind == "call":
            return self.called(eng, st, ins, kw["q"], kw["args"], kw["val"])
        elif kind == "ret":
            return self.leave(eng, st, ins, kw["val"])
        return None

    def called(self, eng, st, ins, q, a, v):
        k = q.split("::")[-1]
        out = self.get(st, "out")[1]

        def up(t):
            z = self.get(st, "up")
            return z is not None and (t is z[1] or any(y[0] == "upr" and y[1] is t for y in st.mon))
        if k == "row_is_marker":
            if a[0] is not self.row:
                return None
            self.put(st, "mk", v)
        elif k == "compare" and len(a) >= 2:
            e = [self.own(eng, x) == (True, self.o["endkey"]) for x in a[:2]]
            if self.iskey(eng, st, a[0]) and e[1]:
                self.put(st, "cmp", v, 1)
            elif self.iskey(eng, st, a[1]) and e[0]:
                self.put(st, "cmp", v, -1)
        elif q.startswith("msgpack::unparser::"):
            if k == "unparser":
                z = self.get(st, "vals")
                if z and a[1] is z[1]:
                    self.put(st, "up", a[0])
                return None
            if not up(a[0]):
                eng.report("checkpoint-visit", ins, "writes a row elsewhere than to its own part of the checkpoint", st, key="vals")
                return False
            self.add(st, "upr", v)
            eng.count("fields written", ins)
            if out == 0 and (self.iskey(eng, st, a[1]) or len(a) > 2 and a[1] is eng.argt[1]):
                self.put(st, "out", 1)
                return None
            z = self.get(st, "ts")
            if out == 1 and z and a[1] is z[1] and k in ("write_wide", "write", "operator<<"):
                self.put(st, "out", 2)
                return None
            eng.report("checkpoint-visit", ins, "does not write key, timestamp and value in the order in which they are read", st)
            return False
        elif k == "timestamp" and a[0] is self.row:
            self.put(st, "ts", v)
        elif k == "checkpoint_write":
            if out != 2 or a[0] is not self.row or not up(a[1]):
                eng.report("checkpoint-visit", ins, "does not write key, timestamp and value in the order in which they are read", st)
                return False
            self.put(st, "out", 3)
        return None

    def leave(self, eng, st, ins, v):
        eng.count("scan steps", ins)
        out, n = self.get(st, "out")[1], self.get(st, "n")[1]
        if not isc(v):
            eng.report("checkpoint-visit", ins, "whether the scan goes on is undecided", st, key="ret")
            return
        past = (z := self.get(st, "end")) and z[1] and (y := self.get(st, "past")) and y[1]
        if not v.a[0]:
            if not past:
                eng.report("checkpoint-visit", ins, "stops the scan although the end of the range is not reached", st, key="stop")
            if out or n:
                eng.report("checkpoint-visit", ins, "writes a row of the next thread's range", st, key="next")
            return
        if past:
            eng.report("checkpoint-visit", ins, "goes on beyond the end of its range", st, key="beyond")
            return
        z = self.get(st, "end")
        if z is None or z[1] and not ((y := self.get(st, "past")) and y[1] is False):
            eng.report("checkpoint-visit", ins, "takes a row without knowing that it is within its range", st, key="unknown")
            return
        m = self.get(st, "marker")
        if m and m[1]:
            if out or n:
                eng.report("checkpoint-visit", ins, "saves a marker as if it were a row", st, key="marker")
            return
        if not m:
            eng.report("checkpoint-visit", ins, "does not look whether the row is a marker", st, key="nomarker")
        elif out != 3:
            eng.report("checkpoint-visit", ins, "leaves out a row of its range", st, key="left")
        elif n != 1:
            eng.report("checkpoint-count", ins, "does not count the row exactly once", st)


class InsertMon(Facts):
    """one row read back"""
    pure = (r"Masstree::.*", r".*checkpoint_read", r"threadinfo::.*")
    width = 8

    def init(self, eng, st):
        if len(eng.argt) != 3:
            raise LookupError("ckstate::insert not found")
        return frozenset({("rd", 0)})

    def event(self, eng, st, ins, kind, **kw):
        rd = self.get(st, "rd")[1]
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]

            def par(t):
                return t is eng.argt[1] or ("par", t) in st.mon
            if q.startswith("msgpack::parser::") and par(a[0]) and len(a) == 2:
                eng.count("fields read", ins)
                if rd > 1:
                    eng.report("checkpoint-insert", ins, "does not read key, timestamp and value in the order in which they were written", st)
                    return False
                self.put(st, ("key", "ts")[rd], a[1])
                self.put(st, "rd", rd + 1)
                self.add(st, "par", v)
            elif k == "checkpoint_read":
                z = self.get(st, "ts")
                t = self.get(st, "tsv")
                if rd != 2 or not par(a[0]) or not z or not t or a[1] is not t[1]:
                    eng.report("checkpoint-insert", ins, "does not read key, timestamp and value in the order in which they were written", st)
                    return False
                self.put(st, "rd", 3)
                self.put(st, "row", v)
            elif k == "tcursor":
                z = self.get(st, "key")
                kv = {y[1]: y[2] for y in st.mon if y[0] == "kv"}
                if z and a[1] is eng.argt[0] and (len(a) == 3 and a[2] is z[1] or len(a) >= 4 and a[2] is kv.get(0) and 8 in kv):
                    self.put(st, "cur", a[0])
            elif k == "find_insert":
                z = self.get(st, "cur")
                if not z or z[1] is not a[0] or self.get(st, "fi"):
                    eng.report("checkpoint-insert", ins, "inserts at another key than the one read", st, key="key")
                    return False
                eng.count("insertions", ins)
                self.put(st, "fi")
            elif k == "value" and (z := self.get(st, "cur")) and a[0] is z[1] and self.get(st, "fi"):
                self.put(st, "val", v)
            elif k == "finish" and (z := self.get(st, "cur")) and a[0] is z[1]:
                if not self.get(st, "set") or not isc(a[1]) or a[1].a[0] != 1:
                    eng.report("checkpoint-insert", ins, "does not insert the row read", st, key="row")
                    return False
                self.put(st, "done")
        elif kind == "load":
            z = self.get(st, "ts")
            if z and kw["addr"] is z[1]:
                self.put(st, "tsv", kw["val"])
            z = self.get(st, "key")
            if z:
                b, o = baseoff(kw["addr"])
                b2, o2 = baseoff(z[1])
                if b is b2 and o - o2 in (0, 8):
                    st.mon = frozenset(y for y in st.mon if y[:2] != ("kv", o - o2)) | {("kv", o - o2, kw["val"])}
        elif kind == "store":
            z, r = self.get(st, "val"), self.get(st, "row")
            if z and kw["addr"] is z[1]:
                if r and kw["val"] is r[1]:
                    self.put(st, "set")
                else:
                    self.drop(st, "set")
        elif kind == "ret":
            if not self.get(st, "done"):
                eng.report("checkpoint-insert", ins, "returns without having inserted the row", st, key="ret")
        return None


class JsonB(Facts):
    """keeps track of Json objects being built"""
    def jcall(self, eng, st, q, a, v):
        k = q.split("::")[-1]
        if k in ("String", "Str") and len(a) == 2 and text(a[1]) is not None:
            self.forget(st, a[0])
            self.add(st, "sc", a[0], text(a[1]))
        elif k == "Json":
            self.forget(st, a[0])
            if len(a) == 1:
                self.add(st, "jc", a[0], None)
            else:
                r = self.rootj(st, a[1])
                fs = [(z[2], z[3]) for z in st.mon if z[0] == "js" and z[1] is r]
                if fs or self.get(st, "jc", r) and len(a) == 2 and a[1].k in ("al", "sym") and self.get(st, "jc", r)[2] is None:
                    self.add(st, "jc", a[0], None)
                    for f in fs:
                        self.add(st, "js", a[0], *f)
                else:
                    self.add(st, "jc", a[0], a[1])
        elif k == "~Json" or k == "~String":
            self.forget(st, a[0])
        elif k == "set" and len(a) == 3:
            r = self.rootj(st, a[0])
            s = self.get(st, "sc", a[1])
            s = s[2] if s else text(a[1])
            j = self.get(st, "jc", a[2])
            val = j[2] if j else a[2]
            self.add(st, "jr", v, r)
            st.mon = frozenset(z for z in st.mon if not (z[0] == "js" and z[1] is r and z[2] == s))
            self.add(st, "js", r, s, val)
            return r, s, val
        return None

    def rootj(self, st, t):
        z = self.get(st, "jr", t)
        return z[2] if z else t

    def member(self, st, t, key):
        """(present, value)"""
        z = self.get(st, "js", self.rootj(st, t), key)
        return z[3] if z else None

    def forget(self, st, t):
        st.mon = frozenset(z for z in st.mon if not (z[0] in ("sc", "jc", "js") and z[1] is t))


class Names(JsonB):
    """file names: what sprintf wrote where"""
    def namecall(self, eng, st, q, a, v):
        k = q.split("::")[-1]
        if k == "size" and a and a[0].k == "g" and a[0].a[0] == "ckpdirs":
            z = self.get(st, "nd")
            if z:
                eng.subst(st, {v: z[1]})
            else:
                self.put(st, "nd", v)
            return True
        if k in ("operator[]", "at", "front") and a and a[0].k == "g" and a[0].a[0] == "ckpdirs":
            self.drop(st, "dirp", "dir")
            self.add(st, "dirp", v, a[1] if len(a) > 1 else FALSE)
            return True
        if k in ("sprintf", "snprintf"):
            r = a[2:] if k == "snprintf" else a[1:]
            st.mon = frozenset(z for z in st.mon if not (z[0] == "name" and z[1] is a[0]))
            d = [self.get(st, "dir", x) for x in r[1:]]
            self.add(st, "name", a[0], text(r[0]), *[y[2] if y else x for x, y in zip(r[1:], d)])
            return True
        return False

    def nameload(self, eng, st, addr, v):
        z = self.get(st, "dirp", addr)
        if z:
            self.add(st, "dir", v, z[2])
            return True
        if addr.k == "g" and addr.a[0] == "ckp_gen":
            z = self.get(st, "gen")
            if z:
                eng.subst(st, {v: z[1]})
            else:
                self.put(st, "gen", v)
            return True
        return False

    def part(self, st, path, ix, dgen=0):
        """the format of the name of the part of thread ix of generation ckp_gen + dgen, or None"""
        z = self.get(st, "name", path)
        g, nd = self.get(st, "gen"), self.get(st, "nd")
        if not z or len(z) != 6 or not g or not nd or z[2] is None:
            return None
        x = z[3]
        ok = x.k == "urem" and const(ladd(lin(x.a[1]), lin(ix), -1)) == 0 and x.a[2] is nd[1]
        if not ok or const(ladd(lin(z[4]), lin(g[1]), -1)) != dgen or const(ladd(lin(z[5]), lin(ix), -1)) != 0:
            return None
        return z[2]


def names(eng):
    return eng.__dict__.setdefault("names", set())


class PartMon(Names):
    """writing one thread's part of a checkpoint"""
    pure = (r"lcdf::.*", r"std::.*", r"threadinfo::.*", r"msgpack::.*", r"now", r"sprintf", r"snprintf", r"printf", r"creat", r"open", r"fsync", r"fdatasync", r"close", r"new_bufkvout", r"free_kvout", r"checked_write")
    width = 8

    def init(self, eng, st):
        pr = eng.fn.prog
        self.sz = pr.structs.get("ckstate", {}).get("size")
        self.o = {k: field(pr, "ckstate", k) for k in ("vals", "count", "startkey")}
        self.v = {k: field(pr, "kvout", k) for k in ("buf", "n")}
        if None in self.o.values() or None in self.v.values():
            raise LookupError("checkpoint part not found")
        return frozenset({("w", 0)})

    def bad(self, eng, st, ins, rule, msg, key=None):
        eng.report(rule, ins, msg, st, key=key or rule)
        return False

    def own(self, st, t):
        c, ix = self.get(st, "cks"), self.get(st, "me")
        if not c or not ix:
            return None
        d = ladd(lin(t), lin(c[1]), -1)
        d = ladd(d, {k: n * self.sz for k, n in lin(ix[1]).items()}, -1)
        return const(d)

    def assume(self, eng, st, c, val):
        fd = self.get(st, "fd")
        if fd and (c.k == "slt" and c.a[1] is fd[1] and c.a[2] is FALSE and not val or c.k == "eq" and fd[1] in c.a[1:] and not val and any(isc(x) and u(x.a[0], 32) == 0xffffffff for x in c.a[1:])):
            self.put(st, "open")
        for r in ("fsync", "close"):
            z = self.get(st, r + "r")
            if z and c.k == "eq" and z[1] in c.a[1:] and FALSE in c.a[1:]:
                self.put(st, r + "d", val)
            if z and c.k == "slt" and c.a[1] is z[1] and c.a[2] is FALSE and not val:
                self.put(st, r + "d", True)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            if self.nameload(eng, st, a, v):
                return None
            if a.k == "g" and a.a[0] == "cks":
                z = self.get(st, "cks")
                eng.subst(st, {v: z[1]}) if z else self.put(st, "cks", v)
            elif a.k == "g" and a.a[0] == "tree":
                self.put(st, "tree", v)
            else:
                o = self.own(st, a)
                if o == self.o["vals"] and (z := self.get(st, "vals")) and v is not z[1]:
                    eng.subst(st, {v: z[1]})
                elif o == self.o["count"]:
                    self.put(st, "count", v)
                elif o is not None and self.o["startkey"] <= o < self.o["startkey"] + 16:
                    self.add(st, "sk", v, o - self.o["startkey"])
                z = self.get(st, "vals")
                b, o = baseoff(a)
                if z and b is z[1]:
                    for f in ("buf", "n"):
                        if o == self.v[f]:
                            self.put(st, "v" + f, v)
        elif kind == "store":
            o = self.own(st, kw["addr"])
            if o == self.o["vals"]:
                z = self.get(st, "new")
                if z and z[1] is kw["val"]:
                    self.put(st, "vals", z[1])
                elif self.get(st, "vals") and not self.get(st, "freed") or not isc(kw["val"]):
                    return self.bad(eng, st, ins, "checkpoint-part", "does not collect its rows in a buffer of its own")
            elif o == self.o["count"]:
                if not (isc(kw["val"]) and kw["val"].a[0] == 0):
                    return self.bad(eng, st, ins, "checkpoint-part", "changes the number of rows it wrote", "count")
                if self.get(st, "scanned") and not self.get(st, "sized"):
                    return self.bad(eng, st, ins, "checkpoint-part", "forgets the number of rows before it is written", "count")
                self.put(st, "zero")
            elif o is not None and self.o["startkey"] <= o < self.o["startkey"] + 32:
                return self.bad(eng, st, ins, "checkpoint-part", "changes its own key range", "range")
        elif kind == "call":
            return self.called(eng, st, ins, kw["q"], kw["args"], kw["val"])
        elif kind == "ret":
            eng.count("parts finished", ins)
            if not self.get(st, "closed"):
                self.bad(eng, st, ins, "checkpoint-part", "returns without a complete file", "ret")
            elif not self.get(st, "fsyncd") or not self.get(st, "fsyncd")[1]:
                self.bad(eng, st, ins, "checkpoint-fsync", "reports its part as written although it may not be on disk", "fsync")
            elif not self.get(st, "closed") or not self.get(st, "closed")[1]:
                self.bad(eng, st, ins, "checkpoint-fsync", "reports its part as written although closing it failed", "close")
            if not self.get(st, "zero"):
                self.bad(eng, st, ins, "checkpoint-part", "the next part would start with the rows of this one counted in", "zero")
            if not self.get(st, "freed"):
                self.bad(eng, st, ins, "checkpoint-leak", "does not release the buffer of its rows")
        return None

    def called(self, eng, st, ins, q, a, v):
        k = q.split("::")[-1]
        if self.namecall(eng, st, q, a, v):
            return None
        if q.startswith("lcdf::Json") or q.startswith("lcdf::String::"):
            self.jcall(eng, st, q, a, v)
            return None
        if q == "threadinfo::index":
            z = self.get(st, "me")
            if a[0] is eng.argt[0]:
                eng.subst(st, {v: z[1]}) if z else self.put(st, "me", v)
        elif k == "new_bufkvout":
            self.put(st, "new", v)
            st.nn.add(v)
        elif k == "scan" and "Masstree" in q:
            eng.count("scans", ins)
            t = self.get(st, "tree")
            if not t or a[0] is not t[1] or not self.get(st, "vals") or self.get(st, "scanned"):
                return self.bad(eng, st, ins, "checkpoint-part", "does not scan the tree once into its own buffer", "scan")
            n = [x for x in a[1:-3]]
            sk = [z[2] for x in n for z in st.mon if z[0] == "sk" and z[1] is x]
            if self.own(st, a[1]) == self.o["startkey"]:
                sk = [0, 8]
            if not sk or sk[0] != 0 or 8 not in sk or self.own(st, a[-2]) != 0:
                return self.bad(eng, st, ins, "checkpoint-part", "does not scan from the start of its own range", "start")
            if not isc(a[-3]) or a[-3].a[0] != 1:
                return self.bad(eng, st, ins, "checkpoint-part", "leaves out the first key of its range", "first")
            self.put(st, "scanned")
            self.drop(st, "count", "vbuf", "vn", "zero")
        elif k in ("creat", "open", "open64", "creat64"):
            ix = self.get(st, "me")
            f = ix and self.part(st, a[0], ix[1])
            if not f or k.startswith("open") and not (isc(a[1]) and a[1].a[0] & 0o1000 and a[1].a[0] & 0o100 and a[1].a[0] & 3):
                return self.bad(eng, st, ins, "checkpoint-name", "does not start a new file under the name of its part of this generation")
            names(eng).add(f)
            self.put(st, "fd", v)
        elif k == "unparse" and q.startswith("msgpack"):
            j = a[1]
            self.put(st, "hdr", a[0], self.member(st, j, "generation"), self.member(st, j, "size"))
        elif k in ("data", "length", "begin") and (z := self.get(st, "hdr")) and a[0] is z[1]:
            self.add(st, "h" + ("len" if k == "length" else "dat"), v)
        elif k == "checked_write":
            w = self.get(st, "w")[1]
            fd = self.get(st, "fd")
            eng.count("writes", ins)
            if not fd or a[0] is not fd[1] or not self.get(st, "open"):
                return self.bad(eng, st, ins, "checkpoint-part", "writes to a file that may not be open", "fd")
            if w == 0:
                h, g, c = self.get(st, "hdr"), self.get(st, "gen"), self.get(st, "count")
                if not h or ("hdat", a[1]) not in st.mon or ("hlen", strip(a[2])) not in st.mon:
                    return self.bad(eng, st, ins, "checkpoint-header", "does not start the file with its header", "first")
                if h[2] is None or not g or h[2] is not g[1]:
                    return self.bad(eng, st, ins, "checkpoint-header", "does not record the generation in the header", "generation")
                if not self.get(st, "scanned") or h[3] is None or not c or h[3] is not c[1]:
                    return self.bad(eng, st, ins, "checkpoint-header", "does not record in the header how many rows the scan wrote", "size")
                self.put(st, "w", 1)
                self.put(st, "sized")
            elif w == 1:
                b, n = self.get(st, "vbuf"), self.get(st, "vn")
                if not b or not n or a[1] is not b[1] or strip(a[2]) is not n[1] or self.get(st, "freed"):
                    return self.bad(eng, st, ins, "checkpoint-part", "does not write all rows of its buffer", "rows")
                self.put(st, "w", 2)
            else:
                return self.bad(eng, st, ins, "checkpoint-part", "writes more than the header and the rows", "more")
        elif k in ("safe_write", "write"):
            return self.bad(eng, st, ins, "checkpoint-part", "writes without checking that everything was written", "unchecked")
        elif k in ("fsync", "fdatasync"):
            fd = self.get(st, "fd")
            if fd and a[0] is fd[1] and self.get(st, "w")[1] == 2:
                self.put(st, "fsyncr", v)
                self.drop(st, "fsyncd")
        elif k == "close":
            fd = self.get(st, "fd")
            if fd and a[0] is fd[1] and self.get(st, "w")[1] == 2:
                self.put(st, "closer", v)
                self.put(st, "closed", False)
        elif k in ("free_kvout",):
            z = self.get(st, "vals")
            if z and a[0] is z[1]:
                self.put(st, "freed")
        elif k in ("unlink", "rename", "truncate", "ftruncate"):
            return self.bad(eng, st, ins, "checkpoint-part", "changes files while writing its part", "unlink")
        return None


class RecoverMon(Names):
    """reading back one thread's part of the committed checkpoint"""
    pure = (r"lcdf::.*", r"std::.*", r"threadinfo::.*", r"sprintf", r"snprintf", r"read_checkpoint", r"waituntilphase")
    width = 8

    def init(self, eng, st):
        self.ckp = eng.fn.prog.enum("REC_CKP")
        if self.ckp is None:
            raise LookupError("REC_CKP not found")
        return frozenset()

    def assume(self, eng, st, c, val):
        z, g = self.get(st, "read"), self.get(st, "gen")
        if z and g and c.k == "eq" and z[1] in c.a[1:] and g[1] in c.a[1:]:
            self.put(st, "ok", val)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            if kw["addr"].k == "g" and kw["addr"].a[0] == "ckp_gen" and not self.get(st, "phase"):
                eng.report("checkpoint-phase", ins, "reads the generation before it is known", st, key="gen")
                return False
            self.nameload(eng, st, kw["addr"], kw["val"])
        elif kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            if self.namecall(eng, st, q, a, v):
                return None
            if q == "threadinfo::index":
                z = self.get(st, "me")
                eng.subst(st, {v: z[1]}) if z else self.put(st, "me", v)
            elif k == "waituntilphase":
                if isc(a[0]) and a[0].a[0] == self.ckp:
                    self.put(st, "phase")
            elif k == "read_checkpoint":
                eng.count("parts read", ins)
                ix = self.get(st, "me")
                f = ix and self.part(st, a[1], ix[1])
                if not f:
                    eng.report("checkpoint-name", ins, "does not read its own part of the committed generation", st)
                    return False
                names(eng).add(f)
                self.put(st, "read", v)
            elif k == "inactive":
                if not (z := self.get(st, "ok")) or not z[1]:
                    eng.report("checkpoint-unread", ins, "goes on although its part of the checkpoint may not have been read", st)
                    return False
                if self.get(st, "done"):
                    eng.report("checkpoint-phase", ins, "reports twice that its part is read", st, key="twice")
                self.put(st, "done")
        elif kind == "ret":
            if not self.get(st, "done"):
                eng.report("checkpoint-phase", ins, "does not report that its part is read", st, key="done")
        return None


class PrepMon(JsonB):
    """the record of a complete checkpoint"""
    pure = (r"lcdf::.*",)
    width = 8

    def init(self, eng, st):
        a = eng.argt
        if len(a) < 4:
            raise LookupError("prepare_checkpoint not found")
        self.res, self.min, self.n = a[0], a[1], a[2]
        return frozenset()

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a = kw["addr"]
            if a.k == "g" and a.a[0] in ("global_log_epoch", "ckp_gen"):
                self.add(st, "L", a.a[0], kw["val"])
        elif kind == "call":
            if kw["q"].startswith("lcdf::"):
                self.jcall(eng, st, kw["q"], kw["args"], kw["val"])
        elif kind == "ret":
            eng.count("records", ins)
            L = lambda n: {z[2] for z in st.mon if z[0] == "L" and z[1] == n}
            m = lambda k: self.member(st, self.res, k)
            t = m("kvdb_checkpoint")
            for key, ok in (("kvdb_checkpoint", t is not None and isc(t) and t.a[0] != 0), ("min_epoch", m("min_epoch") is self.min),
                            ("max_epoch", m("max_epoch") in L("global_log_epoch")), ("generation", m("generation") in L("ckp_gen"))):
                if not ok:
                    eng.report("checkpoint-record", ins, "the record of the checkpoint does not contain the right " + key, st, key=key)
        return None


class CommitMon(Names):
    """committing a checkpoint, and deleting the one before"""
    pure = (r"lcdf::.*", r"std::.*", r"sprintf", r"snprintf", r"fprintf", r"printf", r"unlink", r"atomic_write_file_contents")
    width = 8

    def init(self, eng, st):
        if len(eng.argt) != 1:
            raise LookupError("commit_checkpoint not found")
        return frozenset()

    def assume(self, eng, st, c, val):
        z = self.get(st, "w")
        if z and c.k == "eq" and z[1] in c.a[1:] and FALSE in c.a[1:]:
            self.put(st, "ok", val)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            self.nameload(eng, st, kw["addr"], kw["val"])
        elif kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            ok = (z := self.get(st, "ok")) and z[1]
            if self.namecall(eng, st, q, a, v):
                return None
            if k == "unparse" and q.startswith("lcdf::Json"):
                if len(a) >= 2 and a[1] is eng.argt[0]:
                    self.add(st, "ser", a[0])
            elif k == "set" or k == "operator=" and q.startswith("lcdf::Json"):
                if a[0] is eng.argt[0]:
                    eng.report("checkpoint-commit", ins, "changes the record of the checkpoint", st, key="set")
            elif k == "atomic_write_file_contents":
                eng.count("commits", ins)
                z = self.get(st, "name", a[0])
                if not z or len(z) != 4 or not isc(z[3]) or z[3].a[0] != 0 or z[2] is None:
                    eng.report("checkpoint-name", ins, "commits under a name that recovery does not look for", st, key="gen")
                    return False
                names(eng).add(("gen", z[2]))
                if ("ser", a[1]) not in st.mon:
                    eng.report("checkpoint-commit", ins, "does not commit the checkpoint's record", st, key="record")
                    return False
                self.put(st, "w", v)
            elif k in ("sync_write_file_contents", "rename", "open", "creat", "truncate", "fopen"):
                eng.report("checkpoint-commit", ins, "does not replace the committed checkpoint atomically", st, key="atomic")
                return False
            elif k in ("unlink", "remove"):
                eng.count("deletions", ins)
                if not ok:
                    eng.report("checkpoint-commit", ins, "deletes the last checkpoint before the new one is committed", st, key="unlink")
                    return False
                z = self.get(st, "name", a[0])
                if not z or len(z) != 6 or not self.part(st, a[0], z[5], -1):
                    eng.report("checkpoint-name", ins, "may delete something else than a part of the last checkpoint", st, key="unlink")
                    return False
                names(eng).add(z[2])
        elif kind == "ret":
            if not ((z := self.get(st, "ok")) and z[1]):
                eng.report("checkpoint-commit", ins, "returns without having committed the checkpoint", st, key="ret")
        return None


class FlushMon(Passes):
    """how far every log is flushed: no further than any one of them"""
    CONST = ("nlogger", "logs")

    def init(self, eng, st):
        pr = eng.fn.prog
        self.lsz = pr.structs.get("loginfo", {}).get("size")
        if self.lsz is None:
            raise LookupError("loginfo not found")
        return frozenset()

    def arrays(self, eng, st):
        return {"log": (self.K(st, "logs"), self.lsz)}

    def edge(self, eng, st, frm, to, new):
        body = self.loopsof(eng).get(to)
        if body and frm not in body:
            for y, t in new:
                self.add(st, "acc", to, y.i, t)
        elif body:
            first = ("first", to) in st.mon
            fe = [z[1:] for z in st.mon if z[0] == "fe"]
            for y, t in new:
                old = self.get(st, "acc", to, y.i)
                if not old:
                    continue
                old = old[3]
                for v, ix in fe:
                    if v is t or lt(eng, st, v, t) is False or lt(eng, st, t, v):
                        self.mark(st, dict(ix), "min", y.i)
                if not first and not (t is old or lt(eng, st, t, old) or lt(eng, st, old, t) is False or eng.truth(st, cmp_("eq", 64, old, C(0, 64)))):
                    st.mon = frozenset(z for z in st.mon if not (z[0] == "ev" and z[3] == ("min", y.i)))
                st.mon = frozenset(z for z in st.mon if z[:3] != ("acc", to, y.i)) | {("acc", to, y.i, t)}
            self.drop(st, "fe", "qs")
        return super().edge(eng, st, frm, to, new)

    def assume(self, eng, st, c, val):
        for z in list(st.mon):
            if z[0] == "qs" and c is z[1] and val:
                for x in z[3]:
                    self.add(st, "fe", x, z[2])
        return super().assume(eng, st, c, val)

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            if self.constload(eng, st, a, v):
                return None
            if a.k == "g" and a.a[0] == "global_log_epoch":
                self.put(st, "E", v)
        elif kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            e = self.elem(eng, st, a[0]) if a else None
            if e and e[0] == "log" and e[2] == 0:
                ix = self.fz(e[1])
                if q.endswith("::quiescent"):
                    eng.count("logs asked", ins)
                    self.add(st, "qs", v, ix, tuple(z[1] for z in st.mon if z[0] == "E"))
                elif q.endswith("::flushed_epoch"):
                    self.add(st, "fe", v, ix)
        elif kind == "ret":
            eng.count("results", ins)
            n = self.K(st, "nlogger")
            if n is None or not any(z[3] is kw["val"] and self.every(eng, st, 0, n, "min", z[2]) for z in st.mon if z[0] == "acc"):
                eng.report("checkpoint-flushed", ins, "the result may be past what some log has flushed", st)
        return None


class SyncMon(Facts):
    """writing a file so that it is complete and on disk when 0 is returned"""
    pure = (r"lcdf::.*", r"open", r"creat", r"safe_write", r"fsync", r"close", r"__errno_location")
    width = 8

    def init(self, eng, st):
        if len(eng.argt) != 3:
            raise LookupError("sync_write_file_contents not found")
        return frozenset()

    def assume(self, eng, st, c, val):
        fd = self.get(st, "fd")
        if fd and c.k == "eq" and fd[1] in c.a[1:] and any(isc(x) and u(x.a[0], 32) == 0xffffffff for x in c.a[1:]):
            self.put(st, "open", not val)
        if fd and c.k == "slt" and c.a[1] is fd[1] and c.a[2] is FALSE:
            self.put(st, "open", not val)
        w = self.get(st, "wr")
        if w and c.k == "eq":
            x = [strip(t) for t in c.a[1:]]
            if w[1] in x and any(("len", t) in st.mon for t in x):
                self.put(st, "all", val)
        for r in ("fsync", "close"):
            z = self.get(st, r + "r")
            if z and c.k == "eq" and z[1] in c.a[1:] and FALSE in c.a[1:]:
                self.put(st, r + "d", val)
            if z and c.k == "slt" and c.a[1] is z[1] and c.a[2] is FALSE:
                self.put(st, r + "d", not val)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            fd = self.get(st, "fd")
            t = lambda f: (z := self.get(st, f)) and z[1]
            if k in ("open", "open64", "creat", "creat64"):
                eng.count("files opened", ins)
                fl = isc(a[1]) and a[1].a[0]
                if a[0] is not eng.argt[0]:
                    eng.report("atomic-write", ins, "opens another file than the one named", st, key="name")
                    return False
                if k.startswith("open") and not (fl and fl & 0o1000 and fl & 0o100 and fl & 3):
                    eng.report("atomic-write", ins, "does not start the file anew", st, key="trunc")
                    return False
                self.put(st, "fd", v)
            elif q.startswith("lcdf::String") and a and a[0] is eng.argt[1]:
                if k == "length":
                    self.add(st, "len", v)
                elif k in ("data", "begin", "c_str"):
                    self.add(st, "dat", v)
            elif k in ("safe_write", "write", "checked_write"):
                eng.count("writes", ins)
                if not fd or a[0] is not fd[1] or not t("open") or ("dat", a[1]) not in st.mon or ("len", strip(a[2])) not in st.mon or t("wr") is not None:
                    eng.report("atomic-write", ins, "does not write exactly the given contents", st, key="contents")
                    return False
                self.put(st, "wr", v)
                if k == "checked_write":
                    self.put(st, "all", True)
            elif k in ("fsync", "fdatasync") and fd and a[0] is fd[1]:
                if t("wr") is not None:
                    self.put(st, "fsyncr", v)
            elif k == "close" and fd and a[0] is fd[1]:
                self.put(st, "closer", v)
                if self.get(st, "shut"):
                    eng.report("atomic-write", ins, "closes the file twice", st, key="close2")
                self.put(st, "shut")
        elif kind == "ret":
            eng.count("results", ins)
            v = kw["val"]
            t = lambda f: (z := self.get(st, f)) and z[1]
            if t("open") and not self.get(st, "shut"):
                eng.report("atomic-write", ins, "returns with the file open", st, key="leak")
            if isc(v) and v.a[0] != 0:
                return None
            if not t("all"):
                eng.report("atomic-write", ins, "may report success although not everything was written", st, key="short")
            elif not t("fsyncd"):
                eng.report("atomic-write", ins, "may report success although the file is not on disk", st, key="fsync")
            elif not (t("closer") is v or t("closed")):
                eng.report("atomic-write", ins, "may report success although closing the file failed", st, key="close")
        return None


class AtomicMon(Facts):
    """replacing a file: the old or the new contents, whole, at every moment"""
    pure = (r"lcdf::.*", r"sync_write_file_contents", r"rename", r"std::.*")
    width = 8

    def init(self, eng, st):
        if len(eng.argt) != 3:
            raise LookupError("atomic_write_file_contents not found")
        return frozenset()

    def assume(self, eng, st, c, val):
        z = self.get(st, "w")
        if z and c.k == "eq" and z[1] in c.a[1:] and FALSE in c.a[1:]:
            self.put(st, "ok", val)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            k = q.split("::")[-1]
            if k in ("String", "operator+") and q.startswith("lcdf"):
                n = a[1:]
                base = any(x is eng.argt[0] or self.get(st, "is", x) for x in n)
                suf = any(text(x) or self.get(st, "tmp", x) for x in n)
                st.mon = frozenset(z for z in st.mon if not (z[0] in ("is", "tmp") and z[1] is a[0]))
                if base and not suf:
                    self.add(st, "is", a[0])
                elif suf and k == "operator+":
                    self.add(st, "tmp", a[0], True)
            elif k in ("c_str", "data") and q.startswith("lcdf"):
                z = self.get(st, "tmp", a[0])
                if z:
                    self.add(st, "tp", v, a[0])
                elif self.get(st, "is", a[0]):
                    self.add(st, "same", v)
            elif k == "sync_write_file_contents":
                eng.count("files written", ins)
                z = self.get(st, "tp", a[0])
                if not z:
                    eng.report("atomic-write", ins, "writes the file in place: after a crash it may be neither the old nor the new one", st, key="place")
                    return False
                if a[1] is not eng.argt[1]:
                    eng.report("atomic-write", ins, "writes something else than the given contents", st, key="contents")
                    return False
                self.put(st, "w", v)
                self.put(st, "of", z[2])
            elif k == "rename":
                eng.count("renames", ins)
                z = self.get(st, "tp", a[0])
                o = self.get(st, "of")
                if not (y := self.get(st, "ok")) or not y[1]:
                    eng.report("atomic-write", ins, "replaces the file by one that may be incomplete", st, key="early")
                    return False
                if not z or not o or z[2] is not o[1] or not (a[1] is eng.argt[0] or ("same", a[1]) in st.mon):
                    eng.report("atomic-write", ins, "does not put the new file in the old one's place", st, key="name")
                    return False
                self.put(st, "rn", v)
            elif k in ("unlink", "remove", "truncate", "open", "creat"):
                eng.report("atomic-write", ins, "touches the old file before the new one is in place", st, key="unlink")
                return False
        elif kind == "ret":
            v = kw["val"]
            z = self.get(st, "rn")
            if isc(v) and v.a[0] != 0 or z and v is z[1]:
                return None
            if not z:
                eng.report("atomic-write", ins, "may report success without having replaced the file", st, key="ret")
            else:
                t = eng.truth(st, cmp_("eq", 32, z[1], FALSE))
                if not t:
                    eng.report("atomic-write", ins, "may report success although replacing the file failed", st, key="rename")
        return None


class ReadMon(Passes):
    """reading a part back: every row of it is inserted"""
    CONST = ("tree",)
    width = 8
    steps = True

    def init(self, eng, st):
        if len(eng.argt) != 2:
            raise LookupError("read_checkpoint not found")
        return frozenset()

    def bounds(self, st):
        return {z[1] for z in st.mon if z[0] == "N"}

    def assume(self, eng, st, c, val):
        fd = self.get(st, "fd")
        if fd and (c.k == "slt" and c.a[1] is fd[1] and c.a[2] is FALSE and not val or c.k == "eq" and fd[1] in c.a[1:] and not val and any(isc(x) and u(x.a[0], 32) == 0xffffffff for x in c.a[1:])):
            self.put(st, "open")
        return super().assume(eng, st, c, val)

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load":
            a, v = kw["addr"], kw["val"]
            if self.constload(eng, st, a, v):
                return None
            b, o = baseoff(a)
            z = self.get(st, "stb")
            if z and b is baseoff(z[1])[0]:
                self.add(st, "sz", v)
        elif kind == "call":
            return self.called(eng, st, ins, kw["q"], kw["args"], kw["val"])
        elif kind == "ret":
            v = kw["val"]
            eng.count("results", ins)
            if isc(v) and v.a[0] == 0:
                if self.get(st, "open"):
                    eng.report("checkpoint-read", ins, "gives the file up although it is there", st, key="open")
                return None
            g, n = self.get(st, "generation"), self.get(st, "N")
            if not g or v is not g[1]:
                eng.report("checkpoint-read", ins, "does not return the generation recorded in the file", st, key="generation")
            elif not n or not (self.every(eng, st, 0, n[1], "row") or self.every(eng, st, 0, n[1], "row-")):
                eng.report("checkpoint-read", ins, "does not insert all rows of the file", st, key="rows")
        return None

    def called(self, eng, st, ins, q, a, v):
        k = q.split("::")[-1]
        if k in ("open", "open64"):
            if a[0] is not eng.argt[1]:
                eng.report("checkpoint-read", ins, "opens another file than the one named", st, key="name")
                return False
            self.put(st, "fd", v)
        elif k in ("fstat", "fstat64") and (z := self.get(st, "fd")) and a[0] is z[1]:
            self.put(st, "stb", a[1])
        elif k in ("mmap", "mmap64"):
            z = self.get(st, "fd")
            if z and a[4] is z[1] and isc(a[5]) and a[5].a[0] == 0 and ("sz", strip(a[1])) in st.mon:
                self.put(st, "map", v)
        elif k in ("make_stable", "String", "Str") and len(a) == 3 and (z := self.get(st, "map")) and a[1] is z[1]:
            if ("sz", strip(a[2])) in st.mon:
                self.add(st, "txt", a[0])
        elif q == "msgpack::parser::parser":
            z = self.get(st, "map")
            if ("txt", a[1]) in st.mon or z and a[1] is z[1]:
                self.put(st, "par", a[0])
        elif q.startswith("msgpack::parser::") and (z := self.get(st, "par")) and a[0] is z[1]:
            if k[0] == "~":
                return None
            if k != "operator>>" or self.get(st, "hdr"):
                eng.report("checkpoint-read", ins, "reads something else than a header followed by rows", st, key="header")
                return False
            self.put(st, "hdr", a[1])
        elif k in ("operator[]", "get") and q.startswith("lcdf::Json"):
            h = self.get(st, "hdr")
            t = [text(x) for x in a if text(x)]
            if h and h[1] in a and t:
                if k == "operator[]":
                    st.mon = frozenset(z for z in st.mon if not (z[0] == "px" and z[1] is a[0]))
                    self.add(st, "px", a[0], t[0])
                else:
                    self.add(st, "px", v, t[0])
        elif k in ("as_i", "to_i", "to_u64", "as_u", "to_u"):
            z = self.get(st, "px", a[0])
            if z and z[2] == "size":
                self.put(st, "N", v)
            elif z and z[2] == "generation":
                self.put(st, "generation", v)
        elif k == "munmap":
            self.put(st, "unmapped")
        elif q == "ckstate::insert":
            eng.count("rows inserted", ins)
            z, n = self.get(st, "par"), self.get(st, "N")
            if not z or a[1] is not z[1] or not self.get(st, "hdr") or self.get(st, "unmapped"):
                eng.report("checkpoint-read", ins, "does not read the rows that follow the header", st, key="par")
                return False
            if a[0] is not self.K(st, "tree") and baseoff(a[0])[0] is not self.K(st, "tree"):
                eng.report("checkpoint-read", ins, "does not insert into the tree", st, key="tree")
                return False
            for z in list(st.mon):
                if z[0] == "cur":
                    t = lin(z[4])
                    if self.marked(st, t, "row"):
                        eng.report("checkpoint-read", ins, "reads two rows in one round", st, key="twice")
                        return False
                    self.mark(st, t, "row")
                    self.mark(st, ladd(t, {"": -1}), "row-")
        return None


SPEC_IO = r"""
root safe_write
root safe_read
root checked_write
"""


class IoMon(Facts):
    """the loops around read() and write(): each call continues where the last one stopped.
    What is transferred so far is one unknown S; every loop variable is S times 0, 1 or -1
    plus its starting value, which a first pass finds out and the next one verifies."""
    pure = (r".*",)
    width = 4
    aborts = False
    steps = False

    def __init__(self, what):
        self.what = what
        self.coef = {}
        self.again = self.learn = False

    def init(self, eng, st):
        if len(eng.argt) != 3:
            raise LookupError("%s has an unexpected signature" % self.what)
        self.fd, self.buf, self.n = eng.argt
        return frozenset({("acc", C(0, 64))})

    def bad(self, eng, *a, **kw):
        if not self.learn:
            eng.report(*a, **kw)

    def heads(self, eng):
        from passes import loops
        if getattr(self, "_fn", None) is not eng.fn:
            self._fn = eng.fn
            self._lp = loops(eng.fn)
        return self._lp

    def S(self, to):
        return mk("sym", ("io", to), 0, "v")

    def edge(self, eng, st, frm, to, new):
        self._new = {}
        body = self.heads(eng).get(to)
        self._head = body is not None
        if body is None:
            return
        A = self.get(st, "acc")[1]
        S = self.S(to)
        if frm in body:
            z = self.get(st, "S", to)
            if z is None:
                return
            old = z[2]
        else:
            for y, t in new:
                c = self.coef.get((to, y.i), 0)
                self.add(st, "ent", to, y.i, t)
                self._new[y.i] = self.val(t, c, S, A)
        if frm in body:
            dA = ladd(lin(A), lin(old), -1)
            for y, t in new:
                z = self.get(st, "ent", to, y.i)
                c = self.coef.get((to, y.i), 0)
                if z is None:
                    continue
                h = self.val(z[3], c, old, None)
                d = ladd(lin(t), lin(h), -1)
                for k in (0, 1, -1):
                    if const(ladd(d, {x: k * v for x, v in dA.items()}, -1)) == 0:
                        break
                else:
                    k = None
                if self.learn and k and (to, y.i) not in self.coef:
                    self.coef[(to, y.i)] = k
                    self.again = True
                elif not self.learn and k != c and not (const(dA) == 0 and k == 0):
                    continue            # unknown
                self._new[y.i] = self.val(z[3], c, S, None)
            if old is S:    # what is known so far is of the last round's S
                eng.subst(st, {S: eng.fresh(st, ("io", to, "old"), "v")})
        self.put(st, "acc", S)
        st.mon = frozenset(z for z in st.mon if z[:2] != ("S", to)) | {("S", to, S)}
        self.drop(st, "x", "xs")

    def val(self, t0, c, S, A):
        if not c:
            return t0
        if t0.k in ("c",):
            r = binop("add", 64, t0, S) if c == 1 else binop("sub", 64, t0, S)
            return r
        if c == 1 and (t0.k in ("ptr", "idx", "al") or t0 is self.buf):
            return idxp(t0, S, 1)
        return binop("add" if c == 1 else "sub", 64, t0, S)

    def phi(self, eng, st, ins, t):
        return self._new.get(ins.i) if self._head else t

    def assume(self, eng, st, c, val):
        z = self.get(st, "x")
        if z and c.k == "eq" and z[1] in c.a[1:]:
            o = c.a[1] if c.a[2] is z[1] else c.a[2]
            if isc(o) and u(o.a[0], 64) == (1 << 64) - 1 and not val:
                self.put(st, "xs", "ok")
            if isc(o) and u(o.a[0], 64) == (1 << 64) - 1 and val:
                self.settle(st, False)
        if z and c.k == "slt":
            if c.a[1] is z[1] and isc(c.a[2]) and c.a[2].a[0] in (0, 1):
                self.settle(st, None if val else True) if not val else self.settle(st, False if c.a[2].a[0] == 0 else None)
            elif c.a[2] is z[1] and isc(c.a[1]) and sx(u(c.a[1].a[0], 64), 64) in (0, -1):
                self.settle(st, True if val else (False if sx(u(c.a[1].a[0], 64), 64) == -1 else None))
        y = self.get(st, "xs")
        if y and y[1] == "ok" and z:
            self.settle(st, True)
        return None

    def settle(self, st, ok):
        """the last call transferred x bytes (ok), or none"""
        z = self.get(st, "x")
        if z is None or ok is None:
            return
        A = self.get(st, "acc")[1]
        if ok:
            self.put(st, "acc", binop("add", 64, A, z[1]))
        self.drop(st, "x", "xs")

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            q, a, v = kw["q"], kw["args"], kw["val"]
            if q in ("read", "write", "__read_alias"):
                eng.count("system calls", ins)
                A = self.get(st, "acc")[1]
                if self.get(st, "x"):
                    self.bad(eng, "io-loop", ins, "goes on without looking at what the last call transferred", st, key="look")
                if q != self.what or a[0] is not self.fd:
                    self.bad(eng, "io-loop", ins, "transfers to or from another file", st, key="fd")
                if const(ladd(ladd(lin(a[1]), lin(self.buf), -1), lin(A), -1)) != 0:
                    self.bad(eng, "io-loop", ins, "does not continue where the last call stopped", st, key="place")
                if const(ladd(ladd(lin(a[2]), lin(self.n), -1), lin(A))) != 0:
                    self.bad(eng, "io-loop", ins, "transfers another number of bytes than are left", st, key="left")
                self.put(st, "x", v)
        elif kind == "ret":
            eng.count("results", ins)
            v = kw["val"]
            A = self.get(st, "acc")[1]
            if isc(v) and u(v.a[0], 64) == (1 << 64) - 1:
                return None
            if v is None or const(ladd(lin(v), lin(A), -1)) != 0:
                self.bad(eng, "io-loop", ins, "does not return how much was transferred", st, key="ret")
        return None


class CheckedMon(Facts):
    """checked_write returns only if everything was written"""
    pure = (r".*",)
    width = 4

    def init(self, eng, st):
        if len(eng.argt) != 3:
            raise LookupError("checked_write has an unexpected signature")
        return frozenset()

    def assume(self, eng, st, c, val):
        z = self.get(st, "w")
        if z and c.k == "eq" and z[1] in c.a[1:] and eng.argt[2] in c.a[1:]:
            self.put(st, "ok", val)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call" and kw["q"] in ("safe_write", "write"):
            eng.count("writes", ins)
            if tuple(kw["args"]) == tuple(eng.argt) and kw["q"] == "safe_write":
                self.put(st, "w", kw["val"])
            else:
                eng.report("io-loop", ins, "writes something else than it is given", st, key="args")
        elif kind == "ret":
            if not (z := self.get(st, "ok")) or not z[1]:
                eng.report("io-loop", ins, "returns although not everything may be written", st, key="checked")
        return None


def io(tier):
    import build
    import ir
    import engine
    prog = ir.Program(build.export("io", ["file.cc", "mtd.cc"], SPEC_IO + "keep safe_write\n"))
    out = {"findings": [], "counts": {}, "blocks": 0, "steps": 0}
    seen = set()
    for k, f in enumerate(prog.raw):
        q = f["q"]
        if q not in ("safe_write", "safe_read", "checked_write") or q in seen:
            continue
        fn = prog.fn(k)
        if q == "checked_write" and len(f.get("args", f.get("params", (0, 0, 0)))) != 3:
            continue
        seen.add(q)
        if q == "checked_write":
            m = CheckedMon()
            e = engine.Engine(fn, m, width=8, maxtime=100)
            e.run()
        else:
            m = IoMon(q[5:])
            m.learn = True
            for i in range(6):
                m.again = False
                e = engine.Engine(fn, m, width=8, maxtime=100)
                e.run()
                if not m.learn:
                    break
                m.learn = m.again
        out["findings"] += findings(e, fn)
        out["steps"] += e.steps
        out["blocks"] += len(fn.blocks)
        for c, s in e.counts.items():
            out["counts"].setdefault(c, set()).update("%s:%s" % (q, y) for y in s)
    if "safe_write" not in seen or "checked_write" not in seen:
        raise LookupError("safe_write or checked_write not found")
    out["counts"] = {c: sorted(s) for c, s in out["counts"].items()}
    return out


def filenames(tier):
    """a part and the commit record are read back under the names they were written to"""
    import build
    import ir
    import engine
    prog = ir.Program(build.export("ckptfile", TUS, SPEC_FILE))
    out = {"findings": [], "counts": {"file names": []}, "blocks": 0, "steps": 0}
    got = {}
    fns = {}
    for k, f in enumerate(prog.raw):
        m = {"conc_filecheckpoint": PartMon, "recovercheckpoint": RecoverMon, "commit_checkpoint": CommitMon}.get(f["q"])
        if not m:
            continue
        fn = prog.fn(k)
        e = engine.Engine(fn, m(), width=8, maxtime=60)
        e.run()
        got.setdefault(f["q"], set()).update(getattr(e, "names", ()))
        fns[f["q"]] = fn
        out["steps"] += e.steps
    if len(got) != 3:
        raise LookupError("checkpoint functions not found")
    w = {x for x in got["conc_filecheckpoint"] if isinstance(x, str)}
    for q, what in (("recovercheckpoint", "looks for a part"), ("commit_checkpoint", "deletes old parts")):
        for x in got[q]:
            if isinstance(x, str):
                out["counts"]["file names"].append("%s %s" % (q, x))
                if w and x not in w:
                    out["findings"].append(finding(fns[q], None, "checkpoint-name", "%s under the name '%s', they are written to '%s'" % (what, x, ", ".join(sorted(w))), key="agree"))
    rec = ir.Program(build.export("ckptgen", ["mtd.cc"], "root recover\nkeep lcdf::.*\nkeep std::.*\nkeep msgpack::.*\n"))
    fm = set()

    def texts(x):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == "g" and isinstance(x[2], str):
                fm.add(x[2])
            for y in x:
                texts(y)
    for f in rec.raw:
        if f["q"] == "recover":
            for bl in f["blocks"]:
                for x in bl:
                    if x["o"] == "call" and (x.get("q") or "").split("::")[-1] in ("sprintf", "snprintf"):
                        texts(x.get("a", []))
    for x in got["commit_checkpoint"]:
        if isinstance(x, tuple):
            out["counts"]["file names"].append("commit_checkpoint %s" % x[1])
            if fm and x[1] not in fm:
                out["findings"].append(finding(fns["commit_checkpoint"], None, "checkpoint-name", "commits to '%s', where recovery does not look" % x[1], key="gen"))
    if not fm:
        raise LookupError("the names recovery looks for were not found")
    return out
