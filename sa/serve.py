"""Rules over the server: executing one request, and the TCP and UDP service loops."""
from engine import *
from readers import field
from bounds import lin, ladd, const

TUS = ["mtd.cc"]
SPEC_ONEGO = r"""
root onego
keep lcdf::(Json\w*|String|StringAccum)::.*
keep query::.*
keep loginfo::.*
keep msgpack::.*
erase threadinfo::mark
"""
JSON = 16       # sizeof(Json), checked in init


class Facts(Monitor):
    def get(self, st, k, *pre):
        for z in st.mon:
            if z[0] == k and z[1:1 + len(pre)] == pre:
                return z
        return None

    def put(self, st, *z):
        st.mon = frozenset(y for y in st.mon if y[0] != z[0]) | {z}

    def add(self, st, *z):
        st.mon = st.mon | {z}

    def drop(self, st, *ks):
        st.mon = frozenset(y for y in st.mon if y[0] not in ks)


OPS = {"run_get": "Cmd_Get", "run_put": "Cmd_Put", "run_replace": "Cmd_Replace", "run_remove": "Cmd_Remove", "run_scan": "Cmd_Scan"}


class OneGoMon(Facts):
    """mode log: every effective write is recorded exactly once, with its own key, value,
    times and command; mode proto: the reply matches the command and the operation"""
    pure = (r"lcdf::.*", r"query::.*", r"loginfo::.*", r"msgpack::.*")
    width = 12

    def __init__(self, mode="log"):
        self.mode = mode

    def init(self, eng, st):
        pr = eng.fn.prog
        A = eng.argt
        if len(A) != 5:
            raise LookupError("onego has an unexpected signature")
        self.q, self.req, self.rs, self.rl, self.ti = A
        self.cmd = {k: pr.enum(k) for k in list(OPS.values()) + ["Cmd_Checkpoint", "logcmd_put", "logcmd_replace", "logcmd_remove"]}
        if None in self.cmd.values():
            raise LookupError("command codes not found")
        self.lg = field(pr, "threadinfo", "logger_")
        if self.lg is None:
            raise LookupError("threadinfo::logger_ not found")
        self.js = pr.structs.get("lcdf::Json", {}).get("size", JSON)
        return frozenset()

    def bad(self, eng, mode, rule, ins, msg, st):
        if mode != self.mode:
            return None
        eng.report(rule, ins, msg, st)
        return False

    # -- provenance of values taken from the request --
    def slot(self, st, t):
        """index n if t designates request[n]"""
        if t.k in ("al", "ptr"):
            c = st.cells.get(baseoff(t))
            if c is not None:
                t2 = c[0]
                while t2.k in ("xv", "ev"):
                    t2 = t2.a[0]
                z = self.get(st, "at", t2)
                if z:
                    return z[2]
        b, o = baseoff(t)
        z = self.get(st, "at", b)
        if z and o == 0:
            return z[2]
        z = self.get(st, "arr", b)
        if z and o % self.js == 0:
            return o // self.js
        return None

    def string(self, st, t):
        """(slot, owned) if t is the address of a string holding request[slot]"""
        z = self.get(st, "str", t)
        if z:
            return z[2], z[3]
        n = self.slot(st, t)
        return (n, False) if n is not None else None

    def origin(self, st, t):
        z = self.get(st, "d", t)
        return z[2:] if z else None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "call":
            return self.call(eng, st, ins, **kw)
        if kind == "ret":
            return self.ret(eng, st, ins, kw["val"])
        return None

    def overwrite(self, st, n, resize=False):
        """request[n] (n.. when resizing) changes: unowned strings taken from it dangle"""
        out = set()
        for z in st.mon:
            if z[0] in ("d", "l", "str") and not z[-1] and z[2].__class__ is int and (z[2] == n or resize and z[2] >= n):
                out.add((z[0], z[1], ("gone", z[2]), z[3]))
            else:
                out.add(z)
        st.mon = frozenset(out)

    def call(self, eng, st, ins, q, args, val):
        k = q.split("::")[-1]
        cls = q.split("::")[-2] if "::" in q else ""
        if k in ("operator[]", "get", "get_insert", "at_insert") and args and args[0] is self.req and len(args) > 1 and isc(args[-1]) and val is not None:
            self.add(st, "at", val, args[-1].a[0])
        elif k == "array_data" and args[0] is self.req:
            self.add(st, "arr", val)
        elif k == "end_array_data" and args[0] is self.req:
            self.put(st, "arrend", val)
        elif k in ("as_s", "to_s") and val is not None:
            n = self.slot(st, args[0])
            if n is not None:
                self.add(st, "str", val, n, False)
        elif k in ("as_s", "to_s") and len(args) == 2:
            n = self.slot(st, args[1])
            if n is not None:
                self.add(st, "str", args[0], n, True)
        elif k == "as_i":
            n = self.slot(st, args[0])
            if n == 1 and not self.get(st, "val", 1):
                self.add(st, "cmd", cast("trunc", val, 64, 32))
        elif cls == "String" and k == "String" and len(args) == 2:
            s = self.string(st, args[1])
            if s:
                self.add(st, "str", args[0], s[0], True)
        elif k in ("data", "length", "begin", "end") and cls in ("String", "String_base") and val is not None:
            s = self.string(st, args[0])
            if s and k in ("data", "begin"):
                self.add(st, "d", val, s[0], s[1])
            elif s and k == "length":
                self.add(st, "l", val, s[0], s[1])
        elif k == "Json" and cls == "Json" and len(args) == 2:
            self.add(st, "json", args[0], args[1])
        elif k == "operator=" and cls in ("Json", "Json_array_proxy", "Json_proxy_base"):
            n = self.slot(st, args[0])
            if n is not None:
                j = self.get(st, "json", args[1])
                st.mon = frozenset(z for z in st.mon if not (z[0] == "val" and z[1] == n))
                self.add(st, "val", n, j[2] if j else (args[1] if not (args[1].k == "al") else None) or TRUE)
                self.overwrite(st, n)
        elif k == "resize" and args[0] is self.req:
            if isc(args[1]):
                self.put(st, "size", args[1].a[0])
                self.overwrite(st, args[1].a[0], True)
        elif cls == "query" and k in OPS:
            return self.op(eng, st, ins, k, args, val)
        elif cls == "query" and k == "query_times":
            self.add(st, "qt", val, args[0])
        elif q == "msgpack::parser::parser":
            self.put(st, "mp", args[0], -1, args[1])
            self.add(st, "mpv", args[0])
        elif q in ("msgpack::parser::skip_array_size", "msgpack::parser::skip_primitives", "msgpack::parser::skip_primitive") and self.get(st, "mpv", args[0]):
            m = self.get(st, "mp")
            n = m[2]
            if q.endswith("size"):
                n = 0 if n == -1 else None
            elif n is not None:
                c = args[1] if len(args) > 1 else C(1)
                n = n + c.a[0] if isc(c) and n >= 0 else None
            self.put(st, "mp", m[1], n, m[3])
            if val is not None:
                self.add(st, "mpv", val)
        elif q == "msgpack::parser::position" and self.get(st, "mpv", args[0]):
            m = self.get(st, "mp")
            if m[3] is self.rs and m[2] is not None:
                self.add(st, "pos", val, m[2])
        elif q == "loginfo::record":
            return self.record(eng, st, ins, args)
        return None

    def cmdis(self, eng, st, code):
        """the request's command is known to be code (it may have been read several times)"""
        return any(z[0] == "cmd" and eng.truth(st, cmp_("eq", 32, z[1], C(self.cmd[code], 32))) is True for z in st.mon)

    def op(self, eng, st, ins, k, args, val):
        eng.count("requests executed", ins)
        if self.get(st, "op"):
            return self.bad(eng, "proto", "executed-twice", ins, "executes a second operation for one request", st)
        if not self.cmdis(eng, st, OPS[k]):
            return self.bad(eng, "proto", "wrong-operation", ins, "runs %s although the request's command is not %s" % (k, OPS[k]), st)
        if args[0] is not self.q:
            return self.bad(eng, "proto", "foreign-query", ins, "runs the operation on another query object", st)
        key = None
        if k in ("run_put", "run_replace", "run_remove"):
            if self.origin(st, args[2]) is None or self.get(st, "l", args[3]) is None or self.origin(st, args[2])[0] != 2:
                return self.bad(eng, "proto", "wrong-key", ins, "runs the operation with a key that is not the request's", st)
        elif self.req not in args:
            return self.bad(eng, "proto", "foreign-request", ins, "runs the operation on another request", st)
        self.put(st, "op", k, val if val is not None else TRUE)
        if k == "run_put":
            self.put(st, "vals", args[4], args[5])
        elif k == "run_replace":
            self.put(st, "vals", args[4], args[5])
            o = self.origin(st, args[4])
            if o is None or o[0] != 3:
                return self.bad(eng, "proto", "wrong-value", ins, "replaces the row by something else than the request's value", st)
        return None

    def strcells(self, st, a):
        x, y = st.cells.get(baseoff(a)), st.cells.get(baseoff(ptr(a, 8)))
        return (x[0] if x else None), (y[0] if y else None)

    def record(self, eng, st, ins, args):
        eng.count("log records requested", ins)
        op = self.get(st, "op")
        if op is None:
            return self.bad(eng, "log", "record-without-operation", ins, "logs a write that was not executed", st)
        if self.get(st, "rec"):
            return self.bad(eng, "log", "recorded-twice", ins, "logs one write twice", st)
        k = op[1]
        want = {"run_put": "logcmd_put", "run_replace": "logcmd_replace", "run_remove": "logcmd_remove"}.get(k)
        if want is None or eng.truth(st, cmp_("eq", 32, args[1], C(self.cmd[want], 32))) is not True:
            return self.bad(eng, "log", "record-command", ins, "logs the write of %s under another command" % k, st)
        if k == "run_remove" and eng.truth(st, op[2]) is not True:
            return self.bad(eng, "log", "record-of-nothing", ins, "logs a removal that did not happen", st)
        z = self.get(st, "qt", args[2])
        if z is None or z[2] is not self.q:
            return self.bad(eng, "log", "record-times", ins, "logs the write with other times than those its execution produced", st)
        o = self.origin(st, args[3])
        if o and o[0].__class__ is tuple:
            return self.bad(eng, "log", "record-dangling-key", ins, "logs a key whose string was released when the reply overwrote it in the request", st)
        l = self.get(st, "l", args[4])
        if o is None or o[0] != 2 or l is None or l[2] != 2:
            return self.bad(eng, "log", "record-key", ins, "logs the write under another key than the request's", st)
        vals = self.get(st, "vals")
        if len(args) == 7:
            ok = k == "run_put" and args[5] is vals[1] and args[6] is vals[2]
        else:
            p, n = self.strcells(st, args[5])
            if p is None or n is None:
                ok = False
            elif k == "run_remove":
                ok = isc(n) and n.a[0] == 0
            elif k == "run_replace":
                if (self.origin(st, p) or (0,))[0].__class__ is tuple:
                    return self.bad(eng, "log", "record-dangling-value", ins, "logs a value whose string was released when the reply overwrote it in the request", st)
                ok = p is vals[1] and n is vals[2]
            else:
                z = self.get(st, "pos", p)
                # everything from the position behind the key to the end of the request
                first = self.first(st, vals[1])
                ok = z is not None and first is not None and z[2] == first and \
                    const(ladd(lin(n), ladd(ladd(lin(self.rs), lin(self.rl)), lin(p), -1), -1)) == 0
        if not ok:
            return self.bad(eng, "log", "record-value", ins, "logs another value than the one written", st)
        self.put(st, "rec")
        return None

    def first(self, st, t):
        b, o = baseoff(t)
        return o // self.js if self.get(st, "arr", b) and o % self.js == 0 else None

    def ret(self, eng, st, ins, val):
        eng.count("exits", ins)
        op = self.get(st, "op")
        if op and op[1] in ("run_put", "run_replace", "run_remove") and not self.get(st, "rec"):
            # fine only when there is no log, or nothing was removed
            if not self.get(st, "nolog") and not self.get(st, "noop"):
                self.bad(eng, "log", "write-not-logged", ins, "acknowledges a write that was not logged although the thread has a log", st)
        neg = eng.truth(st, cmp_("slt", 32, val, FALSE))
        v1 = None
        for z in st.mon:
            if z[0] == "val" and z[1] == 1:
                v1 = z[2]
        if neg is False:
            if v1 is None or not any(z[0] == "cmd" and const(ladd(lin(v1), lin(z[1]), -1)) == 1 for z in st.mon):
                self.bad(eng, "proto", "reply-code", ins, "answers a request with something else than its command plus one", st)
                return None
            if op is None and not self.cmdis(eng, st, "Cmd_Checkpoint"):
                self.bad(eng, "proto", "not-executed", ins, "acknowledges a request that was not executed", st)
            if op and op[1] in ("run_put", "run_replace", "run_remove"):
                r = [z[2] for z in st.mon if z[0] == "val" and z[1] == 2]
                if not r or strip(r[0]) is not strip(op[2]) and eng.truth(st, cmp_("eq", 32, r[0], op[2])) is not True:
                    self.bad(eng, "proto", "reply-result", ins, "answers a write with something else than its result", st)
                s = self.get(st, "size")
                if s is None or s[1] != 3:
                    self.bad(eng, "proto", "reply-size", ins, "answers a write with request fields left in the reply", st)
        else:
            if op:
                self.bad(eng, "proto", "failed-after-execution", ins, "reports failure for a request it executed", st)
            if v1 is None or not isc(v1) or v1.a[0] >= 0:
                self.bad(eng, "proto", "reply-code", ins, "refuses a request without an error code in the reply", st)
        return None

    def assume(self, eng, st, c, val):
        if c.k == "eq" and isc(c.a[2]) and c.a[2].a[0] == 0:
            o = st.org.get(c.a[1])
            if val and o is not None and baseoff(o) == (self.ti, self.lg):
                self.put(st, "nolog")
        op = self.get(st, "op")
        if op and op[1] == "run_remove" and not val and strip(c) is strip(op[2]):
            self.put(st, "noop")
        return None

    def gmon(self, m):
        return frozenset(z if z[0] == "op" else z[:1] for z in m if z[0] in ("op", "rec", "val", "size", "nolog", "noop"))

    def joinmon(self, a, b):
        return a & b


def strip(t):
    while t.k in ("zext", "sext", "trunc"):
        t = t.a[0]
    return t


SPEC_SERVE = r"""
root (tcp|udp)_threadfunc
keep lcdf::(Json\w*|String|StringAccum)::.*
keep query::.*
keep msgpack::.*
keep std::.*
keep tcpfds::.*
keep conn::.*
keep kv\w+
keep onego
keep handshake
keep prepare_thread
keep threadinfo::rcu_.*
"""


class ServeMon(Facts):
    """mode reply: one execution and one reply per request, sent before the thread sleeps;
    mode rcu: requests run and replies are built inside a balanced RCU section;
    mode input: only received, complete requests are executed; closed connections are dead"""
    pure = (r"lcdf::.*", r"query::.*", r"msgpack::.*", r"std::.*", r"tcpfds::.*", r"conn::.*", r"kv\w+", r"onego", r"handshake", r"prepare_thread", r"threadinfo::.*")
    width = 12

    def __init__(self, mode="reply"):
        self.mode = mode

    bad = OneGoMon.bad

    def init(self, eng, st):
        return frozenset()

    def conn(self, st, t):
        """the connection a value (its kvout, fd, ...) was loaded from"""
        o = st.org.get(t)
        return rootof(o) if o is not None else None

    def alive(self, eng, st, ins, t):
        if self.get(st, "dead", rootof(t)):
            return self.bad(eng, "input", "use-after-close", ins, "uses a connection that was closed and freed", st)
        return None

    def event(self, eng, st, ins, kind, **kw):
        if kind == "load" or kind == "store":
            return self.alive(eng, st, ins, kw["addr"])
        if kind == "call":
            return self.call(eng, st, ins, **kw)
        return None

    def sleep(self, eng, st, ins):
        eng.count("waits for input", ins)
        if self.get(st, "rcu"):
            return self.bad(eng, "rcu", "sleeps-in-rcu", ins, "waits for input inside an RCU section: nothing can be reclaimed meanwhile", st)
        for z in st.mon:
            if z[0] == "owed":
                return self.bad(eng, "reply", "reply-not-sent", ins, "waits for input while a reply is still unsent", st)
        if self.unanswered(eng, st):
            return self.bad(eng, "reply", "reply-lost", ins, "waits for the next request although the last one was executed and not answered", st)
        return None

    def unanswered(self, eng, st):
        d = self.get(st, "done")
        return d is not None and eng.truth(st, cmp_("slt", 32, d[2], FALSE)) is not True

    def call(self, eng, st, ins, q, args, val):
        for a in args:
            if a.k in ("sym", "ptr") and q not in ("operator delete",) and self.alive(eng, st, ins, a) is False:
                return False
        k = q.split("::")[-1]
        if q == "threadinfo::rcu_start":
            eng.count("RCU sections", ins)
            if self.get(st, "rcu"):
                return self.bad(eng, "rcu", "rcu-nested", ins, "starts an RCU section inside another", st)
            self.put(st, "rcu")
        elif q == "threadinfo::rcu_stop":
            if not self.get(st, "rcu"):
                return self.bad(eng, "rcu", "rcu-unbalanced", ins, "ends an RCU section that was not started", st)
            self.drop(st, "rcu")
            if self.unanswered(eng, st):
                return self.bad(eng, "rcu", "reply-outside-rcu", ins, "ends the RCU section before the reply, which refers to row memory, is built", st)
        elif q in ("tcpfds::wait", "epoll_wait", "select"):
            st.mon = frozenset(z for z in st.mon if z[0] not in ("dead",))
            return self.sleep(eng, st, ins)
        elif q == "recvfrom":
            r = self.sleep(eng, st, ins)
            st.mon = frozenset(z for z in st.mon if z[0] in ("rcu", "owed", "buf"))
            self.put(st, "recv", args[1], val, args[4])
            return r
        elif q == "conn::xposition":
            self.put(st, "xpos", args[0], val)
        elif q == "conn::receive":
            r = None
            if self.get(st, "rcu"):
                r = self.bad(eng, "rcu", "sleeps-in-rcu", ins, "waits for input inside an RCU section: nothing can be reclaimed meanwhile", st)
            if self.unanswered(eng, st):
                r = self.bad(eng, "reply", "reply-lost", ins, "reads the next request although the last one was executed and not answered", st)
            st.mon = frozenset(z for z in st.mon if z[0] in ("rcu", "dead", "xpos") or z[0] == "owed" and z[1] is not args[0])
            x = self.get(st, "xpos")
            self.put(st, "req", val, args[0], x[2] if x and x[1] is args[0] else NULL)
            self.drop(st, "xpos")
            return r
        elif k == "operator!" and val is not None:
            self.put(st, "test", val, args[0])
        elif q == "conn::recent_string":
            r = self.get(st, "req")
            if r is None or r[2] is not args[0] or r[3] is not args[1]:
                return self.bad(eng, "input", "request-bytes", ins, "takes as the request's bytes something else than what was read since before the request", st)
        elif q == "msgpack::streaming_parser::reset":
            self.drop(st, "success", "isa")
            self.put(st, "clean", args[0])
        elif q == "msgpack::streaming_parser::consume":
            eng.count("requests parsed", ins)
            if not self.get(st, "clean", args[0]):
                return self.bad(eng, "input", "stale-parser", ins, "parses a request on top of what is left of the previous one", st)
            v = self.get(st, "recv")
            if v is not None:
                n = const(ladd(lin(args[2]), lin(v[2]), -1))
                if n is None or n > 0:
                    return self.bad(eng, "input", "unreceived-bytes", ins, "parses bytes behind the end of the received request", st)
            self.put(st, "consumed", val)
        elif q == "msgpack::streaming_parser::success":
            self.put(st, "success", args[0], val)
        elif q == "msgpack::streaming_parser::result":
            z = self.get(st, "res")
            if z and z[1] is args[0]:
                if val is not z[2] and val.k == "sym" and val not in z[2].syms:
                    eng.subst(st, {val: z[2]})
            else:
                self.put(st, "res", args[0], val)
        elif q == "lcdf::Json::is_a":
            self.put(st, "isa", args[0], val)
        elif q == "onego":
            return self.execute(eng, st, ins, args, val)
        elif q in ("msgpack::unparse", "msgpack::unparser::operator<<"):
            d = self.get(st, "done")
            if d and args[1] is d[1]:
                eng.count("replies built", ins)
                if not self.get(st, "rcu"):
                    r = self.bad(eng, "rcu", "reply-outside-rcu", ins, "builds the reply, which refers to row memory, outside the RCU section", st)
                    if r is False:
                        return r
                self.drop(st, "done")
                self.put(st, "replied", d[1])
            elif self.get(st, "replied", args[1]):
                return self.bad(eng, "reply", "answered-twice", ins, "answers a request twice", st)
            c = self.conn(st, args[0])
            if c is not None and q == "msgpack::unparse":
                r = self.get(st, "req")
                if r and args[1] is r[1] and c is not r[2]:
                    return self.bad(eng, "reply", "wrong-connection", ins, "sends the reply to another connection than the request's", st)
                self.add(st, "owed", c)
            elif q != "msgpack::unparse":
                self.put(st, "owed", args[0])
        elif q == "sendto":
            v = self.get(st, "recv")
            if v is None or args[4] is not v[3]:
                return self.bad(eng, "reply", "wrong-connection", ins, "sends the reply to another address than the request's", st)
            self.drop(st, "owed")
        elif k == "clear" and q.startswith("lcdf::Json") or k == "reset":
            d = self.get(st, "done")
            if d and args[0] is d[1] and self.unanswered(eng, st):
                return self.bad(eng, "reply", "reply-lost", ins, "discards the result of a request before answering it", st)
        elif q == "kvflush":
            c = self.conn(st, args[0])
            st.mon = frozenset(z for z in st.mon if not (z[0] == "owed" and z[1] is c))
        elif k in ("push_back", "emplace_back", "push_front") and len(args) > 1:
            c = st.cells.get(baseoff(args[1]))
            if c:
                st.mon = frozenset(z for z in st.mon if not (z[0] == "owed" and z[1] is c[0]))
                if self.alive(eng, st, ins, c[0]) is False:
                    return False
        elif q in ("lcdf::String::data", "lcdf::String::mutable_data") and args[0].k == "al":
            # the buffer is not reallocated
            z = self.get(st, "buf", args[0])
            if z is None:
                self.add(st, "buf", args[0], val)
            elif val is not z[2] and val.k == "sym" and val not in z[2].syms:
                eng.subst(st, {val: z[2]})
        elif q == "tcpfds::add":
            self.drop(st, "dead")
        elif q == "tcpfds::remove":
            c = self.conn(st, args[1])
            if c is not None:
                self.put(st, "removed", c)
        elif q == "conn::~conn":
            eng.count("connections closed", ins)
            if not self.get(st, "removed", args[0]):
                return self.bad(eng, "input", "freed-while-registered", ins, "frees a connection that is still registered for events", st)
            if any(z[0] == "owed" and z[1] is args[0] for z in st.mon):
                return self.bad(eng, "reply", "reply-not-sent", ins, "closes a connection while a reply to it is still unsent", st)
            d = self.get(st, "done")
            self.put(st, "dead", args[0])
            self.drop(st, "done", "req")
        return None

    def execute(self, eng, st, ins, args, val):
        eng.count("requests executed", ins)
        if not self.get(st, "rcu"):
            if self.bad(eng, "rcu", "executed-outside-rcu", ins, "executes a request outside an RCU section: rows it reads may be reclaimed", st) is False:
                return False
        r = args[1]
        if self.get(st, "done") or self.get(st, "replied"):
            return self.bad(eng, "reply", "executed-twice", ins, "executes a request twice", st)
        t, s, i = self.get(st, "test"), self.get(st, "success"), self.get(st, "isa")
        ok = t and t[2] is r and eng.truth(st, t[1]) is False
        ok = ok or s and i and i[1] is r and eng.truth(st, s[2]) is True and eng.truth(st, i[2]) is True
        self.put(st, "done", r, val)
        if not ok:
            if self.bad(eng, "input", "partial-request", ins, "executes a request that was not checked to be complete", st) is False:
                return False
        v = self.get(st, "recv")
        if v is not None:
            c = self.get(st, "consumed")
            if c is None or args[2] is not v[1] or strip(args[3]) is not strip(c[1]):
                return self.bad(eng, "input", "request-bytes", ins, "takes as the request's bytes something else than what was parsed", st)
        return None

    def gmon(self, m):
        return m

    def joinmon(self, a, b):
        return a & b
