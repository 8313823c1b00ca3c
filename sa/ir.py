"""Program model: loads the JSON the IR exporter (tool/irx) writes."""
import json


class Ins:
    __slots__ = ("o", "i", "d", "fn", "blk", "pos", "key")

    def __init__(self, d, fn, blk, pos):
        self.o = d["o"]
        self.i = d.get("i")
        self.d = d
        self.fn = fn
        self.blk = blk
        self.pos = pos
        self.key = (blk, pos)

    @property
    def loc(self):
        l = self.d.get("l")
        return self.fn.prog.locs[l] if l is not None else "?"

    def short(self):
        """innermost file:line function"""
        return self.loc.split(" < ")[0]


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d["name"]
        self.q = d["q"]
        self.dem = d["dem"]
        self.rt = d["rt"]
        self.file = d.get("file", "?")
        self.line = d.get("line", 0)
        self.args = d["args"]
        self.blocks = []
        for b, il in enumerate(d["blocks"]):
            self.blocks.append([Ins(x, self, b, k) for k, x in enumerate(il)])
        self.nins = sum(len(b) for b in self.blocks)
        self._succ()
        self._liveness()
        self._contents()
        self._scc()

    def _succ(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b, il in enumerate(self.blocks):
            t = il[-1]
            if t.o == "br":
                ss = t.d["s"]
            elif t.o == "switch":
                ss = [t.d["d"]] + [c[1] for c in t.d["cs"]]
            else:
                ss = []
            for s in ss:
                if s not in self.succ[b]:
                    self.succ[b].append(s)
                    self.pred[s].append(b)

    @staticmethod
    def refs(r, out):
        if isinstance(r, int):
            out.add(r)
        elif isinstance(r, list) and r and r[0] in ("ge", "ce"):
            for x in r[1:]:
                if isinstance(x, list):
                    Fn.refs(x, out)

    @staticmethod
    def uses(ins):
        out = set()
        d = ins.d
        for r in d.get("a", ()):
            Fn.refs(r, out)
        for s in d.get("st", ()):
            if s[0] == "x":
                Fn.refs(s[1], out)
        if "ind" in d:
            Fn.refs(d["ind"], out)
        return out

    def _liveness(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiout = [set() for _ in range(n)]  # live-out of pred because of phis
        for b, il in enumerate(self.blocks):
            for x in il:
                if x.o == "phi":
                    for r, p in x.d["ph"]:
                        s = set()
                        Fn.refs(r, s)
                        phiout[p] |= s
                else:
                    use[b] |= Fn.uses(x) - dfn[b]
                if x.i is not None:
                    dfn[b].add(x.i)
        self.livein = [set() for _ in range(n)]
        self.liveout = [set() for _ in range(n)]
        work = list(range(n))
        inw = set(work)
        while work:
            b = work.pop()
            inw.discard(b)
            lo = set(phiout[b])
            for s in self.succ[b]:
                lo |= self.livein[s]
            li = use[b] | (lo - dfn[b])
            self.liveout[b] = lo
            if li != self.livein[b]:
                self.livein[b] = li
                for p in self.pred[b]:
                    if p not in inw:
                        inw.add(p)
                        work.append(p)
        # values available at block entry: live-in plus the block's own phis
        self.entry = []
        for b, il in enumerate(self.blocks):
            ph = {x.i for x in il if x.o == "phi"}
            if ph:
                used = set(self.liveout[b])
                for x in il:
                    if x.o != "phi":
                        used |= Fn.uses(x)
                ph &= used
            self.entry.append(self.livein[b] | ph)

        # phis with literal operands (control flags): id -> literal values
        self.flags = {}
        for il in self.blocks:
            for x in il:
                if x.o != "phi":
                    break
                v = {0} if x.d["t"] == "ptr" else {0, 1}
                for r, p in x.d["ph"]:
                    if isinstance(r, list) and r[0] == "c":
                        v.add(r[1])
                self.flags[x.i] = v
        # literals a flag is tested against, along chains of phis
        for il in self.blocks:
            for x in il:
                r = k = None
                if x.o == "switch":
                    r, k = x.d["a"][0], [c for c, _ in x.d["cs"]]
                elif x.o == "icmp" and x.d["p"] in ("eq", "ne") and isinstance(x.d["a"][1], list) and x.d["a"][1][0] == "c":
                    r, k = x.d["a"][0], [x.d["a"][1][1]]
                if isinstance(r, int) and r in self.flags:
                    self.flags[r].update(k)
        changed = True
        while changed:
            changed = False
            for il in self.blocks:
                for x in il:
                    if x.o != "phi":
                        break
                    for r, p in x.d["ph"]:
                        if isinstance(r, int) and r in self.flags and self.flags[r] != self.flags[x.i]:
                            z = self.flags[r] | self.flags[x.i]
                            self.flags[r] |= z
                            self.flags[x.i] |= z
                            changed = True

    def _contents(self):
        """allocas whose contents may be read before being overwritten, per block"""
        src = {}        # pointer value -> alloca id
        full = {}
        size = {}
        always = set()
        refs = Fn.refs
        order = [x for il in self.blocks for x in il]
        for x in order:
            if x.o == "alloca":
                src[x.i] = x.i
                size[x.i] = x.d.get("asz") if x.d["a"][0][0:1] == ["c"] and x.d["a"][0][1] == 1 else None
                full[x.i] = x.i
        changed = True
        while changed:
            changed = False
            for x in order:
                if x.i in src:
                    continue
                if x.o in ("getelementptr", "bitcast", "addrspacecast") and isinstance(x.d["a"][0], int) and x.d["a"][0] in src:
                    src[x.i] = src[x.d["a"][0]]
                    changed = True
        for x in order:
            if x.o == "phi":
                s = set()
                for r, p in x.d["ph"]:
                    refs(r, s)
                always |= {src[r] for r in s if r in src}
            elif x.o in ("select", "ptrtoint", "ret", "insertvalue"):
                always |= {src[r] for r in Fn.uses(x) if r in src}
            elif x.o == "store":
                s = set()
                refs(x.d["a"][0], s)
                always |= {src[r] for r in s if r in src}
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        for b, il in enumerate(self.blocks):
            u, k = use[b], kill[b]
            for x in il:
                if x.o in ("getelementptr", "bitcast", "addrspacecast", "phi"):
                    continue
                if x.o == "alloca":
                    k.add(x.i)
                    continue
                us = {src[r] for r in Fn.uses(x) if r in src}
                if not us:
                    continue
                q = x.d.get("q") or ""
                if x.o == "call" and q.startswith("llvm.lifetime"):
                    k |= us - u
                    continue
                if x.o == "call" and q.startswith(("llvm.memcpy", "llvm.memset")) and len(x.d["a"]) > 2:
                    d, sr, ln = x.d["a"][:3]
                    if isinstance(d, int) and d in full and isinstance(ln, list) and ln[0] == "c" and size[d] is not None and ln[1] >= size[d]:
                        if not (isinstance(sr, int) and src.get(sr) == d):
                            if isinstance(sr, int) and sr in src and src[sr] not in k:
                                u.add(src[sr])
                            if d not in u:
                                k.add(d)
                            continue
                if x.o == "store" and isinstance(x.d["a"][1], int) and x.d["a"][1] in full and size[x.d["a"][1]] is not None and x.d["sz"] >= size[x.d["a"][1]]:
                    if x.d["a"][1] not in u:
                        k.add(x.d["a"][1])
                    continue
                if x.o == "store":
                    continue        # a partial overwrite reads nothing
                u |= us - k
        self.content = [set() for _ in range(n)]
        work = list(range(n))
        inw = set(work)
        while work:
            b = work.pop()
            inw.discard(b)
            lo = set()
            for s in self.succ[b]:
                lo |= self.content[s]
            li = use[b] | (lo - kill[b])
            if li != self.content[b]:
                self.content[b] = li
                for p in self.pred[b]:
                    if p not in inw:
                        inw.add(p)
                        work.append(p)
        for b in range(n):
            self.content[b] |= always
        self.nalloca = set(size)

    def _scc(self):
        """blocks inside a cycle, plus reverse postorder numbers"""
        n = len(self.blocks)
        idx = [0] * n
        low = [0] * n
        onst = [False] * n
        st = []
        self.scc = [-1] * n
        self.incycle = [False] * n
        cnt = [0]
        nscc = 0
        visited = [False] * n
        # iterative tarjan
        for root in range(n):
            if visited[root]:
                continue
            stack = [(root, iter(self.succ[root]))]
            visited[root] = True
            cnt[0] += 1
            idx[root] = low[root] = cnt[0]
            st.append(root)
            onst[root] = True
            while stack:
                v, it = stack[-1]
                adv = False
                for w in it:
                    if not visited[w]:
                        visited[w] = True
                        cnt[0] += 1
                        idx[w] = low[w] = cnt[0]
                        st.append(w)
                        onst[w] = True
                        stack.append((w, iter(self.succ[w])))
                        adv = True
                        break
                    elif onst[w]:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                stack.pop()
                if stack:
                    low[stack[-1][0]] = min(low[stack[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst[w] = False
                        comp.append(w)
                        self.scc[w] = nscc
                        if w == v:
                            break
                    nscc += 1
                    if len(comp) > 1 or comp[0] in self.succ[comp[0]]:
                        for w in comp:
                            self.incycle[w] = True
        # blocks from which every path ends in a call that does not return
        self.doomed = [True] * n
        work = [b for b in range(n) if self.blocks[b][-1].o == "ret" or self.incycle[b]]
        for b in work:
            self.doomed[b] = False
        while work:
            b = work.pop()
            for p in self.pred[b]:
                if self.doomed[p]:
                    self.doomed[p] = False
                    work.append(p)
        # rpo
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            v, it = stack[-1]
            adv = False
            for w in it:
                if not seen[w]:
                    seen[w] = True
                    stack.append((w, iter(self.succ[w])))
                    adv = True
                    break
            if not adv:
                stack.pop()
                order.append(v)
        order.reverse()
        self.rpo = [1 << 30] * n
        for k, b in enumerate(order):
            self.rpo[b] = k
        # where a cycle is entered again: every cycle has such a block
        self.head = [self.incycle[b] and any(self.rpo[p] >= self.rpo[b] for p in self.pred[b]) for b in range(n)]


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.locs = d["locs"]
        self.notes = d["notes"]
        self.enums = d["enums"]
        self.structs = d["structs"]
        self.members = d.get("members", {})
        self.raw = d["functions"]
        self._fns = {}

    def enum(self, name):
        """value of an enumerator, whatever its enclosing type is called"""
        for k, v in self.enums.items():
            if k == name or k.endswith("::" + name):
                return v
        return None

    def names(self):
        return [f["q"] for f in self.raw]

    def fn(self, k):
        if k not in self._fns:
            self._fns[k] = Fn(self, self.raw[k])
        return self._fns[k]

    def find(self, pred):
        return [self.fn(k) for k, f in enumerate(self.raw) if pred(f)]
