"""Fact base over the compiler's built MIR (dumped by /verif/driver) and basic queries."""
import json, os, re, sys
from functools import lru_cache

sys.setrecursionlimit(20000)

TOK = re.compile(r"\*|\.[A-Za-z_0-9#]+|@[A-Za-z_0-9#]+|\[[^\]]*\]")
_pc = {}


def place(s):
    """'5*.a@Some[7]' -> (5, ('*','.a','@Some','[7]'))"""
    r = _pc.get(s)
    if r is None:
        i = 0
        while i < len(s) and s[i].isdigit():
            i += 1
        r = (int(s[:i]), tuple(TOK.findall(s[i:])))
        _pc[s] = r
    return r


class Call:
    __slots__ = ("body", "bb", "fid", "res", "selfty", "targs", "args", "dest", "target", "unwind", "line", "mac", "op")

    def __init__(self, body, bb, t):
        self.body, self.bb = body, bb
        f = t[1]
        self.op = f
        if f[0] == "f":
            self.fid, self.res, self.selfty, self.targs = f[1], f[2], f[3], f[4]
        else:
            self.fid, self.res, self.selfty, self.targs = None, None, None, []
        self.args, self.dest, self.target, self.unwind, self.line, self.mac = t[2], t[3], t[4], t[5], t[6], t[7]

    @property
    def name(self):
        """best static name: the resolved impl when known, else the declared function"""
        if self.res and self.res != "dyn":
            return self.res
        return self.fid or "<indirect>"

    @property
    def where(self):
        return f"{self.body.relfile}:{self.line}"

    def self_type(self):
        return self.body.tys[self.selfty] if self.selfty is not None else None

    def type_args(self):
        return [self.body.tys[t] for t in self.targs]

    def __repr__(self):
        return f"<call {self.name} @{self.where} bb{self.bb}>"


class Body:
    def __init__(self, facts, crate, o):
        self.facts, self.crate = facts, crate
        self.tys = crate.tys
        self.id, self.kind, self.co, self.parent, self.root = o["id"], o["kind"], o["co"], o["parent"], o["root"]
        self.file = crate.files[o["file"]]
        self.lo, self.hi, self.tainted, self.argc, self.is_async, self.pub = o["lo"], o["hi"], o["tainted"], o["argc"], o["async"], o["pub"]
        self.locals = o["locals"]
        self.names = o["names"]
        self.blocks = o["blocks"]
        self._succ = self._pred = self._calls = self._defs = self._rets = None
        self._reach = None

    @property
    def relfile(self):
        return self.file.replace("/repo/", "", 1)

    def lty(self, i):
        return self.tys[self.locals[i]]

    def succs(self, b):
        if self._succ is None:
            self._mk()
        return self._succ[b]

    def preds(self, b):
        if self._succ is None:
            self._mk()
        return self._pred[b]

    def _mk(self):
        n = len(self.blocks)
        su, pr = [[] for _ in range(n)], [[] for _ in range(n)]
        for i, bl in enumerate(self.blocks):
            t = bl["t"]
            k = t[0]
            if k == "goto":
                o = [t[1]]
            elif k == "switch":
                o = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                o = [t[2]]
            elif k == "call":
                o = [t[4]] if t[4] is not None else []
            elif k == "assert":
                o = [t[4]]
            elif k == "yield":
                o = [t[1]]
            else:
                o = []
            seen = []
            for x in o:
                if x not in seen:
                    seen.append(x)
            su[i] = seen
        # prune unreachable (incl. otherwise-edges to `unreachable` blocks)
        for i in range(n):
            su[i] = [x for x in su[i] if self.blocks[x]["t"][0] != "unreachable" or self.blocks[x]["s"]]
        reach, st = set(), [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(su[b])
        for i in range(n):
            if i not in reach:
                su[i] = []
                continue
            for x in su[i]:
                pr[x].append(i)
        self._succ, self._pred, self._reach = su, pr, reach

    def reachable(self):
        if self._reach is None:
            self._mk()
        return self._reach

    def calls(self):
        if self._calls is None:
            r = self.reachable()
            self._calls = [Call(self, i, b["t"]) for i, b in enumerate(self.blocks) if i in r and b["t"][0] == "call"]
        return self._calls

    def call_at(self, bb):
        t = self.blocks[bb]["t"]
        return Call(self, bb, t) if t[0] == "call" else None

    def defs(self):
        """local -> list of (bb, idx, projs, kind, payload); idx==len(stmts) for a call destination"""
        if self._defs is None:
            d = {}
            r = self.reachable()
            for i, b in enumerate(self.blocks):
                if i not in r:
                    continue
                for j, s in enumerate(b["s"]):
                    if s[0] == "=":
                        l, p = place(s[1])
                        d.setdefault(l, []).append((i, j, p, "=", s[2]))
                t = b["t"]
                if t[0] == "call":
                    l, p = place(t[3])
                    d.setdefault(l, []).append((i, len(b["s"]), p, "call", t))
                elif t[0] == "yield":
                    pass
            self._defs = d
        return self._defs

    def ret_blocks(self):
        if self._rets is None:
            self._rets = [i for i in self.reachable() if self.blocks[i]["t"][0] == "ret"]
        return self._rets

    def name_of(self, l):
        return self.names.get(str(l), "")

    def __repr__(self):
        return f"<body {self.id}>"


class Crate:
    def __init__(self, facts, path):
        self.facts = facts
        o = json.load(open(path + ".json"))
        self.name, self.files, self.srcs, self.tys, self.items = o["crate"], o["files"], o["srcs"], o["tys"], o["items"]
        self.index = {}
        self.dups = {}
        for e in o["bodies"]:
            self.index.setdefault(e[0], e)
        self.blob = None
        self.path = path

    def load(self, e):
        if self.blob is None:
            with open(self.path + ".bodies", "rb") as f:
                self.blob = f.read()
        return json.loads(self.blob[e[1]: e[1] + e[2]])


class Facts:
    def __init__(self, d, crates=None):
        self.dir = d
        self.crates = {}
        names = sorted(f[:-5] for f in os.listdir(d) if f.endswith(".json"))
        for n in names:
            if crates is not None and n not in crates:
                continue
            self.crates[n] = Crate(self, os.path.join(d, n))
        self._b = {}
        self.impl_methods = {}   # trait method id -> [impl method ids]
        self.items = {}
        self.impls = []
        for c in self.crates.values():
            for it in c.items:
                it["crate"] = c.name
                if it["k"] == "impl":
                    self.impls.append(it)
                    if it["trait"]:
                        for m in it["items"]:
                            self.impl_methods.setdefault(it["trait"] + "::" + m.rsplit("::", 1)[1], []).append(m)
                else:
                    self.items.setdefault(it["id"], it)
        self._callers = None
        self._children = None

    def has(self, fid):
        c = self.crates.get(self.crate_of(fid))
        if c and fid in c.index:
            return True
        if fid.startswith("<") or fid.startswith("&") or fid.startswith("["):
            return any(fid in c.index for c in self.crates.values())
        return False

    @staticmethod
    def crate_of(fid):
        m = re.match(r"[<&\[(]*(?:mut |dyn )?([A-Za-z_0-9]+)", fid)
        return m.group(1) if m else ""

    def get(self, fid):
        b = self._b.get(fid, False)
        if b is not False:
            return b
        b = None
        c = self.crates.get(self.crate_of(fid))
        if c and fid in c.index:
            b = Body(self, c, c.load(c.index[fid]))
        else:
            for c in self.crates.values():
                if fid in c.index:
                    b = Body(self, c, c.load(c.index[fid]))
                    break
        self._b[fid] = b
        return b

    def ids(self, crate=None, file=None):
        for c in self.crates.values():
            if crate and c.name != crate:
                continue
            for k, e in c.index.items():
                if file and not re.search(file, c.files[e[3]]):
                    continue
                yield k

    def bodies(self, crate=None, pat=None, file=None):
        rx = re.compile(pat) if pat else None
        for k in list(self.ids(crate, file)):
            if rx is None or rx.search(k):
                b = self.get(k)
                if b is not None:
                    yield b

    def children(self, fid):
        """closures / async bodies nested (transitively) in fid"""
        if self._children is None:
            ch = {}
            for c in self.crates.values():
                for k in c.index:
                    if "::{closure#" in k or "::{coroutine" in k:
                        p = k.rsplit("::{", 1)[0]
                        ch.setdefault(p, []).append(k)
            self._children = ch
        out, st = [], [fid]
        while st:
            x = st.pop()
            for y in self._children.get(x, []):
                out.append(y)
                st.append(y)
        return out

    def family(self, fid):
        """fid and all closures within it, as bodies"""
        return [b for b in [self.get(fid)] + [self.get(x) for x in self.children(fid)] if b]

    @staticmethod
    def owner(fid):
        """strip closure suffixes"""
        return re.sub(r"(::\{[a-z_]+#\d+\})+$", "", fid)

    def targets(self, call):
        """possible workspace bodies a call may enter (ids)"""
        r = []
        if call.res and call.res != "dyn":
            if self.has(call.res):
                return [call.res]
            return []
        f = call.fid
        if f is None:
            return []
        if f == "core::future::future::Future::poll":
            return []        # the awaited future's own body is entered where it is created
        if f in self.impl_methods:
            r = [m for m in self.impl_methods[f] if self.has(m)]
            if self.has(f):
                r = r + [f]
            return r
        if self.has(f):
            return [f]
        return r

    def callers(self):
        """callee id (incl. trait ids, unresolved names) -> list of Call"""
        if self._callers is None:
            m = {}
            for c in self.crates.values():
                for k in c.index:
                    b = self.get(k)
                    for call in b.calls():
                        ts = set(self.targets(call))
                        ts.add(call.name)
                        for t in ts:
                            m.setdefault(t, []).append(call)
            self._callers = m
        return self._callers

    def closure_refs(self, body):
        """closure/coroutine ids created in a body"""
        out = []
        for bb in body.reachable():
            for s in body.blocks[bb]["s"]:
                if s[0] == "=" and s[2][0] == "agg":
                    k = s[2][1]
                    if k.startswith("closure:") or k.startswith("coroutine:"):
                        out.append(k.split(":", 1)[1])
        return out

    def fn_refs(self, body):
        """functions mentioned as values (passed as fn items)"""
        out = []

        def op(o):
            if o and o[0] == "f":
                out.append(o[2] if o[2] and o[2] != "dyn" else o[1])

        for bb in body.reachable():
            bl = body.blocks[bb]
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                for x in s[2]:
                    if isinstance(x, list):
                        if x and x[0] in ("f",):
                            op(x)
                        elif x and isinstance(x[0], list):
                            for y in x:
                                op(y)
            t = bl["t"]
            if t[0] == "call":
                for a in t[2]:
                    op(a)
        return out

    def reach(self, roots, stop=lambda fid: False, edge_filter=None):
        """ids reachable through calls, closures and fn refs; returns {id: (pred id, line)}"""
        seen = {}
        st = [(r, None, 0) for r in roots]
        while st:
            f, p, ln = st.pop()
            if f in seen:
                continue
            seen[f] = (p, ln)
            if stop(f):
                continue
            b = self.get(f)
            if b is None:
                continue
            for c in b.calls():
                if edge_filter and not edge_filter(c):
                    continue
                ts = self.targets(c)
                if not ts:
                    ts = [c.name]
                for t in ts:
                    st.append((t, f, c.line))
            for x in self.closure_refs(b):
                st.append((x, f, b.lo))
            for x in self.fn_refs(b):
                st.append((x, f, b.lo))
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            p, ln = seen[f]
            out.append((f, ln))
            f = p
        return list(reversed(out))


def op_place(o):
    return o[1] if o and o[0] in ("c", "m") else None
