"""Path conditions as DNF over normalised branch literals, and guarded return values.

rc(body, bb)        the condition (over terms) under which block bb executes
ret_cases(body)     [(condition, returned term)]
sites(body, pred)   interprocedural call sites: (call, argument terms, condition), in body's frame
Literals are (term, values, positive): the term's value is (not) among `values`.
Loops: back edges are ignored, so a condition inside a loop is the condition of one iteration.
"""
import re
from .terms import Terms, UNK, phi, walk, show, mk_ok, getf, at_use
from .core import place

TRUE = frozenset([frozenset()])
FALSE = frozenset()
CAP = 96

CMP = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


REPLACES = re.compile(r"(option::Option(?:<.*>)?::(?:replace|insert|take)|mem::(?:replace|take))$")


def konst(t):
    """python value of a constant term (int, bool, str) or None"""
    if t[0] == "k":
        txt = str(t[1])
        if txt == "true" or txt == "false":
            return txt == "true"
        v = t[3] if len(t) > 3 else None
        if v is not None and re.fullmatch(r"-?\d+", str(v)):
            return int(v)
        m = re.match(r"^(?:const )?(-?\d+)_[iu](?:8|16|32|64|128|size)$", txt)
        if m:
            return int(m.group(1))
        if txt.startswith('"'):
            return txt[1:-1]
        m = re.match(r"^(-?[\d.e+-]+)_?f(32|64)$", txt)
        if m:
            return float(m.group(1))
    if t[0] == "bin":
        a, b = konst(t[2]), konst(t[3])
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"Mul": lambda: a * b, "Add": lambda: a + b, "Sub": lambda: a - b, "Div": lambda: (a // b if isinstance(a, int) else a / b) if b else None,
                    "Shl": lambda: a << b, "Shr": lambda: a >> b, "Rem": lambda: a % b if b else None}.get(t[1], lambda: None)()
    if t[0] == "cast":
        v = konst(t[2])
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            m = re.match(r"^u(8|16|32|64|128|size)$", t[1])
            if m and isinstance(v, int):
                n = 64 if m.group(1) == "size" else int(m.group(1))
                return v % (1 << n)
            if t[1].startswith("i") and isinstance(v, int):
                return v
            if t[1].startswith("f"):
                return float(v)
    return None


def variant_index(t):
    if t[0] == "agg":
        n = t[1].rsplit("::", 1)[-1]
        if n in ("None", "Ok", "Continue", "Ready"):
            return "0"
        if n in ("Some", "Err", "Break", "Pending"):
            return "1"
    return None


class Cond:
    def __init__(self, facts, no_inline=None, ident=None, depth=4, spreads=False, **kw):
        self.spreads = spreads
        self.F = facts
        k = dict(no_inline=no_inline, **kw)
        if ident is not None:
            k["ident"] = ident
        self.T = Terms(facts, phi_inline=False, **k)
        self._rc = {}
        self._rcases = {}
        self._edge = {}
        self.depth = depth
        self.prog = set()
        self._splitblocks = []

    # ------------------------------------------------------------ literals
    def norm(self, term, vals, pos, depth=0):
        """-> DNF"""
        if depth > 12:
            return frozenset([frozenset([(term, frozenset(vals), pos)])])
        h = term[0]
        vs = frozenset(vals)
        isb = vs <= {"0", "1"}
        if h == "un" and term[1] == "Not" and isb:
            return self.norm(term[2], ["1" if v == "0" else "0" for v in vs], pos, depth + 1)
        kv = konst(term)
        if h == "k" and kv is not None and isinstance(kv, (int, bool)):
            return TRUE if (str(int(kv)) in vs) == pos else FALSE
        if h == "phi" and isb:
            # a bool phi without gating: keep opaque
            pass
        # truth value
        if isb and h in ("bin", "call", "cast", "fld", "param", "ok"):
            tv = None
            if vs == {"1"}:
                tv = pos
            elif vs == {"0"}:
                tv = not pos
            if tv is not None:
                r = self.norm_bool(term, tv, depth)
                if r is not None:
                    return r
                if h in ("bin", "call"):
                    return frozenset([frozenset([(term, frozenset(["1"]), tv)])])
        if h == "disc":
            x = term[1]
            if x[0] == "flip":
                if vs <= {"0", "1"}:
                    return self.norm(("disc", x[1]), ["1" if v == "0" else "0" for v in vs], pos, depth)
                return self.norm(("disc", x[1]), vs, pos, depth)
            if x[0] == "poll":
                return TRUE if ("0" in vs) == pos else FALSE     # the suspended future is polled again
            vi = variant_index(x)
            if vi is not None:
                return TRUE if (vi in vs) == pos else FALSE
            if x[0] == "call" and self.F.has(x[1]) and depth < self.depth:
                r = self.expand(x, lambda t: self.norm(("disc", t), vs, pos, depth + 1), need=lambda t: variant_index(t) is not None or t[0] in ("call",))
                if r is not None:
                    return r
            m = x[0] == "call" and re.search(r"::(map|cloned|copied|as_ref|as_deref|as_mut|inspect|map_err)$", x[1])
            if m and x[2]:
                return self.norm(("disc", x[2][0]), vs, pos, depth + 1)
            if x[0] == "call" and x[2] and isb and re.search(r"bool>?::then(_some)?$", x[1]):
                return self.norm(x[2][0], vs, pos, depth + 1)
            m = x[0] == "call" and re.search(r"option::Option(?:<.*>)?::filter$", x[1])
            if m and isb and len(vs) == 1 and len(x[2]) == 2:
                some = ("1" in vs) == pos
                r = self.by_closure(x[2][1], self.T.ok(x[2][0]), some)
                if r is not None:
                    h1 = self.norm(("disc", x[2][0]), ["1"], True, depth + 1)
                    return self.conj(h1, r) if some else self.disj(self.norm(("disc", x[2][0]), ["1"], False, depth + 1), self.conj(h1, r))
        return frozenset([frozenset([(term, vs, pos)])])

    def norm_bool(self, t, tv, depth):
        h = t[0]
        if h == "bin":
            op, a, b = t[1], t[2], t[3]
            if op == "Ne":
                return self.norm(("bin", "Eq", a, b), ["1"], not tv, depth + 1)
            if op == "Gt":
                return self.norm(("bin", "Lt", b, a), ["1"], tv, depth + 1)
            if op == "Ge":
                return self.norm(("bin", "Lt", a, b), ["1"], not tv, depth + 1)
            if op == "Le":
                return self.norm(("bin", "Lt", b, a), ["1"], not tv, depth + 1)
            if op in ("BitAnd", "BitOr"):
                x = self.norm(a, ["1"], tv, depth + 1)
                y = self.norm(b, ["1"], tv, depth + 1)
                return self.conj(x, y) if (op == "BitAnd") == tv else self.disj(x, y)
            if op == "Eq":
                for x, y in ((a, b), (b, a)):
                    k = konst(y)
                    if isinstance(k, bool):
                        return self.norm(x, ["1" if k else "0"], tv, depth + 1)
            return None
        if h == "call":
            n = t[1]
            m = re.search(r"(?:PartialEq|cmp::Eq)(?:<.*>)?(?:>)?::(eq|ne)$", n)
            if m and len(t[2]) == 2:
                return self.norm(("bin", "Eq", t[2][0], t[2][1]), ["1"], tv if m.group(1) == "eq" else not tv, depth + 1)
            m = re.search(r"PartialOrd(?:<.*>)?(?:>)?::(lt|le|gt|ge)$", n)
            if m and len(t[2]) == 2:
                return self.norm(("bin", CMP[m.group(1)], t[2][0], t[2][1]), ["1"], tv, depth + 1)
            m = re.search(r"(?:option::Option|result::Result)::(is_some|is_none|is_ok|is_err)$", n)
            if m:
                v = {"is_some": "1", "is_none": "0", "is_ok": "0", "is_err": "1"}[m.group(1)]
                return self.norm(("disc", t[2][0]), [v], tv, depth + 1)
            m = re.search(r"(?:option::Option|result::Result)(?:<.*>)?::(is_some_and|is_ok_and|is_none_or|map_or)$", n)
            if m:
                k = m.group(1)
                there = self.norm(("disc", t[2][0]), ["0" if "result" in n else "1"], True, depth + 1)
                gone = self.norm(("disc", t[2][0]), ["0" if "result" in n else "1"], False, depth + 1)
                r = self.by_closure(t[2][-1], self.T.ok(t[2][0]), tv)
                if r is not None:
                    if k == "map_or":
                        d = self.norm(t[2][1], ["1"], tv, depth + 1)
                    else:
                        d = TRUE if (k == "is_none_or") == tv else FALSE
                    return self.disj(self.conj(there, r), self.conj(gone, d))
            if tv and len(t[2]) == 2 and re.search(r"Iterator(<.*>)?>?::any$", n):
                r = self.by_closure(t[2][1], self.T.ok(t[2][0]), True)      # of some element
                if r is not None:
                    return r
            if not tv and len(t[2]) == 2 and re.search(r"Iterator(<.*>)?>?::all$", n):
                r = self.by_closure(t[2][1], self.T.ok(t[2][0]), False)
                if r is not None:
                    return r
            if re.search(r"\[T\]>?::contains$|slice::<impl \[T\]>::contains$", n) and len(t[2]) == 2 and t[2][0][0] == "agg" and t[2][0][1] in ("[]", "vec") and len(t[2][0][2]) <= 8:
                r = FALSE if tv else TRUE
                for x in t[2][0][2]:
                    e = self.norm(("bin", "Eq", x, t[2][1]), ["1"], tv, depth + 1)
                    r = self.disj(r, e) if tv else self.conj(r, e)
                return r
            if self.F.has(n) and depth < self.depth:
                return self.expand(t, lambda x: self.norm(x, ["1"], tv, depth + 1))
        return None

    def by_closure(self, clo, arg, tv):
        """DNF of a bool closure (or named function) being tv for the argument, None when it cannot be told"""
        cid = clo[1].split(":", 1)[1] if clo[0] == "agg" and clo[1].startswith("closure:") else None
        b = self.F.get(cid) if cid else None
        if b is None or b.tainted or cid in self.prog or len(b.blocks) > 60:
            return None
        self.prog.add(cid)
        try:
            out = FALSE
            for cd, v in self.ret_cases(b):
                out = self.disj(out, self.conj(cd, self.norm(v, ["1"], tv)))
            return self.subst(out, cid, [clo, arg])
        finally:
            self.prog.discard(cid)

    def expand(self, t, test, need=None):
        """DNF of test(result of workspace call t)"""
        if t[1] in self.prog or (self.T.no_inline and self.T.no_inline.search(t[1])):
            return None
        b = self.F.get(t[1])
        if b is None or b.tainted or len(b.blocks) > 200:
            return None
        self.prog.add(t[1])
        try:
            cases = self.ret_cases(b)
            out = FALSE
            for cond, val in cases:
                v = self.T.subst(val, t[1], t[2])
                if need and not need(v):
                    return None
                c = self.subst(cond, t[1], t[2])
                out = self.disj(out, self.conj(c, test(v)))
            return out
        finally:
            self.prog.discard(t[1])

    def subst(self, dnf, fid, args):
        out = FALSE
        for cj in dnf:
            c = TRUE
            for (t, vs, pos) in cj:
                c = self.conj(c, self.norm(self.T.subst(t, fid, args), vs, pos))
            out = self.disj(out, c)
        return out

    # ------------------------------------------------------------ DNF algebra
    @staticmethod
    def contradict(a, b):
        (t1, v1, p1), (t2, v2, p2) = a, b
        if t1 != t2:
            return False
        if p1 and p2:
            return not (v1 & v2)
        if p1 and not p2:
            return v1 <= v2
        if p2 and not p1:
            return v2 <= v1
        # two negatives: binary?
        return False

    def conj(self, a, b):
        if a == TRUE:
            return b
        if b == TRUE:
            return a
        out = set()
        for x in a:
            for y in b:
                u = self.meet(x, y)
                if u is not None:
                    out.add(u)
        return self.simp(out)

    def meet(self, x, y):
        u = {}
        for (t, v, p) in list(x) + list(y):
            u.setdefault(t, []).append((v, p))
        out = set()
        for t, ls in u.items():
            if len(ls) == 1:
                out.add((t, ls[0][0], ls[0][1]))
                continue
            pos, neg = None, frozenset()
            for v, p in ls:
                if p:
                    pos = v if pos is None else pos & v
                else:
                    neg = neg | v
            if pos is not None:
                pos = pos - neg
                if not pos:
                    return None
                out.add((t, pos, True))
            else:
                out.add((t, neg, False))
        return frozenset(out)

    def disj(self, a, b):
        return self.simp(set(a) | set(b))

    def neg_of(self, l):
        (t, v, p) = l
        s = {(t, v, not p)}
        return s

    def simp(self, s):
        s = set(s)
        changed = True
        n = 0
        while changed and n < 40:
            n += 1
            changed = False
            lst = sorted(s, key=len)
            # absorption
            keep = []
            for x in lst:
                if not any(y <= x for y in keep):
                    keep.append(x)
            if len(keep) != len(s):
                s = set(keep)
                changed = True
            # merge x∪{l}, x∪{¬l}
            done = False
            lst = list(s)
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    a, b = lst[i], lst[j]
                    d1, d2 = a - b, b - a
                    if len(d1) == 1 and len(d2) == 1:
                        (t1, v1, p1), (t2, v2, p2) = next(iter(d1)), next(iter(d2))
                        if t1 == t2:
                            m = self.union_lit((t1, v1, p1), (t2, v2, p2))
                            if m is not None:
                                s.discard(a)
                                s.discard(b)
                                s.add((a & b) | m)
                                done = changed = True
                                break
                    elif len(d1) == 1 and d2 and self._compl(next(iter(d1)), d2):
                        # (x ∧ l) ∨ (x ∧ ¬l ∧ y) = (x ∧ l) ∨ (x ∧ y)
                        l = next(iter(d1))
                        s.discard(b)
                        s.add(frozenset(z for z in b if not self._is_compl(l, z)))
                        done = changed = True
                        break
                    elif len(d2) == 1 and d1 and self._compl(next(iter(d2)), d1):
                        l = next(iter(d2))
                        s.discard(a)
                        s.add(frozenset(z for z in a if not self._is_compl(l, z)))
                        done = changed = True
                        break
                if done:
                    break
        if len(s) > CAP:
            # keep the common literals only (weaker, still necessary)
            it = iter(s)
            c = set(next(it))
            for x in it:
                c &= x
            return frozenset([frozenset(c)])
        return frozenset(s)

    @staticmethod
    def _is_compl(l, z):
        if l[0] != z[0]:
            return False
        if l[1] == z[1] and l[2] != z[2]:
            return True
        return False

    def _compl(self, l, d):
        return any(self._is_compl(l, z) for z in d)

    @staticmethod
    def union_lit(a, b):
        (t, v1, p1), (_, v2, p2) = a, b
        if p1 and p2:
            return frozenset([(t, v1 | v2, True)])
        if p1 and not p2:
            r = v2 - v1
            return frozenset() if not r else frozenset([(t, r, False)])
        if p2 and not p1:
            r = v1 - v2
            return frozenset() if not r else frozenset([(t, r, False)])
        r = v1 & v2
        return frozenset() if not r else frozenset([(t, r, False)])

    # ------------------------------------------------------------ CFG
    def edge(self, body, b, d):
        """condition of taking the edge b -> d"""
        self.all_rc(body)
        return self._edge.get((body.id, b, d), self.rc(body, b))

    def loop_of(self, body, bb):
        """blocks of the innermost natural loop around bb (without it being a bare await loop), and its header"""
        back, _ = self.backedges(body)
        loops = {}
        for (u, h) in back:
            if not dominated(body, u, [h]) and u != h:
                pass
            ns, st = {h, u}, [u]
            while st:
                x = st.pop()
                if x == h:
                    continue
                for p in body.preds(x):
                    if p not in ns and p in body.reachable():
                        ns.add(p)
                        st.append(p)
            loops.setdefault(h, set()).update(ns)
        best = None
        for h, ns in loops.items():
            if bb in ns and (best is None or len(ns) < len(best[1])):
                best = (h, ns)
        return best

    def loop_exits(self, body, bb):
        """[(from, to, condition)] of the edges leaving the loop around bb"""
        lp = self.loop_of(body, bb)
        if lp is None:
            return []
        out = []
        for u in sorted(lp[1]):
            for d in body.succs(u):
                if d not in lp[1]:
                    out.append((u, d, self.edge(body, u, d)))
        return out

    def backedges(self, body):
        color, back = {}, set()
        st = [(0, iter(body.succs(0)))]
        color[0] = 1
        order = []
        while st:
            b, it = st[-1]
            for x in it:
                if color.get(x, 0) == 0:
                    color[x] = 1
                    st.append((x, iter(body.succs(x))))
                    break
                elif color[x] == 1:
                    back.add((b, x))
            else:
                color[b] = 2
                order.append(b)
                st.pop()
        order.reverse()
        return back, order

    def all_rc(self, body):
        if body.id in self._rc:
            return self._rc[body.id]
        back, order = self.backedges(body)
        rc = {0: TRUE}
        self._rc[body.id] = rc
        done = set()
        for b in order:
            c = rc.get(b, FALSE)
            done.add(b)
            t = body.blocks[b]["t"]
            ss = [x for x in body.succs(b) if (b, x) not in back]
            if t[0] == "switch" and len(body.succs(b)) > 1:
                edges = {}
                for v, d in t[2]:
                    edges.setdefault(d, []).append(v)
                exp = [v for v, _ in t[2]]
                at = (b, len(body.blocks[b]["s"]))
                term = self.T.op(body, t[1], at)
                lit_next = self.is_next(body, b, t)
                gated = self.gated(body, b, t, term, at, done) if not lit_next else None

                def NORM(term, vals, pos):
                    if gated is None:
                        return self.norm(term, vals, pos)
                    r = FALSE
                    for cd, ti in gated:
                        r = self.disj(r, self.conj(cd, self.norm(ti, vals, pos)))
                    return r
                for d in ss:
                    if lit_next and "1" not in edges.get(d, ["0"]):
                        l = TRUE          # leaving a for loop says nothing
                    elif d in edges and d == t[3]:
                        others = [v for v in exp if v not in edges[d]]
                        l = NORM(term, others, False) if others else TRUE
                    elif d in edges:
                        l = NORM(term, edges[d], True)
                    else:
                        l = NORM(term, exp, False)
                        # two-variant enums: the otherwise edge of a single explicit value
                    ec = self.conj(c, l)
                    self._edge[(body.id, b, d)] = ec
                    rc[d] = self.disj(rc.get(d, FALSE), ec)
            else:
                for d in ss:
                    rc[d] = self.disj(rc.get(d, FALSE), c)
        self._rc[body.id] = rc
        return rc

    def gated(self, body, b, t, term, at, done):
        """a branch on a local assigned in several places: [(condition of the assignment, value)]"""
        o = t[1]
        if o[0] not in ("c", "m"):
            return None
        if not (term[0] == "phi" or (term[0] == "disc" and term[1][0] == "phi")):
            return None
        if term[0] == "disc":
            q = None
            dl = place(o[1])[0]
            for i, s in enumerate(body.blocks[b]["s"]):
                if s[0] == "=" and place(s[1])[0] == dl and s[2][0] == "disc":
                    q, at = s[2][1], (b, i)
            if q is None:
                return None
            o = ["c", q]
            term = term[1]
            wrap = lambda x: ("disc", x)
        else:
            wrap = lambda x: x
        self._splitblocks = []
        r = self.split(body, TRUE, term, at, "=", ["use", o])
        if any(x not in done for x in self._splitblocks) or len(r) < 2 or len(r) > 12:
            return None
        return [(cd, wrap(x)) for cd, x in r]

    def is_next(self, body, bb, t):
        """switch on the discriminant of an Iterator::next result"""
        o = t[1]
        if o[0] not in ("c", "m"):
            return False
        dl = place(o[1])[0]
        for s in reversed(body.blocks[bb]["s"]):
            if s[0] == "=" and place(s[1])[0] == dl and s[2][0] == "disc":
                l, p = place(s[2][1])
                if p:
                    return False
                for d in body.defs().get(l, []):
                    if d[3] == "call" and d[4][1][0] == "f" and d[4][1][1].endswith("iterator::Iterator::next"):
                        return True
        return False

    def rc(self, body, bb):
        return self.all_rc(body).get(bb, FALSE)

    def ret_cases(self, body):
        if body.id in self._rcases:
            return self._rcases[body.id]
        out = []
        seen = set()
        for rb in body.ret_blocks():
            at = (rb, len(body.blocks[rb]["s"]))
            found, entry = self.T.reaching(body, 0, (), at)
            for (bb, idx, dp, kind, pay) in found:
                if (bb, idx) in seen:
                    continue
                seen.add((bb, idx))
                if kind == "=":
                    t = self.T.rv(body, pay, (bb, idx), 0, ())
                else:
                    t = self.T.call(body, bb, pay, 0, ())
                fl = kind != "=" and pay[2] and pay[2][0][0] in ("c", "m") and self.T.flipped(body, pay[2][0][1])
                for cd, v in self.split(body, self.rc(body, bb), t, (bb, idx), kind, pay):
                    for cd, v in (self.spread(body, cd, v, (bb, idx), kind, pay) if self.spreads and v == t else [(cd, v)]):
                        out.extend(self.combi(cd, v, fl=fl and v == t))
        self._rcases[body.id] = out
        return out

    def spread(self, body, cond, t, at, kind, pay, depth=0):
        """a value built from parts that have several reaching definitions (outside loops), case by case"""
        if depth > 6 or not any(x[0] == "phi" for x in walk(t)):
            return [(cond, t)]
        if kind == "=" and pay[0] == "agg" and t[0] == "agg" and len(t[2]) == len(pay[2]):
            ops, put = pay[2], lambda a: ("agg", t[1], tuple(a)) + tuple(t[3:])
        elif kind == "call" and t[0] == "call" and len(t[2]) == len(pay[2]):
            ops, put = pay[2], lambda a: ("call", t[1], tuple(a)) + tuple(t[3:])
        elif kind == "=" and pay[0] in ("use", "cast", "ref"):
            op = pay[1] if pay[0] == "use" else pay[2] if pay[0] == "cast" else ["c", pay[2]]
            r = self.spread_op(body, cond, op, at, depth)
            return [(c, v) for c, v in r] if all(self.T.op(body, op, at) == t for _ in (0,)) else [(cond, t)]
        elif kind == "call" and pay[2] and self.T.op(body, pay[2][0], (at[0], len(body.blocks[at[0]]["s"]))) == t:
            return self.spread_op(body, cond, pay[2][0], (at[0], len(body.blocks[at[0]]["s"])), depth)
        else:
            return [(cond, t)]
        here = at if kind == "=" else (at[0], len(body.blocks[at[0]]["s"]))
        now = t[2]
        out = [(cond, [])]
        for o, a in zip(ops, now):
            if self.T.op(body, o, here) != a:
                return [(cond, t)]
            nxt = []
            for c, vs in out:
                for c2, v in self.spread_op(body, c, o, here, depth):
                    if c2:
                        nxt.append((c2, vs + [v]))
            out = nxt
            if len(out) > 48:
                return [(cond, t)]
        return [(c, put(vs)) for c, vs in out] or [(cond, t)]

    def spread_op(self, body, cond, op, at, depth):
        t = self.T.op(body, op, at)
        if op[0] not in ("c", "m") or not any(x[0] == "phi" for x in walk(t)):
            return [(cond, t)]
        l, p = place(op[1])
        p = at_use(p, at)
        return self.spread_local(body, cond, t, l, tuple(p), at, depth)

    def spread_local(self, body, cond, t, l, p, at, depth):
        found, entry = self.T.reaching(body, l, p, at)
        if not found or entry or len(found) > 8 or depth > 6:
            return [(cond, t)]
        if len(found) > 1 and any(self.loop_of(body, x[0]) for x in found):
            return [(cond, t)]
        out = []
        for (bb, idx, dp, k2, p2) in found:
            rs = tuple(p[len(dp):])
            c2 = cond
            if len(found) > 1:
                self._splitblocks.append(bb)
                c2 = self.kept(body, bb, [x[0] for x in found], self.conj(cond, self.rc(body, bb)))
                if not c2:
                    continue
            if k2 == "=":
                t2 = self.T.rv(body, p2, (bb, idx), 0, (), rs)
            else:
                t2 = self.T.apply(body, self.T.call(body, bb, p2, 0, ()), rs, (bb, idx), 0, ())
            if not rs:
                out.extend(self.spread(body, c2, t2, (bb, idx), k2, p2, depth + 1))
            elif k2 == "=" and p2[0] == "agg" and rs[0].startswith("."):
                nm = rs[0][1:]
                ix = p2[3].index(nm) if nm in p2[3] else (int(nm) if nm.isdigit() else -1)
                o = p2[2][ix] if 0 <= ix < len(p2[2]) else None
                if o is not None and len(rs) == 1:
                    out.extend(self.spread_op(body, c2, o, (bb, idx), depth + 1))
                else:
                    out.append((c2, t2))
            elif k2 == "=" and p2[0] == "use" and p2[1][0] in ("c", "m"):
                l3, p3 = place(p2[1][1])
                out.extend(self.spread_local(body, c2, t2, l3, tuple(at_use(p3, (bb, idx))) + rs, (bb, idx), depth + 1))
            else:
                out.append((c2, t2))
        return out or [(cond, t)]

    COMBI = re.compile(r"(result::Result|option::Option)(<.*>)?::(map|and_then|ok_or|ok_or_else)$")

    def combi(self, cd, t, depth=0, fl=False):
        """a returned x.map(f) / x.and_then(f) / x.ok_or(e) written out as its two cases"""
        m = self.COMBI.search(t[1]) if t[0] == "call" and depth < 4 else None
        if not m or len(t[2]) != 2:
            return [(cd, t)]
        x, f = t[2]
        res = m.group(1).startswith("result")
        op = m.group(3)
        d = ("disc", ("flip", x) if fl else x)
        good = self.conj(cd, self.norm(d, ["0" if res else "1"], True))
        bad = self.conj(cd, self.norm(d, ["1" if res else "0"], True))
        if op in ("map", "and_then"):
            v = self.T.apply_closure(f, [mk_ok(x)], 0) if f[0] in ("agg", "fn") else None
            if v is None:
                return [(cd, t)]
            if op == "map":
                v = ("agg", "core::result::Result::Ok" if res else "core::option::Option::Some", (v,))
            none = ("err", x) if res and not fl else ("agg", "core::option::Option::None", ())
        else:
            v = ("agg", "core::result::Result::Ok", (mk_ok(x),))
            none = ("agg", "core::result::Result::Err", (f,))
        out = []
        if good:
            out.extend(self.combi(good, v, depth + 1))
        if bad:
            out.append((bad, none))
        return out

    def split(self, body, cond, t, at, kind, pay, depth=0, rest=()):
        """a value with several reaching definitions: follow to each definition's own condition"""
        if kind == "=" and depth < 8:
            if pay[0] == "agg" and rest and rest[0].startswith("."):
                nm = rest[0][1:]
                ix = pay[3].index(nm) if nm in pay[3] else (int(nm) if nm.isdigit() else -1)
                if 0 <= ix < len(pay[2]):
                    return self.split(body, cond, t, at, "=", ["use", pay[2][ix]], depth + 1, tuple(rest[1:]))
            if pay[0] == "un" and pay[1] == "Not" and not rest:
                inner = self.split(body, cond, self.T.op(body, pay[2], at), at, "=", ["use", pay[2]], depth + 1)
                return [(cond, t)] if len(inner) < 2 else [(c, self.negate(v)) for c, v in inner]
            q = None
            if pay[0] in ("use", "rep") and pay[1][0] in ("c", "m"):
                q = pay[1][1]
            elif pay[0] == "ref":
                q = pay[2]
            if q is not None:
                l, p = place(q)
                p = at_use(p, at) + tuple(rest)
                found, entry = self.T.reaching(body, l, p, at)
                if found and not entry:
                    r = []
                    for (bb, idx, dp, k2, p2) in found:
                        if len(found) > 1:
                            self._splitblocks.append(bb)
                        rs = p[len(dp):]
                        if k2 == "=":
                            t2 = self.T.rv(body, p2, (bb, idx), 0, (), rs)
                        else:
                            t2 = self.T.apply(body, self.T.call(body, bb, p2, 0, ()), rs, (bb, idx), 0, ())
                        c2 = cond if len(found) == 1 else self.conj(cond, self.rc(body, bb))
                        if len(found) > 1:
                            c2 = self.kept(body, bb, [x[0] for x in found], c2)
                        r.extend(self.split(body, c2, t2, (bb, idx), k2, p2, depth + 1, rs))
                    return r
        if kind == "call" and t[0] in ("phi", "call") and not rest:
            r = self.alternative(body, cond, at[0], pay)
            if r is not None:
                return r
        return [(cond, t)]

    def kept(self, body, bb, others, cond):
        """cond, and no later definition replaces the one in bb (only where the definitions are in the same loop)"""
        for o in others:
            if o == bb or not dominated(body, o, [bb]):
                continue
            l1, l2 = self.loop_of(body, o), self.loop_of(body, bb)
            if (l1 and l1[0]) != (l2 and l2[0]):
                continue
            rel = self.relative(body, bb, o)
            if rel is None:
                continue
            neg = TRUE
            for cj in rel:
                d = FALSE
                for l in cj:
                    d = self.disj(d, frozenset([frozenset(self.neg_of(l))]))
                neg = self.conj(neg, d)
            r = self.conj(cond, neg)
            if len(r) <= 12:
                cond = r
        return cond

    def relative(self, body, bb, o):
        """the condition of reaching o over that of reaching bb, None when it is not a simple one"""
        a, z = self.rc(body, bb), self.rc(body, o)
        if len(a) != 1 or not z or len(z) > 3:
            return None
        base = next(iter(a))
        out = set()
        for cj in z:
            if not base <= cj or cj == base or len(cj - base) > 4:
                return None
            out.add(frozenset(cj - base))
        return out

    def alternative(self, body, cond, bb, pay):
        """x.unwrap_or(d), x.unwrap_or_else(f), x.map_or(d, f), x.map_or_else(g, f) as its two cases"""
        f = pay[1][1] if pay[1][0] == "f" else ""
        m = re.search(r"(option::Option|result::Result)(<.*>)?::(unwrap_or|unwrap_or_else|map_or|map_or_else)$", f)
        if not m:
            return None
        res = m.group(1).startswith("result")
        a = [self.T.op(body, o, (bb, len(body.blocks[bb]["s"]))) for o in pay[2]]
        x, d = a[0], a[1]
        if m.group(3) in ("unwrap_or_else", "map_or_else"):
            d = self.T.apply_closure(d, [("err", x)] if res else [], 0)
        if d is None:
            return None
        out = []
        for cd, v in self.combi(cond, x):
            if v[0] == "agg" and re.search(r"(Option::Some|Result::Ok)$", v[1]):
                parts = [(cd, v[2][0])]
            elif v[0] == "agg" and re.search(r"(Option::None|Result::Err)$", v[1]) or v[0] == "err":
                parts = [(cd, None)]
            else:
                parts = [(self.conj(cd, self.norm(("disc", v), ["0" if res else "1"], True)), mk_ok(v)), (self.conj(cd, self.norm(("disc", v), ["0" if res else "1"], False)), None)]
            for c2, y in parts:
                if y is None:
                    y = d
                elif m.group(3).startswith("map_or"):
                    y = self.T.apply_closure(a[2], [y], 0)
                    if y is None:
                        return None
                if c2:
                    out.append((c2, y))
        return out

    @staticmethod
    def negate(v):
        if v[0] == "k" and v[1] in ("true", "false"):
            w = "false" if v[1] == "true" else "true"
            return ("k", w) + tuple(v[2:3]) + tuple(1 - x if x in (0, 1) else x for x in v[3:])
        return ("un", "Not", v)

    def cases(self, body, op, at):
        """[(condition, term)] of an operand with several reaching definitions; workspace calls with several results are split"""
        t = self.T.op(body, op, at)
        out = []
        for cd, t in self.split(body, self.rc(body, at[0]), t, at, "=", ["use", op]):
            out.extend((self.conj(cd, c2), t2) for c2, t2 in self.expand_cases(t))
        return [(c, t) for c, t in out if c]

    def expand_cases(self, t, depth=0):
        if t[0] == "call" and self.F.has(t[1]) and depth < 4 and t[1] not in self.prog and not (self.T.no_inline and self.T.no_inline.search(t[1])):
            b = self.F.get(t[1])
            if b is not None and not b.tainted and len(b.blocks) < 200:
                self.prog.add(t[1])
                try:
                    r = []
                    for cd, v in self.ret_cases(b):
                        c = self.subst(cd, t[1], t[2])
                        for c2, v2 in self.expand_cases(self.T.subst(v, t[1], t[2]), depth + 1):
                            r.append((self.conj(c, c2), v2))
                    if r:
                        return r
                finally:
                    self.prog.discard(t[1])
        return [(TRUE, t)]

    # ------------------------------------------------------------ success values
    def ok_cases(self, t):
        """[(condition, payload)] of the successful results of an awaited coroutine / workspace call term, or None"""
        if t[0] == "await":
            x = t[1]
            if x[0] == "agg" and x[1].startswith("coroutine:"):
                fid = x[1].split(":", 1)[1]
                put = lambda v: self.T.subst_up(v, fid, x[2])
                raw = True
            elif x[0] == "call" and self.F.has(x[1]):
                r = self.T.ret_term(x[1])
                if r is None or r[0] in ("?", "big", "loop", "phi"):
                    return None
                return self.ok_cases(("await", self.T.subst(r, x[1], x[2])))
            else:
                return None
        elif t[0] == "call" and self.F.has(t[1]):
            fid, x, raw = t[1], t, False
            put = lambda v: self.T.subst(v, fid, x[2])
        else:
            return None
        b = self.F.get(fid)
        if b is None or b.tainted or fid in self.prog or len(b.blocks) > 600 or (self.T.no_inline and self.T.no_inline.search(fid)):
            return None
        self.prog.add(fid)
        try:
            out = []
            for cd, v in self.ret_cases(b):
                if v[0] == "err" or (v[0] == "agg" and re.search(r"::(Err|None)$", v[1])):
                    continue
                out.append((cd, v))
        finally:
            self.prog.discard(fid)
        if raw:
            # the coroutine's captures were already resolved to the parent's parameters
            pid = fid.rsplit("::{", 1)[0]
            pb = self.F.get(pid)
            site = self.T.closure_site(b)
            if pb is None or site is None:
                return None
            names = [self.T.op(site[0], o, (site[1], site[2])) for o in site[3]]
            m = {n: a for n, a in zip(names, x[2]) if n[0] == "param"}
            args = [m.get(("param", pid, i + 1), ("param", pid, i + 1)) for i in range(pb.argc)]
            put = lambda v: self.T.subst(v, pid, args)
        return [(cd, mk_ok(put(v))) for cd, v in out]

    def deep(self, t, depth=0):
        """t with every success payload of a workspace call written out where it is unique"""
        memo = {}

        def go(x, d):
            if isinstance(x, frozenset):
                return frozenset(go(y, d) for y in x)
            if not isinstance(x, tuple) or not x:
                return x
            if x in memo:
                return memo[x]
            h = x[0]
            if h in ("k", "fn", "param", "?", "big", "loop", "never"):
                return x
            if h == "ok" and d < 6:
                cs = self.ok_cases(x[1])
                vals = {v for _, v in cs} if cs else set()
                if len(vals) == 1 and next(iter(vals))[0] not in ("?", "big", "loop", "phi"):
                    r = go(next(iter(vals)), d + 1)
                    memo[x] = r
                    return r
            if h == "fld":
                b = go(x[2], d)
                if "." in x[1]:
                    v, f = x[1].split(".", 1)
                    r = self.T._variant(b, v, f)
                else:
                    r = getf(b, x[1])
            elif h == "ok":
                r = mk_ok(go(x[1], d))
            else:
                r = tuple(go(y, d) if isinstance(y, (tuple, frozenset)) else y for y in x)
            memo[x] = r
            return r
        return go(t, depth)

    def full_cases(self, body):
        """ret_cases with workspace calls split into their own cases"""
        out = []
        for cd, t in self.ret_cases(body):
            out.extend((self.conj(cd, c2), t2) for c2, t2 in self.expand_cases(t))
        return [(c, t) for c, t in out if c]

    # ------------------------------------------------------------ sites
    def sites(self, body, pred, depth=0, stack=(), closures=True):
        """calls satisfying pred reachable from body: [(call, arg terms in body's frame, cond)]"""
        def local(b):
            return [(c, c.bb, lambda c=c: self.T.args(c)) for c in b.calls() if pred(c)]
        return [(p, a, cd) for (p, a, cd, _) in self.events(body, local, depth, stack, closures, pred)]

    def writes(self, body, fieldpat, closures=True):
        """assignments to a place whose last field matches: [((body, bb, idx), [value, base], cond)]"""
        rx = re.compile(fieldpat)

        def local(b):
            out = []
            for l, ds in b.defs().items():
                for (bb, idx, dp, kind, pay) in ds:
                    q = [p for p in dp if p != "*"]
                    if not q or not q[-1].startswith(".") or not rx.fullmatch(q[-1][1:]):
                        continue

                    def ev(l=l, bb=bb, idx=idx, q=q, kind=kind, pay=pay):
                        v = self.T.rv(b, pay, (bb, idx), 0, ()) if kind == "=" else self.T.call(b, bb, pay, 0, ())
                        base = self.T.local(b, l, tuple(q[:-1]), (bb, idx))
                        return [v, base]
                    out.append(((b, bb, idx, q[-1][1:]), bb, ev))
            for c in b.calls():
                m = REPLACES.search(c.fid or "")
                if not m or len(c.args) < 1:
                    continue
                to = self.T.arg(c, 0)
                if to[0] != "fld" or not isinstance(to[1], str) or not rx.fullmatch(to[1]):
                    continue

                def ev2(c=c, to=to, m=m):
                    v = self.T.arg(c, 1) if len(c.args) > 1 else ("taken", to)
                    if m.group(1).startswith("option"):
                        v = ("agg", "core::option::Option::Some", (v,), ("0",)) if len(c.args) > 1 else ("agg", "core::option::Option::None", (), ())
                    return [v, to[2]]
                out.append(((b, c.bb, len(b.blocks[c.bb]["s"]), to[1]), c.bb, ev2))
            return out
        return [(p, a, cd) for (p, a, cd, _) in self.events(body, local, closures=closures)]

    def events(self, body, local, depth=0, stack=(), closures=True, pred=None):
        """events found by local(body) -> [(payload, bb, thunk -> terms)] in body and what it calls;
        returns [(payload, terms, cond, chain)] in body's frame; chain = bbs/calls from body to the event"""
        out = []
        for (p, bb, th) in local(body):
            out.append((p, th(), self.rc(body, bb), ((body.id, bb),)))
        for c in body.calls():
            if pred is not None and pred(c):
                continue
            if depth < self.depth:
                ts = self.F.targets(c)
                if len(ts) == 1 and ts[0] not in stack and ts[0] != body.id:
                    tb = self.F.get(ts[0])
                    if tb is not None and not tb.tainted and len(tb.blocks) < 600:
                        sub = self.events(tb, local, depth + 1, stack + (body.id,), closures, pred)
                        if sub:
                            args = self.T.args(c)
                            base = self.rc(body, c.bb)
                            for (c2, a2, cd, ch) in sub:
                                a3 = [self.T.subst(x, ts[0], args) for x in a2]
                                out.append((c2, a3, self.conj(base, self.subst(cd, ts[0], args)), ((body.id, c.bb),) + ch))
        if closures:
            for cid in self.F.closure_refs(body):
                cb = self.F.get(cid)
                if cb is None or cb.tainted:
                    continue
                site = self.T.closure_site(cb)
                bb = site[1] if site else 0
                base = self.rc(body, bb) if site else TRUE
                use = self.T.closure_use(cb)
                if use:
                    u = use[0]
                    bb = u.bb
                    base = self.conj(base, self.rc(body, u.bb))
                    if re.search(r"option::Option::(map|and_then|inspect|map_or|is_some_and)", u.fid or "") and u.args:
                        base = self.conj(base, self.norm(("disc", self.T.arg(u, 0)), ["1"], True))
                    elif re.search(r"result::Result::(map|and_then|inspect)$", u.fid or "") and u.args:
                        base = self.conj(base, self.norm(("disc", self.T.arg(u, 0)), ["0"], True))
                    elif re.search(r"bool::(then)$", u.fid or "") and u.args:
                        base = self.conj(base, self.norm(self.T.arg(u, 0), ["1"], True))
                for (c2, a2, cd, ch) in self.events(cb, local, depth, stack, closures, pred):
                    out.append((c2, a2, self.conj(base, cd), ((body.id, bb),) + ch))
        return out


def show_dnf(d):
    if d == TRUE:
        return "always"
    if not d:
        return "never"
    r = []
    for cj in d:
        r.append(" & ".join(sorted(f"{show(t)} {'in' if p else 'notin'} {sorted(v)}" for t, v, p in cj)))
    return " | ".join(sorted(r))


def compatible(C, a, b):
    """can the two DNF conditions hold together (syntactically)?"""
    return bool(C.conj(a, b))


def dominated(body, bb, doms):
    """every path from entry to the statements of bb has completed the terminator of one of the blocks in doms"""
    doms = set(doms)
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        if x == bb:
            return False
        seen.add(x)
        if x in doms:
            continue
        st.extend(body.succs(x))
    return True


def precedes(body, a, b):
    """b is reachable from a (a strictly before)"""
    seen, st = set(), list(body.succs(a))
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(body.succs(x))
    return False


def reads(body, rx):
    """loads of places whose last field matches rx: [(bb, idx, place string)]"""
    out = []
    r = re.compile(rx)

    def chk(o, bb, i):
        if o and o[0] in ("c", "m"):
            _, p = place(o[1])
            p = [x for x in p if x != "*"]
            if p and p[-1].startswith(".") and r.fullmatch(p[-1][1:]):
                out.append((bb, i, o[1]))

    def ops(x, bb, i):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] in ("c", "m") and isinstance(x[1], str):
                chk(x, bb, i)
            else:
                for y in x:
                    ops(y, bb, i)
    for bb in body.reachable():
        bl = body.blocks[bb]
        for i, s in enumerate(bl["s"]):
            if s[0] == "=":
                ops(s[2], bb, i)
                if s[2][0] == "ref":
                    _, p = place(s[2][2])
                    p = [x for x in p if x != "*"]
                    if p and p[-1].startswith(".") and r.fullmatch(p[-1][1:]):
                        out.append((bb, i, s[2][2]))
        t = bl["t"]
        if t[0] == "call":
            ops(t[2], bb, len(bl["s"]))
    return out
