"""Value provenance: symbolic terms for MIR operands, inlining workspace calls."""
import re
from .core import place, op_place

# library functions that return (a view of / a wrapper around) their first argument
IDENT = re.compile(r"""(?x)
 ( ::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|clone|cloned|copied|to_owned|into|try_into|into_future|new_unchecked
    |as_slice|as_mut_slice|as_str|as_bytes|to_vec|to_string|as_deref|as_deref_mut|into_boxed_slice|into_vec|into_inner|into_string
    |iter|iter_mut|into_iter|by_ref|as_path|to_path_buf|get_mut_unchecked|leak|collect|chain_err|into_owned|from_str_unchecked
    |enumerate|peekable|fuse|copied|cloned|instrument|in_current_span|map_err|context|with_context|or_else|ok|err_into|trace_async|in_span
    |next|first|ok_or|ok_or_else|as_pin_mut|get_mut|get_ref|as_any|into_arc|flatten|boxed)$
 | ^alloc::(boxed::Box|sync::Arc|rc::Rc)::(new|pin|from|clone)$
 | ^core::pin::Pin::(new|new_unchecked)$
 | ^core::convert::(From::from|AsRef::as_ref)$
 | ^std::path::Path::(new|to_path_buf)$
 | ^core::mem::(take)$
 | ^core::ops::try_trait::FromResidual::from_residual$
 )""")
# unwrapping: content of
OK = re.compile(r"(::(unwrap|expect|unwrap_unchecked|unwrap_or_default)$|^core::ops::try_trait::Try::branch$|future::Future::poll$|::(unwrap_or|unwrap_or_else)$)")
NOT_IDENT = re.compile(r"^serde_json::|sync::(mutex::Mutex|rwlock::RwLock|poison::mutex::Mutex)::(get_mut|into_inner)|(BTreeMap|HashMap|DashMap|BTreeSet|HashSet)(<.*>)?::(get_mut|first|last)$|\[T\](>)?::first$|option::Option(<.*>)?::or_else$")
MAPF = re.compile(r"(iterator::Iterator|Iter(<.*>)? as .*Iterator>?|option::Option(<.*>)?|result::Result(<.*>)?|Iterator>)::map$")
FILTF = re.compile(r"Iterator>?::inspect$|option::Option(<.*>)?::(inspect|filter)$")
LOOPT = ("loop",)
UNK = ("?",)


def tsize(t, cap=2000):
    n, st = 0, [t]
    while st and n < cap:
        x = st.pop()
        n += 1
        if isinstance(x, tuple):
            st.extend(y for y in x[1:] if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            st.extend(x)
    return n


def walk(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
            continue
        if not isinstance(x, tuple):
            continue
        if x in seen:
            continue
        seen.add(x)
        if x and isinstance(x[0], str):
            yield x
            st.extend(y for y in x[1:] if isinstance(y, (tuple, frozenset)))
        else:
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))


def phi(ts):
    s = set()
    for t in ts:
        if t[0] == "phi":
            s |= set(t[1])
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    s.discard(LOOPT)
    if len(s) == 1:
        return next(iter(s))
    if not s:
        return UNK
    return ("phi", frozenset(s))


def alts(t):
    return list(t[1]) if t[0] == "phi" else [t]


def getf(t, name):
    """field projection"""
    if t[0] == "phi":
        return phi([getf(x, name) for x in t[1]])
    if t[0] == "agg":
        fields, args = t[3], t[2]
        if name in fields:
            return args[fields.index(name)]
        if name.isdigit() and int(name) < len(args):
            return args[int(name)]
    if t[0] == "with":
        for n, v in t[2]:
            if n == name:
                return v
        return getf(t[1], name)
    return ("fld", name, t)


def mk_ok(t):
    """content of an Option/Result/ControlFlow/Poll/iterator"""
    if t[0] == "phi":
        r = []
        for x in t[1]:
            if x[0] == "agg" and re.search(r"::(None|Err|Break|Pending)$", x[1]):
                continue
            r.append(mk_ok(x))
        return phi(r) if r else ("never",)
    if t[0] == "agg" and re.search(r"::(Some|Ok|Continue|Ready)$", t[1]) and t[2]:
        return t[2][0]
    if t[0] == "agg" and re.search(r"::(None|Err|Break|Pending)$", t[1]):
        return ("never",)
    if t[0] == "call" and len(t[2]) == 2:
        if THENSOME.search(t[1]):
            return t[2][1]
        if SLGET.search(t[1]) and not (t[2][1][0] == "agg" and "Range" in t[2][1][1]):
            return ("idx", t[2][0], t[2][1])
    return ("ok", t)


THENSOME = re.compile(r"bool(>)?::then_some$")
SLGET = re.compile(r"\[T\]>?::get(_mut)?$")


def at_use(projs, at):
    """drop derefs; index locals are remembered together with the point where they are read"""
    return tuple(f"{p[:-1]}@{at[0]},{at[1]}]" if p[0] == "[" and p[1:-1].isdigit() else p for p in projs if p != "*")


def unpoll(t):
    if t[0] == "poll":
        return t[1]
    if t[0] == "phi":
        return phi([unpoll(x) for x in t[1]])
    return t


class Terms:
    def __init__(self, facts, inline=True, maxdepth=6, maxsize=1500, ident=IDENT, no_inline=None, phi_inline=True):
        self.phi_inline = phi_inline
        self.F = facts
        self.ret = {}
        self.prog = set()
        self.maxdepth = maxdepth
        self.maxsize = maxsize
        self.inline = inline
        self.ident = ident
        self.no_inline = re.compile(no_inline) if no_inline else None
        self._opmemo = {}
        self._site = {}

    # ---- operands -------------------------------------------------------
    def op(self, body, o, at, depth=0, stack=()):
        k = o[0]
        if k in ("c", "m"):
            return self.pl(body, o[1], at, depth, stack)
        if k == "k":
            return ("k", o[1], o[3], o[4])
        if k == "f":
            return ("fn", o[2] if o[2] and o[2] != "dyn" else o[1])
        return UNK

    def pl(self, body, ps, at, depth=0, stack=()):
        l, projs = place(ps)
        return self.local(body, l, at_use(projs, at), at, depth, stack)

    def apply(self, body, t, projs, at, depth, stack):
        i = 0
        while i < len(projs):
            p = projs[i]
            if p.startswith("@"):
                v = p[1:]
                if i + 1 < len(projs) and projs[i + 1].startswith("."):
                    f = projs[i + 1][1:]
                    if v in ("Some", "Ok", "Continue", "Ready") and f == "0":
                        if v == "Ready":
                            t = self.awaited(unpoll(t), depth, stack)
                        else:
                            t = self.ok(t, depth)
                    elif v in ("Err", "Break") and f == "0":
                        t = ("err", t)
                    else:
                        t = self._variant(t, v, f)
                    i += 2
                    continue
            elif p.startswith("."):
                t = getf(t, p[1:])
            elif p.startswith("["):
                ix = p[1:-1]
                if "@" in ix:
                    ix, w = ix.split("@")
                    wb, wi = w.split(",")
                    t = ("idx", t, self.local(body, int(ix), (), (int(wb), int(wi)), depth, stack))
                elif ix.isdigit():
                    t = ("idx", t, self.local(body, int(ix), (), at, depth, stack))
                else:
                    t = ("idx", t, ("k", ix, "", None))
            i += 1
        return t

    def _variant(self, t, v, f):
        if t[0] == "phi":
            r = [self._variant(x, v, f) for x in t[1] if not (x[0] == "agg" and not x[1].endswith("::" + v) and "::" in x[1])]
            return phi(r) if r else ("never",)
        if t[0] == "agg":
            return getf(t, f)
        return ("fld", f"{v}.{f}", t)

    def flipped(self, body, pl):
        """the discriminant read is that of an Option turned into a Result or ControlFlow (or the other way round): 0 and 1 change places"""
        l, projs = place(pl)
        odd = False
        for _ in range(12):
            if [p for p in projs if p != "*"]:
                return odd
            ds = body.defs().get(l, [])
            if len(ds) != 1 or ds[0][2]:
                return odd
            bb, idx, _, kind, pay = ds[0]
            if kind == "=":
                src = op_place(pay[1]) if pay[0] == "use" else pay[2] if pay[0] == "ref" else None
                if src is None:
                    return odd
                l, projs = place(src)
                continue
            c = body.call_at(bb)
            if c is None or not c.fid or not c.args or self.F.targets(c):
                return odd
            m = c.fid.rsplit("::", 1)[-1]
            if c.fid.endswith("Try::branch"):
                a = op_place(c.args[0])
                ty = body.lty(place(a)[0]) if a is not None and not [p for p in place(a)[1] if p != "*"] else ""
                odd ^= bool(re.match(r"(std|core)::option::Option<", ty))
            elif re.search(r"option::Option(<.*>)?::(ok_or|ok_or_else)$", c.fid) or re.search(r"result::Result(<.*>)?::(ok|err)$", c.fid):
                odd = not odd
            elif not self.ident.search(c.fid):
                return odd
            a = op_place(c.args[0])
            if a is None:
                return odd
            l, projs = place(a)
        return odd

    def local(self, body, l, projs, at, depth=0, stack=()):
        key = (body.id, l, projs, at)
        if not stack and key in self._opmemo:
            return self._opmemo[key]
        if key in stack or len(stack) > 220:
            return LOOPT
        st2 = stack + (key,)
        # strip: what defs reach
        found, entry = self.reaching(body, l, projs, at)
        res = []
        for (bb, idx, dp, kind, pay) in found:
            rest = projs[len(dp):]
            if kind == "=":
                t = self.rv(body, pay, (bb, idx), depth, st2, rest)
            else:
                t = self.call(body, bb, pay, depth, st2)
                t = self.apply(body, t, rest, (bb, idx), depth, st2)
            res.append(t)
        if entry:
            t = None
            if l == 1 and projs and ("{closure#" in body.id.rsplit("::", 1)[-1]):
                # upvar access
                n = projs[0]
                if n.startswith("."):
                    t = self.upvar(body, n[1:], depth, st2)
                    t = self.apply(body, t, projs[1:], at, depth, st2)
            if t is None and l >= 2 and l <= body.argc and "{closure#" in body.id.rsplit("::", 1)[-1] and getattr(self, "_raw", None) != body.id:
                t = self.closure_param(body, l, depth, st2)
                if t is not None:
                    t = self.apply(body, t, projs, at, depth, st2)
            if t is None:
                if 1 <= l <= body.argc:
                    t = self.apply(body, ("param", body.id, l), projs, at, depth, st2)
                elif not res:
                    t = UNK
            if t is not None:
                res.append(t)
        r = phi(res) if res else UNK
        if any(x[0] == "agg" and x[3] for x in alts(r)):
            r = self.overlaid(body, l, projs, at, depth, st2, r)
        if tsize(r, self.maxsize + 1) > self.maxsize:
            r = ("big",)
        if not stack:
            self._opmemo[key] = r
        return r

    def overlaid(self, body, l, projs, at, depth, stack, r):
        """struct value r of place l.projs with the fields that were assigned one by one after it was built"""
        n = len(projs)
        fields = set()
        for d in body.defs().get(l, []):
            dp = tuple(p for p in d[2] if p != "*")
            if len(dp) == n + 1 and dp[:n] == tuple(projs) and dp[n].startswith(".") and "*" not in d[2]:
                fields.add(dp[n])
        for f in sorted(fields):
            v = self.local(body, l, tuple(projs) + (f,), at, depth, stack)
            nm = f[1:]
            if v[0] in ("?", "big", "loop"):
                continue
            out = []
            for x in alts(r):
                if x[0] == "agg" and nm in x[3] and x[2][x[3].index(nm)] != v:
                    i = x[3].index(nm)
                    x = ("agg", x[1], x[2][:i] + (v,) + x[2][i + 1:]) + tuple(x[3:])
                out.append(x)
            r = phi(out)
        return r

    def reaching(self, body, l, projs, at):
        """definitions of local l (prefix-compatible with projs) reaching point at=(bb, idx)"""
        defs = {}
        projs = tuple(p.split("@")[0] + "]" if p[0] == "[" and "@" in p else p for p in projs)
        for d in body.defs().get(l, []):
            dp = tuple(p for p in d[2] if p != "*")
            # a write through a reference held in l (e.g. *l = v) with no other projection on a reference local
            if dp == projs[: len(dp)]:
                defs.setdefault(d[0], []).append((d[1], dp, d))
        found, seen = [], set()
        entry = False
        st = [(at[0], at[1])]
        first = True
        while st:
            bb, idx = st.pop()
            cands = [x for x in defs.get(bb, []) if idx is None or x[0] < idx]
            if cands:
                x = max(cands, key=lambda y: y[0])
                d = x[2]
                found.append((d[0], d[1], x[1], d[3], d[4]))
                continue
            if bb == 0:
                entry = True
            for p in body.preds(bb):
                if p not in seen:
                    seen.add(p)
                    st.append((p, None))
        # dedupe
        uniq, k = [], set()
        for f in found:
            if (f[0], f[1]) not in k:
                k.add((f[0], f[1]))
                uniq.append(f)
        return uniq, entry

    def rv(self, body, r, at, depth, stack, rest=()):
        k = r[0]
        if k in ("use", "rep"):
            o = r[1]
            if o[0] in ("c", "m"):
                l, p = place(o[1])
                p = at_use(p, at)
                return self.local(body, l, p + tuple(rest), at, depth, stack)
            return self.apply(body, self.op(body, o, at, depth, stack), rest, at, depth, stack)
        if k == "ref":
            l, p = place(r[2])
            p = at_use(p, at)
            return self.local(body, l, p + tuple(rest), at, depth, stack)
        if k == "cast":
            t = self.op(body, r[2], at, depth, stack)
            if r[1] in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                t = ("cast", body.tys[r[3]], t)
            return self.apply(body, t, rest, at, depth, stack)
        if k == "bin":
            t = ("bin", r[1].replace("WithOverflow", ""), self.op(body, r[2], at, depth, stack), self.op(body, r[3], at, depth, stack))
            if r[1].endswith("WithOverflow"):
                if rest and rest[0] == ".0":
                    return self.apply(body, t, rest[1:], at, depth, stack)
            return self.apply(body, t, rest, at, depth, stack)
        if k == "un":
            return ("un", r[1], self.op(body, r[2], at, depth, stack))
        if k == "disc":
            t = self.pl(body, r[1], at, depth, stack)
            return ("disc", ("flip", t) if self.flipped(body, r[1]) else t)
        if k == "agg":
            if rest and rest[0].startswith("."):
                # evaluate only the needed component
                nm = rest[0][1:]
                ix = r[3].index(nm) if nm in r[3] else (int(nm) if nm.isdigit() else -1)
                if 0 <= ix < len(r[2]):
                    o = r[2][ix]
                    if o[0] in ("c", "m"):
                        l, p = place(o[1])
                        p = at_use(p, at)
                        return self.local(body, l, p + tuple(rest[1:]), at, depth, stack)
                    return self.apply(body, self.op(body, o, at, depth, stack), rest[1:], at, depth, stack)
            args = tuple(self.op(body, o, at, depth, stack) for o in r[2])
            return self.apply(body, ("agg", r[1], args, tuple(r[3])), rest, at, depth, stack)
        return UNK

    def call(self, body, bb, t, depth, stack):
        from .core import Call
        c = Call(body, bb, t)
        at = (bb, len(body.blocks[bb]["s"]))
        return self.callterm(c, at, depth, stack)

    def callterm(self, c, at, depth=0, stack=()):
        body = c.body
        if c.fid is None:
            f = self.op(body, c.op, at, depth, stack)
            args = tuple(self.op(body, a, at, depth, stack) for a in c.args)
            return ("call", "<indirect>", (f,) + args, (body.id, c.bb))
        name = c.name
        targets = self.F.targets(c)
        ws = bool(targets)
        lazy_id = not ws and self.ident.search(c.fid) and not NOT_IDENT.search(c.fid + " " + name)
        if lazy_id and c.args:
            return self.op(body, c.args[0], at, depth, stack)
        if not ws and OK.search(c.fid) and c.args:
            x = self.op(body, c.args[0], at, depth, stack)
            if c.fid.endswith("future::Future::poll"):
                return ("poll", x)          # Ready.0 does the await
            if c.fid.endswith("Try::branch"):
                return x
            m = c.fid.rsplit("::", 1)[1]
            if len(c.args) == 2 and m in ("unwrap_or", "unwrap_or_else"):
                d = self.op(body, c.args[1], at, depth, stack)
                if m == "unwrap_or_else":
                    d = self.apply_closure(d, [("err", x)], depth + 1)
                return self.ok(x, depth) if d is None else phi([self.ok(x, depth), d])
            return self.ok(x, depth)
        if not ws and c.fid.endswith("box_assume_init_into_vec_unsafe") and c.args and c.args[0][0] in "mc":
            arr = self.boxed_array(body, c.args[0][1], depth, stack)
            if arr is not None:
                return ("call", "alloc::slice::into_vec", (arr,), (body.id, c.bb))
        args = tuple(self.op(body, a, at, depth, stack) for a in c.args)
        if not ws and len(args) == 2 and re.search(r"ops::index::Index(Mut)?::index(_mut)?$", c.fid):
            return ("idx", args[0], args[1])
        if ws and len(targets) == 1 and self.inline and depth < self.maxdepth and not (self.no_inline and self.no_inline.search(targets[0])):
            r = self.ret_term(targets[0], depth + 1)
            if r is not None:
                if r[0] == "agg" and (r[1].startswith("coroutine:")):
                    pass
                s = self.subst(r, targets[0], args)
                if s[0] not in ("?", "big", "loop") and (self.phi_inline or s[0] != "phi"):
                    return s
        if ws and self.ident.search(c.fid) and re.search(r"::(clone|deref|deref_mut|as_ref|borrow)$", c.fid) and args:
            return args[0]
        return ("call", name, args, (body.id, c.bb))

    def boxed_array(self, body, ps, depth, stack):
        """the array stored into the box behind vec![..]"""
        l, p = place(ps)
        for _ in range(4):
            ds = body.defs().get(l, [])
            st = [d for d in ds if d[2] and d[2][0] == "*" and d[3] == "=" and d[4][0] == "agg"]
            if len(st) == 1:
                bb, idx, dp, kind, pay = st[0]
                return self.rv(body, pay, (bb, idx), depth, stack)
            mv = [d for d in ds if not d[2] and d[3] == "=" and d[4][0] == "use" and d[4][1][0] in "mc"]
            if len(mv) != 1:
                return None
            l, p = place(mv[0][4][1][1])
            if p:
                return None
        return None

    def ok(self, t, depth=0):
        """mk_ok that looks through map() with a known closure"""
        if t[0] == "call" and len(t[2]) == 2 and t[2][1][0] in ("agg", "fn") and depth < self.maxdepth and MAPF.search(t[1]):
            r = self.apply_closure(t[2][1], [self.ok(t[2][0], depth + 1)], depth + 1)
            if r is not None:
                return r
        if t[0] == "call" and t[2] and FILTF.search(t[1]):
            return self.ok(t[2][0], depth + 1)
        if t[0] == "call" and len(t[2]) == 2 and re.search(r"bool>?::then$", t[1]) and depth < self.maxdepth:
            r = self.apply_closure(t[2][1], [], depth + 1)
            if r is not None:
                return r
        if t[0] == "phi" and any(x[0] == "call" and (MAPF.search(x[1]) or FILTF.search(x[1])) for x in t[1]):
            return phi([self.ok(x, depth) for x in t[1]])
        return mk_ok(t)

    def apply_closure(self, cl, args, depth=0):
        """result term of calling closure (or fn item) term cl"""
        if cl[0] == "fn":
            if self.F.has(cl[1]):
                r = self.ret_term(cl[1], depth)
                if r is not None and r[0] not in ("?", "big", "loop"):
                    r = self.subst(r, cl[1], args)
                    return r
            return ("call", cl[1], tuple(args), None)
        if cl[0] != "agg" or not cl[1].startswith("closure:"):
            return None
        cid = cl[1].split(":", 1)[1]
        r = self.ret_term(cid, depth, raw_upvars=True)
        if r is None or r[0] in ("?", "big", "loop"):
            return None
        r = self.subst(self.subst_up(r, cid, cl[2]), cid, [("self",)] + list(args))
        return None if r[0] in ("?", "big", "loop") else r

    def awaited(self, t, depth=0, stack=()):
        """the output of awaiting future term t"""
        if t[0] == "phi":
            return phi([self.awaited(x, depth, stack) for x in t[1]])
        if t[0] == "agg" and t[1].startswith("coroutine:"):
            cid = t[1].split(":", 1)[1]
            if depth < self.maxdepth and not (self.no_inline and self.no_inline.search(cid)):
                r = self.ret_term(cid, depth + 1, raw_upvars=True)
                if r is not None:
                    s = self.subst_up(r, cid, t[2])
                    if s[0] not in ("?", "big", "loop") and (self.phi_inline or s[0] != "phi"):
                        return s
            return ("await", t)
        if t[0] == "call":
            return ("await", t)
        return ("await", t)

    def ret_term(self, fid, depth=0, raw_upvars=False):
        key = (fid, raw_upvars)
        if key in self.ret:
            return self.ret[key]
        if key in self.prog:
            return None
        b = self.F.get(fid)
        if b is None or b.tainted or len(b.blocks) > 900:
            return None
        self.prog.add(key)
        try:
            old = getattr(self, "_raw", None)
            self._raw = fid if raw_upvars else None
            rs = []
            for rb in b.ret_blocks():
                rs.append(self.local(b, 0, (), (rb, len(b.blocks[rb]["s"])), depth, ((fid, "ret"),)))
            r = phi(rs) if rs else ("never",)
            self._raw = old
        finally:
            self.prog.discard(key)
        self.ret[key] = r
        return r

    def upvar(self, body, n, depth, stack):
        if getattr(self, "_raw", None) == body.id:
            return ("up", body.id, int(n)) if n.isdigit() else UNK
        # find creation site in lexical parent
        site = self.closure_site(body)
        if site is None or not n.isdigit():
            return ("up", body.id, int(n) if n.isdigit() else -1)
        pb, bb, idx, ops = site
        if int(n) >= len(ops):
            return UNK
        return self.op(pb, ops[int(n)], (bb, idx), depth, stack)

    def closure_param(self, body, l, depth, stack):
        """value bound to a closure's parameter when the closure is handed to a std combinator"""
        use = self.closure_use(body)
        if use is None:
            return None
        c, i = use
        f = c.fid or ""
        at = (c.bb, len(c.body.blocks[c.bb]["s"]))
        if l == 2 and re.search(r"(option::Option|result::Result)::(map|and_then|inspect|map_or|map_or_else|is_some_and|is_ok_and|filter)$", f):
            return self.ok(self.op(c.body, c.args[0], at, depth, stack))
        if l == 2 and re.search(r"result::Result::(map_err|or_else|unwrap_or_else|inspect_err)$", f):
            return ("err", self.op(c.body, c.args[0], at, depth, stack))
        if l == 2 and re.search(r"iterator::Iterator::(map|for_each|filter|filter_map|flat_map|find|find_map|any|all|position|take_while|skip_while|try_for_each|inspect|partition|max_by_key|min_by_key|map_while)$", f):
            return self.ok(self.op(c.body, c.args[0], at, depth, stack))
        if re.search(r"iterator::Iterator::(fold|try_fold)$", f) and l == 3:
            return self.ok(self.op(c.body, c.args[0], at, depth, stack))
        if re.search(r"LocalKey::(with|with_borrow_mut|with_borrow)$", f) and l == 2:
            return self.op(c.body, c.args[0], at, depth, stack)
        if re.search(r"::(retain|retain_mut)$", f):
            x = self.ok(self.op(c.body, c.args[0], at, depth, stack))
            return x if body.argc == 2 else getf(x, str(l - 2))
        return None

    def closure_site(self, body):
        if body.id in self._site:
            return self._site[body.id]
        r = None
        pid = body.id.rsplit("::{", 1)[0]
        pb = self.F.get(pid)
        if pb:
            for bb in pb.reachable():
                for j, s in enumerate(pb.blocks[bb]["s"]):
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].endswith(":" + body.id):
                        r = (pb, bb, j, s[2][2])
        self._site[body.id] = r
        return r

    def closure_use(self, body):
        """the call that receives this closure as an argument: (Call, arg index) or None"""
        site = self.closure_site(body)
        if site is None:
            return None
        pb, bb, idx, _ = site
        l, p = place(pb.blocks[bb]["s"][idx][1])
        # follow copies forward
        tr = {l}
        changed = True
        while changed:
            changed = False
            for d, lst in pb.defs().items():
                for (b2, j, dp, kind, pay) in lst:
                    if kind == "=" and pay[0] in ("use", "ref", "cast"):
                        q = pay[2] if pay[0] == "ref" else op_place(pay[1] if pay[0] == "use" else pay[2])
                        if q and place(q)[0] in tr and d not in tr:
                            tr.add(d)
                            changed = True
        for c in pb.calls():
            for i, a in enumerate(c.args):
                q = op_place(a)
                if q and place(q)[0] in tr:
                    return c, i
        return None

    # ---- substitution ----------------------------------------------------
    def subst(self, t, fid, args):
        memo = {}

        def go(x):
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            if not isinstance(x, tuple):
                return x
            if not x:
                return x
            if x in memo:
                return memo[x]
            h = x[0]
            if h == "param" and x[1] == fid:
                r = args[x[2] - 1] if x[2] - 1 < len(args) else UNK
            elif h in ("k", "fn", "?", "big", "loop", "never"):
                r = x
            elif h == "fld":
                b = go(x[2])
                if "." in x[1]:
                    v, f = x[1].split(".", 1)
                    r = self._variant(b, v, f)
                else:
                    r = getf(b, x[1])
            elif h == "ok":
                r = mk_ok(go(x[1]))
            elif h == "await":
                r = self.awaited(go(x[1]))
            elif h == "phi":
                r = phi([go(y) for y in x[1]])
            elif h == "agg":
                r = ("agg", x[1], tuple(go(y) for y in x[2]), x[3])
            elif h == "call":
                r = ("call", x[1], tuple(go(y) for y in x[2]), x[3])
            else:
                r = tuple(go(y) if isinstance(y, (tuple, frozenset)) else y for y in x)
            memo[x] = r
            return r

        return go(t)

    def subst_up(self, t, cid, ops):
        memo = {}

        def go(x):
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            if not isinstance(x, tuple) or not x:
                return x
            if x in memo:
                return memo[x]
            h = x[0]
            if h == "up" and x[1] == cid:
                r = ops[x[2]] if 0 <= x[2] < len(ops) else UNK
            elif h in ("k", "fn", "?", "big", "loop", "never", "param"):
                r = x
            elif h == "fld":
                b = go(x[2])
                if "." in x[1]:
                    v, f = x[1].split(".", 1)
                    r = self._variant(b, v, f)
                else:
                    r = getf(b, x[1])
            elif h == "ok":
                r = mk_ok(go(x[1]))
            elif h == "await":
                r = self.awaited(go(x[1]))
            elif h == "phi":
                r = phi([go(y) for y in x[1]])
            else:
                r = tuple(go(y) if isinstance(y, (tuple, frozenset)) else y for y in x)
            memo[x] = r
            return r

        return go(t)

    # ---- convenience -------------------------------------------------------
    def arg(self, call, i):
        return self.op(call.body, call.args[i], (call.bb, len(call.body.blocks[call.bb]["s"])))

    def args(self, call):
        return [self.arg(call, i) for i in range(len(call.args))]

    def stmt_op(self, body, bb, idx, o):
        return self.op(body, o, (bb, idx))

    def guards(self, body, bb):
        """branch conditions that hold whenever bb is reached: [(term, ('eq', v) | ('ne', [vs]))]"""
        out = []
        for s in sorted(body.reachable()):
            t = body.blocks[s]["t"]
            if t[0] != "switch" or s == bb:
                continue
            edges = {}
            for v, d in t[2]:
                edges.setdefault(d, []).append(v)
            edges.setdefault(t[3], []).append(None)
            for d, vs in edges.items():
                if d not in body.succs(s):
                    continue
                if self._all_through(body, bb, s, d):
                    term = self.op(body, t[1], (s, len(body.blocks[s]["s"])))
                    if None in vs:
                        out.append((term, ("ne", tuple(v for v, x in t[2] if x != d)), s))
                    else:
                        out.append((term, ("eq", tuple(vs)), s))
        return out

    def _all_through(self, body, bb, s, d):
        """every path entry->bb uses edge s->d (and d is only entered usefully from s)"""
        seen, st = set(), [0]
        if bb == 0:
            return False
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in body.succs(x):
                if x == s and y == d:
                    continue
                if y == bb:
                    return False
                st.append(y)
        # reachable at all through the edge?
        return True


def show(t, d=0):
    if d > 12:
        return "…"
    if not isinstance(t, tuple):
        return str(t)
    h = t[0]
    if h == "param":
        return f"{t[1].rsplit('::',1)[-1]}#{t[2]}"
    if h == "k":
        return t[2] and t[2].rsplit("::", 1)[-1] or t[1]
    if h == "fn":
        return "fn " + t[1]
    if h == "call":
        return f"{t[1].rsplit('::', 2)[-2] if '::' in t[1] else ''}::{t[1].rsplit('::',1)[-1]}(" + ", ".join(show(x, d + 1) for x in t[2]) + ")"
    if h == "fld":
        return f"{show(t[2], d+1)}.{t[1]}"
    if h == "agg":
        nm = t[1].rsplit('::', 1)[-1] if "#" not in t[1] else re.sub(r"^(closure|coroutine):(.*::)?(\w+(?:::\{\w+#\d+\})+)$", r"\3", t[1])
        return f"{nm}{{" + ", ".join(show(x, d + 1) for x in t[2]) + "}"
    if h == "bin":
        return f"({show(t[2], d+1)} {t[1]} {show(t[3], d+1)})"
    if h == "phi":
        return "phi(" + " | ".join(sorted(show(x, d + 1) for x in t[1])) + ")"
    if h == "up":
        return f"up{t[2]}@{t[1]}"
    return h + "(" + ", ".join(show(x, d + 1) for x in t[1:]) + ")"
