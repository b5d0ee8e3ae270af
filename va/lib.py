"""Shared rule pieces."""
import re
from .cond import TRUE, FALSE, konst, show_dnf, dominated, precedes
from .terms import walk, show, alts
from .core import place

LOCK = re.compile(r"(lock_api|parking_lot|std::sync|tokio::sync).*(Mutex|RwLock)(<.*>)?::(lock|read|write|try_lock|try_read|try_write|upgradable_read|lock_arc|blocking_lock|lock_owned|read_owned|write_owned)$")
MAPINS = re.compile(r"(BTreeMap|HashMap|BTreeSet|HashSet|DashMap)(<.*>)?::(insert|try_insert)$")
MAPGET = re.compile(r"(BTreeMap|HashMap|DashMap|BTreeSet|HashSet)(<.*>)?::(get|get_mut|contains_key|contains|get_key_value)$")
ENTRY = re.compile(r"(BTreeMap|HashMap|DashMap)(<.*>)?::entry$")
ORINS = re.compile(r"Entry(<.*>)?::(or_insert|or_insert_with|or_insert_with_key|or_default)$")
VACINS = re.compile(r"VacantEntry(<.*>)?::insert(_entry)?$")


def is_lock(c):
    return bool(LOCK.search(c.fid or "") or LOCK.search(c.name))


def has(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, sub):
    return any(x == sub for x in walk(t))


def lits(dnf):
    for cj in dnf:
        for l in cj:
            yield l


def forced(dnf, pred):
    """a literal satisfying pred is in every conjunct"""
    return bool(dnf) and all(any(pred(*l) for l in cj) for cj in dnf)


def get_or_create(R, C, b, tag, what, key=None):
    """look-up and insert happen in one critical section, and what is returned is what is stored"""
    locks = C.sites(b, is_lock)
    clash = [(x[0].where, y[0].where) for i, x in enumerate(locks) for y in locks[i + 1:] if C.conj(x[2], y[2])]
    R.check(bool(locks) and not clash, f"one-section:{tag}", b.relfile, f"{what}: look-up and creation are one critical section",
            f"{what}: the lock is taken at {clash or 'no site'} on one path, another caller can create in between")
    ins = C.sites(b, lambda c: MAPINS.search(c.fid or "") or VACINS.search(c.fid or "") or ORINS.search(c.fid or ""))
    R.check(bool(ins), f"stored:{tag}", b.relfile, f"{what}: a new entry is stored")
    rets = C.full_cases(b)
    for c, a, cd in ins:
        nm = c.fid
        if ORINS.search(nm):
            R.ok(f"absent:{tag}", c.where, f"{what}: created only when absent (entry API)")
            val, keyt = None, None
        elif VACINS.search(nm):
            R.ok(f"absent:{tag}", c.where, f"{what}: created only when absent (entry API)")
            val = a[1]
            keyt = next((x[2][1] for x in walk(a[0]) if x[0] == "call" and ENTRY.search(x[1])), None)
        else:
            def absent(t, vs, pos, m=a[0], k=a[1]):
                if t[0] == "disc" and t[1][0] == "call" and MAPGET.search(t[1][1]) and t[1][2][0] == m and t[1][2][1] == k:
                    return ("0" in vs) == pos
                if t[0] == "call" and MAPGET.search(t[1]) and t[2][0] == m and t[2][1] == k:
                    return not pos
                return False
            R.check(forced(cd, absent), f"absent:{tag}", c.where, f"{what}: created only when absent", f"{what}: an entry is stored when {show_dnf(cd)[:200]}")
            val, keyt = a[2] if len(a) > 2 else None, a[1]
        if key is not None and keyt is not None:
            R.check(key(keyt), f"key:{tag}", c.where, f"{what}: stored under the requested key", f"{what}: stored under {show(keyt)[:120]}")
        if val is not None:
            for rc, rt in rets:
                if C.conj(rc, cd) and not has(rt, lambda x: x[0] == "call" and (MAPGET.search(x[1]) or "OccupiedEntry" in x[1])):
                    R.check(rt == val or mentions(rt, val) or mentions(val, rt) or has(rt, lambda x: x[0] == "call" and VACINS.search(x[1])), f"same:{tag}", c.where, f"{what}: the caller gets the stored object",
                            f"{what}: returns {show(rt)[:120]} but stores {show(val)[:120]}")
    return ins


def single_shot(body, bb):
    """block bb executes at most once per call"""
    return not precedes(body, bb, bb)


def closure_true(C, cid):
    """DNF under which the bool closure returns true"""
    b = C.F.get(cid)
    out = FALSE
    for cd, t in C.ret_cases(b):
        out = C.disj(out, C.conj(cd, C.norm(t, ["1"], True)))
    return out


def closure_id(t):
    """closure id of an aggregate closure term"""
    if t[0] == "agg" and t[1].startswith("closure:"):
        return t[1].split(":", 1)[1]
    if t[0] == "fn":
        return t[1]
    return None


def fmt_pieces(t):
    """format_args term -> list of literal strings and argument terms (Display/Debug args), or None"""
    for x in walk(t):
        if x[0] == "call" and re.search(r"fmt::Arguments(<.*>)?::(new|new_const|new_v1|new_v1_formatted|from_str)$", x[1]):
            s = konst(x[2][0]) if x[2] else None
            raw = str(x[2][0][1]) if x[2] and x[2][0][0] == "k" else None
            if raw is None:
                return None
            if raw.startswith('b"'):
                try:
                    data = eval(raw)
                except Exception:
                    return None
                args = [y for y in (x[2][1][2] if len(x[2]) > 1 and x[2][1][0] == "agg" else ())]
                out, i, k = [], 0, 0
                while i < len(data):
                    c = data[i]
                    if c == 0:
                        break
                    if c < 0x80:
                        out.append(data[i + 1: i + 1 + c].decode("utf-8", "replace"))
                        i += 1 + c
                    elif c == 0x80:
                        n = data[i + 1] | data[i + 2] << 8
                        out.append(data[i + 3: i + 3 + n].decode("utf-8", "replace"))
                        i += 3 + n
                    else:
                        if c == 0xC0:
                            i += 1
                        else:
                            return None
                        a = args[k] if k < len(args) else None
                        k += 1
                        out.append(a[2][0] if a is not None and a[0] == "call" else a)
                return out
            if raw.startswith('"'):
                return [raw[1:-1]]
    return None


def canon(t, subs=(), unsigned=False):
    """call-site identities removed, (old, new) replaced: for comparing terms of two functions;
    unsigned: shifts and masks by powers of two are written as division, multiplication and remainder"""
    memo = {}
    subs = dict(subs)

    def go(x):
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        if not isinstance(x, tuple) or not x:
            return x
        if x in memo:
            return memo[x]
        if x in subs:
            r = subs[x]
        elif x[0] == "call":
            r = ("call", x[1], tuple(go(y) for y in x[2]), None)
        elif x[0] == "k" and unsigned and konst(x) is not None:
            r = ("k", str(konst(x)), "", str(konst(x)))
        elif x[0] in ("k", "fn", "param"):
            r = x
        elif x[0] == "bin" and unsigned:
            op, a, b = x[1], go(x[2]), go(x[3])
            kb = konst(b)
            num = lambda n: ("k", str(n), "", str(n))
            if isinstance(kb, int) and not isinstance(kb, bool):
                if op in ("Shr", "Shl") and 0 <= kb < 64:
                    op, b = ("Div" if op == "Shr" else "Mul"), num(1 << kb)
                elif op == "BitAnd" and kb >= 0 and (kb & (kb + 1)) == 0:
                    op, b = "Rem", num(kb + 1)
            r = ("bin", op, a, b)
        else:
            r = tuple(go(y) if isinstance(y, (tuple, frozenset)) else y for y in x)
        memo[x] = r
        return r
    return go(t)


def deref_stores(C, b):
    """stores through a dereferenced local: (bb, idx, target term, value term)"""
    out = []
    for bb in b.reachable():
        for i, st in enumerate(b.blocks[bb]["s"]):
            if st[0] == "=":
                l, p = place(st[1])
                if tuple(p) == ("*",):
                    out.append((bb, i, C.T.local(b, l, (), (bb, i)), C.T.rv(b, st[2], (bb, i), 0, ())))
    return out


def ev_before(F, x, y):
    """event chains (bodies and blocks from a common root): x happens before y whenever both happen in one pass"""
    for (f1, b1), (f2, b2) in zip(x, y):
        if f1 != f2:
            return None
        if b1 != b2:
            b = F.get(f1)
            return precedes(b, b1, b2) and not (precedes(b, b2, b1) and not dominated(b, b2, [b1]))
    return None


def in_order(F, evs):
    """events (payload, terms, cond, chain) sorted by ev_before; None when two are not ordered"""
    out = []
    for e in evs:
        i = 0
        while i < len(out):
            r = ev_before(F, e[3], out[i][3])
            if r:
                break
            if r is None or not ev_before(F, out[i][3], e[3]):
                return None
            i += 1
        out.insert(i, e)
    return out


def call_events(C, b, pred):
    def local(x):
        return [(c, c.bb, lambda c=c: C.T.args(c)) for c in x.calls() if pred(c)]
    return C.events(b, local, pred=pred)


def be(t):
    """big-endian bytes of an integer term (through casts of the same value), or None"""
    if t[0] == "call" and re.search(r"::to_be_bytes$", t[1]):
        return t[2][0]
    return None


def frombe(t):
    if t[0] == "call" and re.search(r"::from_be_bytes$", t[1]):
        return t[2][0]
    return None


def slice_of(t):
    """idx(base, start..end) -> (base, start term or None, end term or None)"""
    if t[0] == "idx" and t[2][0] == "agg":
        n, ops = t[2][1], t[2][2]
        if n.endswith("::Range"):
            return t[1], ops[0], ops[1]
        if n.endswith("::RangeFrom"):
            return t[1], ops[0], None
        if n.endswith("::RangeTo"):
            return t[1], None, ops[0]
        if n.endswith("::RangeFull"):
            return t[1], None, None
    return None


def is_err(t):
    return t[0] == "err" or (t[0] == "agg" and t[1].endswith("Result::Err")) or (t[0] == "agg" and t[1].endswith("::Err"))


def each_of(t, src):
    """t is an element of src (loop item), whatever reference layers are around it"""
    if t[0] == "idx" and t[1] == src:
        return counted(t[2], src)
    return t[0] == "ok" and (t[1] == src or mentions(t[1], src))


def counted(i, src):
    """i runs over 0..src.len()"""
    if i[0] != "ok":
        return False
    r = i[1]
    if r[0] != "agg" or not r[1].endswith("::Range"):
        return False
    return konst(r[2][0]) == 0 and r[2][1][0] == "call" and r[2][1][1].endswith("::len") and r[2][1][2][0] == src


class Counted:
    """a `while i < hi { ..; i += 1 }` loop: head block of the test, block entered when it holds, the counter's term, its start and end"""
    def __init__(self, body, bb, into, var, lo, hi):
        self.body, self.bb, self.into, self.var, self.lo, self.hi, self.dest = body, bb, into, var, lo, hi, "0"
        self.where = body.relfile


def counted_loops(C, b):
    out = []
    for bb in b.reachable():
        t = b.blocks[bb]["t"]
        if t[0] != "switch":
            continue
        v = C.T.op(b, t[1], (bb, len(b.blocks[bb]["s"])))
        if v[0] != "bin" or v[1] not in ("Lt", "Gt"):
            continue
        i, hi = (v[2], v[3]) if v[1] == "Lt" else (v[3], v[2])
        al = alts(i)
        if len(al) != 2:
            continue
        step = lambda x: x[2] if x[0] == "fld" and x[1] == "0" else x
        lo = [x for x in al if any(y is not x and step(y)[0] == "bin" and step(y)[1].startswith("Add") and konst(step(y)[3]) == 1 and (step(y)[2] == x or step(y)[2][0] == "loop") for y in al)]
        if len(lo) != 1:
            continue
        d = dict((x, y) for x, y in t[2])
        into = d.get("1", t[3])
        out.append(Counted(b, bb, into, i, lo[0], hi))
    return out


def iteration(flow, body, nxt):
    """one pass of the loop driven by the Iterator::next call `nxt`: events that are certain when the pass reaches the next
    element, and the events of every non-failing way out of the function from inside the pass (before the iterator is exhausted)"""
    from .okflow import TOP, St
    dl = place(nxt.dest)[0]
    inst, work = {}, []
    arrive, leave = [], []
    start = [nxt.into] if isinstance(nxt, Counted) else body.succs(nxt.bb)

    def push(bb, key, st):
        if bb == nxt.bb:
            if st.res.get(0, frozenset()) is not TOP:
                arrive.append(st.done)
            return
        k2 = ("F" if st.res.get(0, frozenset()) is TOP else "",) + tuple(key[1:])
        tgt = inst.setdefault(bb, {})
        if k2 in tgt:
            n, ch = tgt[k2].join(st)
        else:
            n, ch = st, True
        if ch:
            tgt[k2] = n
            work.append(bb)
    for s in start:
        push(s, flow.key0(), St())
    n = 0
    while work and n < 40000:
        n += 1
        bb = work.pop(0)
        for key, st in list(inst[bb].items()):
            t = body.blocks[bb]["t"]
            if t[0] == "ret":
                e = flow.exit_events(body, bb, key, st)
                leave.append(e)
                continue
            none_edge = None
            if t[0] == "switch" and not isinstance(nxt, Counted):
                for s in body.blocks[bb]["s"]:
                    if s[0] == "=" and s[2][0] == "disc" and place(s[2][1]) == (dl, []) or s[0] == "=" and s[2][0] == "disc" and place(s[2][1])[0] == dl and not [x for x in place(s[2][1])[1] if x != "*"]:
                        d = dict((v, x) for v, x in t[2])
                        none_edge = d.get("0", t[3] if "1" in d else None)
            for (succ, k2, s2) in flow.out_edges(body, bb, key, st):
                if none_edge is not None and succ == none_edge:
                    continue
                push(succ, k2, s2)
    return arrive, [e for e in leave if e is not TOP]


def every_item(R, F, fid, src, classify, events, key, what):
    """an OK return of fid means that each element of src went through the events"""
    from .okflow import OkFlow, TOP
    C = Cond0(F)
    fl = OkFlow(F, classify)
    isnext = lambda c: (c.fid or "").endswith("iterator::Iterator::next")
    iseach = lambda c: re.search(r"iterator::Iterator::(try_)?for_each$", c.fid or "") is not None
    fam = [F.get(fid)] + [F.get(x) for x in F.children(fid) if "coroutine" not in x]
    own = {b.id for b in fam if b is not None}
    sites = []
    for b in fam:
        if b is not None:
            sites += [(c, ()) for c in b.calls() if (isnext(c) or iseach(c)) and src(C.T.arg(c, 0))]
    if not sites:
        # the walk is in a helper: its own success must be that of the function
        for c, a, cd, ch in call_events(C, F.get(fid), lambda c: isnext(c) or iseach(c)):
            if c.body.id not in own and src(a[0]):
                sites.append((c, ch[:-1]))
    n = 0
    for c, outer in sites:
        n += 1
        it, cut = C.T.arg(c, 0), None
        while it[0] == "call" and it[2]:
            if re.search(r"::(filter|filter_map|skip|skip_while|take|take_while|map_while|step_by|truncate)$", it[1]):
                cut = it[1].split("::")[-1]
            it = it[2][0]
        R.check(cut is None, f"{key}:whole", c.where, f"{what}: all of them are walked", f"{what}: {cut} leaves some out")
        if iseach(c):
            cid = closure_id(C.T.arg(c, 1))
            sm = fl.summary(cid) if cid else frozenset()
            R.check(sm is TOP or set(events) <= sm, f"{key}:each", c.where, f"{what}: every element is handled before the next", f"{what}: an element can be passed over ({sorted(set(events) - sm) if sm is not TOP else ''})")
            continue
        arr, out = iteration(fl, c.body, c)
        ok = bool(arr) and all(e is TOP or set(events) <= e for e in arr)
        R.check(ok, f"{key}:each", c.where, f"{what}: every element is handled before the next", f"{what}: an element can be passed over ({[sorted(set(events) - e) for e in arr if e is not TOP and set(events) - e]})")
        R.check(not out, f"{key}:stop", c.where, f"{what}: the loop ends early only with an error", f"{what}: the loop can be left early with success")
        for bid, bb in outer:
            ob = F.get(bid)
            if ob is not None and ob.call_at(bb) is not None and re.search(r"Result<", ob.lty(int(ob.call_at(bb).dest)) if str(ob.call_at(bb).dest).isdigit() else ""):
                propagates(R, F, ob, lambda x: x.bb == bb and x.body.id == bid, f"{key}:helper", what)
    R.check(n >= 1, f"{key}:loop", F.get(fid).relfile, f"{what}: the elements are walked one by one")


def Cond0(F):
    from .cond import Cond
    return Cond(F)


def own_sites(C, b, pred):
    """sites within b itself (and its closures), not those of the functions it calls"""
    base = b.id.split("::{")[0]
    return [(c, a, cd) for c, a, cd, ch in call_events(C, b, pred) if all(f == base or f.startswith(base + "::{") for f, _ in ch)]


def discr(F, enum, name):
    """discriminant value (as text) of a variant of an enum named by the end of its path"""
    for k, it in F.items.items():
        if it["k"] == "enum" and (k == enum or k.endswith("::" + enum)):
            for v in it["variants"]:
                if v["name"] == name:
                    return str(v["discr"])
    return None


def ok_after(flow, body, call):
    """event sets of the non-failing ways out of the function (or round the loop back to the call) once `call` was made"""
    from .okflow import TOP, St
    inst, work, leave = {}, [], []

    def push(bb, key, st):
        if bb == call.bb:
            if st.res.get(0, frozenset()) is not TOP:
                leave.append(st.done)
            return
        k2 = ("F" if st.res.get(0, frozenset()) is TOP else "",) + tuple(key[1:])
        tgt = inst.setdefault(bb, {})
        n, ch = tgt[k2].join(st) if k2 in tgt else (st, True)
        if ch:
            tgt[k2] = n
            work.append(bb)
    for s, k, st in flow.out_edges(body, call.bb, flow.key0(), St()):
        push(s, k, st)
    n = 0
    while work and n < 40000:
        n += 1
        bb = work.pop(0)
        for key, st in list(inst[bb].items()):
            if body.blocks[bb]["t"][0] == "ret":
                leave.append(flow.exit_events(body, bb, key, st))
                continue
            for s, k, s2 in flow.out_edges(body, bb, key, st):
                push(s, k, s2)
    return [e for e in leave if e is not TOP]


def propagates(R, F, body, pred, key, what, shallow=True, _depth=0, deep=True):
    """once a call satisfying pred was made, the function goes on or returns OK only when it succeeded"""
    from .okflow import OkFlow
    # each call has an event of its own: a later success does not make up for an earlier failure
    fl = OkFlow(F, lambda c: {f"did{c.bb}" if c.body.id == body.id else "did"} if pred(c) else (), shallow=shallow)
    cs = [c for c in body.calls() if pred(c)]
    for c in cs:
        out = ok_after(fl, body, c)
        R.check(all(f"did{c.bb}" in e for e in out), key, c.where, f"{what}: a failure is returned", f"{what}: the function can succeed although {c.name.rsplit('::', 1)[-1]} failed")
    # helpers of the same file that make such calls: they return the failure, and so does their caller
    for c in body.calls():
        if deep and _depth < 2 and not pred(c):
            h = helper_of(F, body, c)
            if h is not None and makes(F, h, pred):
                in_h = propagates(R, F, h, pred, key, what, shallow, _depth + 1)
                if in_h:
                    propagates(R, F, body, lambda x: x.bb == c.bb, key, what, shallow, 9)
                    cs = cs + in_h
    return cs


def helper_of(F, body, c):
    """the body run by a call to a function of the same file, unless it is one the caller is nested in"""
    ts = F.targets(c)
    if len(ts) != 1 or ts[0] == body.id or body.id.startswith(ts[0] + "::{"):
        return None
    h = F.get(ts[0])
    if h is not None and F.get(h.id + "::{closure#0}") is not None and F.get(h.id + "::{closure#0}").co and not h.co:
        h = F.get(h.id + "::{closure#0}")
    if h is None or h.tainted or h.relfile != body.relfile or len(h.blocks) > 400:
        return None
    return h


def makes(F, h, pred, depth=0):
    for c in h.calls():
        if pred(c):
            return True
        if depth < 1:
            x = helper_of(F, h, c)
            if x is not None and makes(F, x, pred, depth + 1):
                return True
    return False


def rels(cj, isx, isy):
    """the orders of x and y that the literals of the conjunction leave open: a subset of '<=>'"""
    if not callable(isx):
        isx = (lambda v: lambda t: t == v)(isx)
    if not callable(isy):
        isy = (lambda v: lambda t: t == v)(isy)
    out = set("<=>")
    for t, v, p in cj:
        if t[0] != "bin" or t[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") or not (v <= {"0", "1"}) or len(v) != 1:
            continue
        truth = ("1" in v) == p
        s = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "=", "Ne": "<>"}[t[1]]
        s = set(s) if truth else set("<=>") - set(s)
        if isx(t[2]) and isy(t[3]):
            out &= s
        elif isy(t[2]) and isx(t[3]):
            out &= {{"<": ">", ">": "<", "=": "="}[q] for q in s}
    return out


def fmt_parts(t):
    """the pieces of a formatted string: literals, and (how, argument term, spec) for the placeholders; None if t is not one"""
    import ast
    while t[0] == "call" and re.search(r"(must_use|fmt::format|format_inner|Arguments::\w*to_\w+|ToString>?::to_string)$", t[1]) and len(t[2]) == 1:
        t = t[2][0]
    if t[0] != "call" or not re.search(r"Arguments(<.*>)?::(new|from_str)\w*$", t[1]):
        return None
    try:
        raw = ast.literal_eval(show(t[2][0]))
    except (ValueError, SyntaxError):
        return None
    if isinstance(raw, str):
        return [raw]
    args = list(t[2][1][2]) if len(t[2]) > 1 and t[2][1][0] == "agg" else []
    out, i, nxt = [], 0, 0
    while i < len(raw):
        n = raw[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(raw[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            k = raw[i] | raw[i + 1] << 8
            out.append(raw[i + 2:i + 2 + k].decode("utf8", "replace"))
            i += 2 + k
        else:
            spec = []
            for bit, sz in ((1, 4), (2, 2), (4, 2), (8, 2)):
                v = None
                if n & bit:
                    v = int.from_bytes(raw[i:i + sz], "little")
                    i += sz
                spec.append(v)
            ix = spec[3] if spec[3] is not None else nxt
            nxt = ix + 1
            if ix >= len(args):
                return None
            a = args[ix]
            if a[0] == "call" and re.search(r"Argument(<.*>)?::new_\w+$", a[1]):
                out.append((a[1].rsplit("new_", 1)[1], a[2][0], tuple(spec[:3])))
            else:
                return None
    return out



def moved_ops(x, out=None):
    """places moved from in an operand, an rvalue or an argument list"""
    out = [] if out is None else out
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "m" and isinstance(x[1], str):
            out.append(x[1])
        else:
            for y in x:
                moved_ops(y, out)
    return out


def live_drops(b, typat):
    """drops (outside clean-up blocks) of whole locals of a type when they may still hold a value: (block, local)"""
    rx = re.compile(typat)
    want = set()
    for bb in b.reachable():
        t = b.blocks[bb]["t"]
        if t[0] == "drop" and not b.blocks[bb].get("c") and str(t[1]).isdigit() and rx.search(b.lty(int(t[1]))):
            want.add(str(t[1]))
    out = []
    for l in sorted(want, key=int):
        ins = {}
        work = [(0, int(l) <= b.argc)]
        while work:
            bb, live = work.pop()
            if ins.get(bb) is True or ins.get(bb) is False and not live:
                continue
            ins[bb] = live
            for s in b.blocks[bb]["s"]:
                if s[0] == "=":
                    if l in moved_ops(s[2]):
                        live = False
                    if s[1] == l:
                        live = True
            t = b.blocks[bb]["t"]
            if t[0] == "drop" and str(t[1]) == l:
                live = False
            if t[0] == "call":
                if l in moved_ops(t[2]):
                    live = False
                if t[3] == l:
                    live = True
            for d in b.succs(bb):
                work.append((d, live))
        for bb, live in ins.items():
            t = b.blocks[bb]["t"]
            if t[0] == "drop" and str(t[1]) == l and not b.blocks[bb].get("c"):
                # value at the drop itself
                for s in b.blocks[bb]["s"]:
                    if s[0] == "=":
                        if l in moved_ops(s[2]):
                            live = False
                        if s[1] == l:
                            live = True
                if live:
                    out.append((bb, l))
    return out
