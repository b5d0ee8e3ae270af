"""Watchers of the metadata miss no change: the change log, what is read from it, and what a node makes of it."""
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L
from rules import c33
from rules.c33 import rend, call, strip, unok, tostr, plus_one

PKGS = ["meta"]
CRATES = ["meta", "models"]
RULE = """(1) Change log ring: append writes at the writer, moves it by one modulo the capacity and counts up to the capacity; oldest and newest
version are read at the writer (or 0) and before it; a start is searched backwards from the newest over count entries and is the first whose
version is not above the asked one; reading goes from behind the start up to the writer and keeps what the filter accepts. (2) The filter's
condition as DNF: rejections only for the three internal keys, other clusters and tenants not watched. (3) read_change_logs and process_watch:
what is answered, under which condition, and which version is carried on. (4) The client: for every key template the effects of
process_watch_data/_log specialised to that key shape and kind are compared with a table; watch versions stored; full sync; tenants added."""
CB = "meta::store::command::CircleBuf::"
WA = "meta::store::command::Watch::"
SM = "meta::store::storage::StateMachine::"
AM = "meta::model::meta_admin::AdminMeta::"
TM = "meta::model::meta_tenant::TenantMeta::"
ONE = ("ADD1",)


def P(f, n):
    return ("param", f, n)


def core_of(R, fid):
    b = R.body(fid)
    n = R.F.get(b.id + "::{closure#0}")
    return n if n is not None and n.co and not b.co else b


class Quiet:
    """the key templates are checked by C33; here they are only read"""
    def __getattr__(self, n):
        return lambda *a, **k: True


def run(R):
    F = R.F
    q = Quiet()
    q.__dict__["body"] = R.body
    keys = c33.templates(q, F)
    ring(R, F)
    filt(R, F)
    server(R, F)
    client(R, F, keys)


# ---------------------------------------------------------------- ring
def lit(cd, pred):
    return all(any(pred(*l) for l in cj) for cj in cd)


def truth(l):
    return ("1" in l[1]) == l[2] if l[1] <= {"0", "1"} and len(l[1]) == 1 else None


def eq_lit(l, x, y):
    """literal x == y: its truth, or None"""
    t = l[0]
    if t[0] == "bin" and t[1] in ("Eq", "Ne") and {t[2], t[3]} == {x, y}:
        v = truth(l)
        return None if v is None else v == (t[1] == "Eq")
    if t == x and y[0] == "k" and konst(y) is not None:
        return (str(konst(y)) in l[1]) == l[2] if l[1] == {str(konst(y))} else None
    return None


def kint(n):
    return lambda t: konst(t) == n


def isop(t, ops, a, k):
    if t[0] == "fld" and t[2][0] == "bin" and str(t[1]) == "0":
        t = t[2]
    return t[0] == "bin" and t[1] in ops and t[2] == a and konst(t[3]) == k


def minus_one(t, a):
    return isop(t, ("Sub", "SubWithOverflow", "SubUnchecked"), a, 1)


def add_one(t, a):
    return isop(t, ("Add", "AddWithOverflow", "AddUnchecked"), a, 1)


def zero_lit(l, x):
    t = l[0]
    if t[0] == "bin" and t[1] in ("Eq", "Ne") and (t[2] == x and konst(t[3]) == 0 or t[3] == x and konst(t[2]) == 0):
        v = truth(l)
        return None if v is None else v == (t[1] == "Eq")
    if t[0] == "bin" and t[1] == "Lt" and konst(t[2]) == 0 and t[3] == x:
        v = truth(l)
        return None if v is None else not v
    if t == x:
        return (l[1] == {"0"}) == l[2] if l[1] == {"0"} else None
    return None


def back_one(R, F, C, b, op, at, start, key, what, extra=lambda t: False):
    """op is start - 1 in the ring: capacity-1 when it is 0, start-1 otherwise"""
    me = P(b.id, 1)
    cap = ("fld", "capacity", me)
    got = set()
    for cd, t in C.cases(b, op, at):
        bases = [x for x in ([t[2]] if t[0] == "bin" else []) if start(x)]
        if t[0] == "bin" and t[1] == "Rem" and t[3] == cap:
            s = L.lin(t[2]) if False else t[2]
            ok = s[0] == "bin" and s[1].startswith(("Sub", "Add")) and any(start(x) for x in walk(s)) and any(x == cap for x in walk(s)) and any(konst(x) == 1 for x in walk(s))
            got |= {"wrap", "plain"} if ok else set()
            R.check(ok, key, b.relfile, what, show(t)[:100])
            continue
        if t[0] == "bin" and t[1].startswith("Sub") and konst(t[3]) == 1 and t[2][0] == "phi" and cap in t[2][1]:
            ok = all(x == cap or start(x) or x[0] == "loop" or minus_one_any(x) for x in t[2][1])
            got |= {"wrap", "plain"} if ok else set()
            R.check(ok, key, b.relfile, what, show(t)[:100])
            continue
        if minus_one(t, cap):
            got.add("wrap")
            R.check(lit(cd, lambda *l: any(zero_lit(l, x) is True for x in subs(l[0]) if start(x))), key, b.relfile, what + ": wraps around only from 0", show_dnf(cd)[:120])
        elif bases and minus_one(t, bases[0]):
            got.add("plain")
            R.check(lit(cd, lambda *l: any(zero_lit(l, x) is False for x in subs(l[0]) if start(x))), key, b.relfile, what + ": one back unless at 0", show_dnf(cd)[:120])
        else:
            R.check(False, key, b.relfile, what, show(t)[:100])
    R.check(got == {"wrap", "plain"}, key, b.relfile, what + ", around the end", str(sorted(got)))


def subs(t):
    return list(walk(t))


def index_call(b, field="buf"):
    return [c for c in b.calls() if re.search(r"::index$|::index_mut$|::get$|::get_unchecked$", c.name)]


def ring(R, F):
    C = Cond(F)
    # append
    b = R.body(CB + "append")
    me = P(b.id, 1)
    wr, cap, cnt = ("fld", "writer", me), ("fld", "capacity", me), ("fld", "count", me)
    stores = [(w, t, cd) for w, t, cd in ring_stores(C, b)]
    R.check(len(stores) == 1, "r-put", b.relfile, "a change is written once", str(len(stores)))
    for idx, val, cd in stores:
        R.check(idx == wr and val == P(b.id, 2) and all(not cj for cj in cd), "r-put", b.relfile, "at the writer, always", f"[{show(idx)}] = {show(val)[:60]} if {show_dnf(cd)[:80]}")
    w = C.writes(b, "writer")
    got = set()
    for p, a, cd in w:
        v = a[0]
        if v[0] == "bin" and v[1] == "Rem" and add_one(v[2], wr) and v[3] == cap:
            got |= {"inc", "wrap"} if all(not cj for cj in cd) else set()
        elif add_one(v, wr):
            c0 = all(not cj for cj in cd)
            c1 = lit(cd, lambda *l: at_end(l, wr, cap) is False)
            got.add("inc" if c0 or c1 else "?")
        elif konst(v) == 0:
            got.add("wrap" if lit(cd, lambda *l: at_end(l, wr, cap) is True) and all(len(cj) == 1 for cj in cd) else "?")
        else:
            got.add("?")
    R.check(got == {"inc", "wrap"}, "r-move", b.relfile, "the writer moves on by one, from the end to the start", str(sorted(got)))
    w = C.writes(b, "count")
    ok = False
    for p, a, cd in w:
        v = a[0]
        if add_one(v, cnt):
            ok = all(len(cj) == 1 and all(l[0][0] == "bin" and below(l, cnt, cap) for l in cj) for cj in cd)
        elif call(v, "min") and any(add_one(x, cnt) for x in v[2]) and cap in v[2]:
            ok = all(not cj for cj in cd)
    R.check(ok and len(w) == 1, "r-count", b.relfile, "entries are counted up to the capacity", "; ".join(f"{show(a[0])[:40]} if {show_dnf(cd)[:60]}" for p, a, cd in w))
    order = [(p[1], p[2]) for p, a, cd in C.writes(b, "writer")]
    # newest / oldest
    for n, some in (("max_version", "newest"), ("min_version", "oldest")):
        b = R.body(CB + n)
        me = P(b.id, 1)
        wr, cap, cnt = ("fld", "writer", me), ("fld", "capacity", me), ("fld", "count", me)
        for cd, t in C.ret_cases(b):
            if not cd:
                continue
            if t[0] == "agg" and t[1].endswith("::None"):
                R.check(lit(cd, lambda *l: zero_lit(l, cnt) is True or l[0][0] == "disc" and call(l[0][1], "get") and ("0" in l[1]) == l[2]), f"r-{n}", b.relfile, "there is no version only in an empty log", show_dnf(cd)[:100])
            elif t[0] == "agg" and t[1].endswith("::Some"):
                x = t[2][0]
                R.check(x[0] == "fld" and x[1] == "ver" and has(x, lambda y: y == ("fld", "buf", me)), f"r-{n}", b.relfile, f"the {some} entry's version", show(x)[:100])
            else:
                R.check(call(t, "then") or call(t, "map") or call(t, "then_some"), f"r-{n}", b.relfile, f"the {some} version", show(t)[:100])
        ix = index_call(b)
        if not R.check(len(ix) == 1, f"r-{n}", b.relfile, f"one entry is read for the {some}", str(len(ix))):
            continue
        c = ix[0]
        if n == "max_version":
            back_one(R, F, C, b, c.args[1], (c.bb, None), lambda x: x == wr, f"r-{n}", "the newest entry is the one before the writer")
        else:
            for cd, t in C.cases(b, c.args[1], (c.bb, None)):
                full = [eq_lit(l, cnt, cap) if eq_lit(l, cnt, cap) is not None else (not below(l, cnt, cap) if below(l, cnt, cap) is not None and l[0][0] == "bin" and l[0][1] == "Lt" else None) for cj in cd for l in cj]
                full = [x for x in full if x is not None]
                if t == wr:
                    R.check(full and all(full), f"r-{n}", b.relfile, "the oldest entry is at the writer when the log is full", show_dnf(cd)[:100])
                elif konst(t) == 0:
                    R.check(full and not any(full), f"r-{n}", b.relfile, "and at 0 while it is not", show_dnf(cd)[:100])
                else:
                    R.check(False, f"r-{n}", b.relfile, "the oldest entry", show(t)[:100])
    # find_index
    b = R.body(CB + "find_index")
    me, ver = P(b.id, 1), P(b.id, 2)
    wr, cap, cnt = ("fld", "writer", me), ("fld", "capacity", me), ("fld", "count", me)
    start = lambda x: x == wr or x[0] == "phi" and wr in x[1] and all(y == wr or minus_one(y, cap) or minus_one_any(y) for y in x[1])
    ix = index_call(b)
    R.check(len(ix) == 1, "f-read", b.relfile, "one entry is looked at in each step", str(len(ix)))
    for c in ix:
        back_one(R, F, C, b, c.args[1], (c.bb, None), start, "f-step", "the search goes back one entry at a time, from the newest")
    neg, pos = [], []
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        k = konst(t)
        if isinstance(k, int):
            neg.append((cd, k))
        else:
            pos.append((cd, t))
    R.check(neg and all(k < 0 for cd, k in neg), "f-none", b.relfile, "no start is a negative answer", str([k for cd, k in neg]))
    R.check(len(pos) == 1, "f-found", b.relfile, "an entry is the start in one case", str(len(pos)))
    for cd, t in pos:
        R.check(lit(cd, lambda *l: l[0][0] == "bin" and le(l, lambda x: has(x, lambda y: y == ("fld", "buf", me)) and x[0] == "fld" and x[1] == "ver", lambda x: x == ver)), "f-found", b.relfile, "the start is the first entry not above the asked version", show_dnf(cd)[:200])
        rng = [l[0] for cj in cd for l in cj if l[0][0] == "disc" and has(l[0], lambda y: y[0] == "agg" and y[1].endswith("Range"))]
        for t2 in rng:
            r = [y for y in walk(t2) if y[0] == "agg" and y[1].endswith("Range")][0]
            R.check(konst(r[2][0]) == 0 and r[2][1] == cnt, "f-all", b.relfile, "all counted entries are searched", show(r)[:60])
        if not rng:
            rng = [k for k in counted_loops(C, b) if konst(k.lo) == 0 and k.hi == cnt and any(has(l[0], lambda y: y == k.var) for cj in cd for l in cj)]
        R.check(rng, "f-all", b.relfile, "all counted entries are searched")
    R.check(any(C.loop_of(b, c.bb) for c in ix), "f-loop", b.relfile, "the search is a loop")
    # read_entrys
    b = R.body(CB + "read_entrys")
    me = P(b.id, 1)
    wr, cap = ("fld", "writer", me), ("fld", "capacity", me)
    fl, i0 = P(b.id, 2), P(b.id, 3)
    nxt = lambda t: t[0] == "bin" and t[1] == "Rem" and t[3] == cap and t[2][0] == "bin" and t[2][1].startswith("Add") and konst(t[2][3]) == 1
    lp = lambda t: t[0] == "loop" or t[0] == "bin" and t[1] == "Rem" and t[2][0] == "loop" and t[3] == cap
    bas = lambda t, d=0: t == i0 or lp(t) or okix(t, d) or t[0] == "phi" and all(bas(x, d + 1) for x in t[1])
    okix = lambda t, d=0: d < 9 and (nxt(t) and bas(t[2][2], d + 1) or lp(t) or t[0] == "phi" and all(okix(x, d + 1) for x in t[1]))
    ix = index_call(b)
    R.check(len(ix) == 1, "e-read", b.relfile, "one entry is read in each step", str(len(ix)))
    for c in ix:
        t = C.T.arg(c, 1)
        R.check(okix(t), "e-step", c.where, "entries are read one after the other from behind the start", show(t)[:140])
        rc = C.rc(b, c.bb)
        R.check(all(len(cj) == 1 and all(eqany(l, okix, wr) is False for l in cj) for cj in rc), "e-all", c.where, "until the writer is reached", show_dnf(rc)[:160])
        for u, d, cd in C.loop_exits(b, c.bb):
            R.check(all(any(eqany(l, okix, wr) is True for l in cj) for cj in cd), "e-all", c.where, "and not before", show_dnf(cd)[-160:])
    pu = own_sites(C, b, lambda c: c.name.endswith("Vec::push"))
    R.check(len(pu) == 1, "e-keep", b.relfile, "what is accepted is kept", str(len(pu)))
    for c, a, cd in pu:
        R.check(has(a[1], lambda y: y[0] == "idx" or y[0] == "call" and y[1].endswith("index")), "e-keep", c.where, "the entry itself is kept", show(a[1])[:80])
        rest = [l for cj in cd for l in cj if eqany(l, okix, wr) is None]
        R.check(len(rest) == len(cd) and all(l[0][0] == "call" and l[0][1].endswith("Fn::call") and l[0][2][0] == fl and truth(l) is True for l in rest), "e-keep", c.where, "exactly when the filter accepts it", show_dnf(cd)[:160])
    for cd, t in C.ret_cases(b):
        if cd:
            R.check(call(t, "Vec::new") or call(t, "with_capacity"), "e-ret", b.relfile, "and returned", show(t)[:60])
    # start
    b = R.body(WA + "read_start_version")
    C2 = Cond(F, no_inline=r"CircleBuf::(find_index|read_entrys)$")
    for cd, t in C2.ret_cases(b):
        if not cd:
            continue
        v, st = t[2] if t[0] == "agg" else (t, t)
        isf = lambda x: call(x, "CircleBuf::find_index") and x[2][1] == P(b.id, 3)
        sign = [negative(l, isf) for cj in cd for l in cj]
        sign = [x for x in sign if x is not None]
        if call(v, "CircleBuf::read_entrys"):
            R.check(v[2][1] == P(b.id, 2) and has(v[2][2], isf), "s-read", b.relfile, "entries are read with the filter from the start", show(v)[:120])
            R.check(konst(st) == 0 and sign and not any(sign), "s-ok", b.relfile, "reading from a start is a success", f"{show(st)} if {show_dnf(cd)[:80]}")
        else:
            R.check((isf(st) or isinstance(konst(st), int) and konst(st) < 0) and sign and all(sign), "s-none", b.relfile, "without a start the answer is negative", f"{show(st)[:60]} if {show_dnf(cd)[:80]}")


def minus_one_any(t):
    return t[0] == "bin" and t[1].startswith("Sub") and konst(t[3]) == 1


def negative(l, isx):
    t = l[0]
    if t[0] == "bin" and t[1] == "Lt" and isx(t[2]) and konst(t[3]) == 0:
        return truth(l)
    if t[0] == "bin" and t[1] == "Lt" and konst(t[2]) == -1 and isx(t[3]):
        v = truth(l)
        return None if v is None else not v
    return None


def eqany(l, isx, y):
    t = l[0]
    if t[0] == "bin" and t[1] in ("Eq", "Ne") and (isx(t[2]) and t[3] == y or isx(t[3]) and t[2] == y):
        v = truth(l)
        return None if v is None else v == (t[1] == "Eq")
    return None


def at_end(l, wr, cap):
    """writer + 1 == capacity"""
    t = l[0]
    if t[0] == "bin" and t[1] in ("Eq", "Ne"):
        for a, c in ((t[2], t[3]), (t[3], t[2])):
            if add_one(a, wr) and c == cap or a == wr and minus_one(c, cap):
                v = truth(l)
                return None if v is None else v == (t[1] == "Eq")
    if t[0] == "bin" and t[1] == "Lt" and add_one(t[2], wr) and t[3] == cap:
        v = truth(l)
        return None if v is None else not v
    return None


def below(l, x, y):
    """x < y (or x != y for a value that never exceeds y)"""
    t = l[0]
    if t[0] == "bin" and t[1] == "Lt" and (t[2], t[3]) == (x, y):
        return truth(l)
    if t[0] == "bin" and t[1] in ("Eq", "Ne") and {t[2], t[3]} == {x, y}:
        v = truth(l)
        return None if v is None else v == (t[1] == "Ne")
    return None


def le(l, isx, isy):
    t = l[0]
    if t[0] == "bin" and t[1] == "Lt" and isy(t[2]) and isx(t[3]):
        return truth(l) is False
    if t[0] == "bin" and t[1] == "Le" and isx(t[2]) and isy(t[3]):
        return truth(l) is True
    return False


def ring_stores(C, b):
    """[(index, value, condition)] of stores into self.buf[...]"""
    out = []
    for tgt, val, cd in dstores(C, b):
        x = tgt
        if x[0] == "call" and x[1].endswith("index_mut"):
            out.append((x[2][1], val, cd))
        elif x[0] == "idx":
            out.append((x[2], val, cd))
        else:
            out.append((x, val, cd))
    return out


def dstores(C, b):
    out = [(tgt, val, C.rc(b, bb)) for bb, i, tgt, val in deref_stores(C, b)]
    for c in b.calls():
        n = C.F.get(c.fid) if c.fid and C.F.has(c.fid) else None
        if n is not None and not n.co and len(n.blocks) < 60 and not (C.T.no_inline and C.T.no_inline.search(c.fid)):
            a = C.T.args(c)
            for bb, i, tgt, val in deref_stores(C, n):
                out.append((C.T.subst(tgt, n.id, a), C.T.subst(val, n.id, a), C.conj(C.rc(b, c.bb), C.subst(C.rc(n, bb), n.id, a))))
    return out


# ---------------------------------------------------------------- the filter
def filt(R, F):
    C = Cond(F, no_inline=r"KeyPath::")
    b = R.body(WA + "read_entry_logs")
    cl, tn = P(b.id, 2), P(b.id, 3)
    rs = [t for cd, t in C.ret_cases(b) if cd]
    C0 = Cond(F, no_inline=r"KeyPath::|read_start_version")
    rs = [t for cd, t in C0.ret_cases(b) if cd]
    ok = len(rs) == 1 and call(rs[0], "Watch::read_start_version") and rs[0][2][0] == P(b.id, 1) and rs[0][2][2] == P(b.id, 4)
    if not R.check(ok, "l-read", b.relfile, "the log is read from the asked version", show(rs[0])[:120] if rs else ""):
        return
    cid = closure_id(rs[0][2][1])
    cb = R.body(cid)
    key = lambda t: t == ("fld", "key", P(cid, 2))
    d = closure_true(C, cid)
    rd = Cond(F, no_inline=r"KeyPath::").ret_cases(cb)
    false = []
    for cd, t in C.ret_cases(cb):
        if konst(t) in (0, False) or show(t) == "false":
            false.append(cd)
    allowed, parts = set(), set()
    pre = lambda x: is_rest(x, key, cl)
    split1 = lambda x: call(x, "split_once") and pre(x[2][0]) and show(x[2][1]) in ("'/'", '"/"')

    def classify(l):
        t, vs, pos = l
        v = truth(l)
        if t[0] == "bin" and t[1] == "Eq":
            o = t[3] if key(t[2]) else t[2] if key(t[3]) else None
            if o is not None and o[0] == "call" and re.search(r"KeyPath::(version|already_init)$", o[1]):
                return "internal" if v else "-"
            if o is not None and call(o, "KeyPath::incr_id") and o[2][0] == cl:
                return "internal" if v else "-"
        if call(t, "starts_with") and key(t[2][0]):
            o = t[2][1]
            if call(o, "KeyPath::cluster_prefix") and o[2][0] == cl:
                return "-" if v else "foreign"
            if call(o, "KeyPath::tenants") and o[2][0] == cl:
                return "tenant" if v else "global"
        if call(t, "is_empty") and t[2][0] == tn:
            return "watchnone" if v else "-"
        if call(t, "contains") and t[2][0] == tn:
            o = tostr(t[2][1])
            if show(o) == '""':
                return "all" if v else "notall"
            if named(F, C, o, key, cl):
                return "named" if v else "notnamed"
            if pre(o):
                return "rest" if v else "notnamed"
            if o[0] == "fld" and str(o[1]) == "0" and o[2][0] == "ok" and split1(o[2][1]):
                return "first" if v else "notnamed"
        if t[0] == "disc" and split1(t[1]):
            if l[1] == {"0", "1"}:
                return "-"
            return "more" if v else "nomore"
        if t[0] == "disc" and call(t[1], "strip_prefix") and key(t[1][2][0]):
            return "tenant" if v else "global"
        return "? " + show(t)[:80]
    for cj in d:
        ks = {classify(l) for l in cj}
        bad = [k for k in ks if k.startswith("?") or k in ("internal", "foreign", "watchnone", "notnamed")]
        R.check(not [k for k in bad if k.startswith("?")], "l-cond", b.relfile, "whether a change is delivered depends on its key alone", str(bad))
        if "global" in ks:
            R.check("foreign" not in ks, "l-global", b.relfile, "the cluster's own entities are delivered", str(ks))
            if ks <= {"-", "global"}:
                allowed.add("global")
        elif "all" in ks:
            if ks <= {"-", "tenant", "all"}:
                allowed.add("all")
        elif "named" in ks:
            if ks <= {"-", "tenant", "named", "notall"}:
                allowed.add("named")
            if ks <= {"-", "tenant", "named", "notall", "more", "nomore"}:
                parts |= {"first", "rest"} & ({"first"} if "more" in ks else {"rest"})
        elif "first" in ks and "more" in ks or "rest" in ks and "nomore" in ks:
            if ks <= {"-", "tenant", "notall", "first", "rest", "more", "nomore"}:
                parts |= ks & {"first", "rest"}
        else:
            R.check(False, "l-tenant", b.relfile, "a change of a tenant is delivered to those that watch it", str(ks))
    if parts == {"first", "rest"}:
        allowed.add("named")
    R.check(allowed == {"global", "all", "named"}, "l-all", b.relfile, "changes of the cluster, and of the tenants watched by name or all of them, are delivered", str(sorted(allowed)))
    R.check(all("foreign" not in {classify(l) for l in cj} and "internal" not in {classify(l) for l in cj} for cj in d), "l-own", b.relfile, "no other cluster's changes and no internal counters")


def is_rest(x, key, cl):
    """the key behind the tenants' prefix"""
    return x[0] == "ok" and call(x[1], "strip_prefix") and key(x[1][2][0]) and call(x[1][2][1], "KeyPath::tenants") and x[1][2][1][2][0] == cl


def named(F, C, t, key, cl):
    """t is the first segment of the key behind the tenants' prefix: the whole rest when there is no further '/'"""
    pre = lambda x: is_rest(x, key, cl)
    split1 = lambda x: call(x, "split_once") and pre(x[2][0]) and show(x[2][1]) in ("'/'", '"/"')
    if call(t, "map_or") and split1(t[2][0]) and pre(t[2][1]):
        c = closure_id(t[2][2])
        b = F.get(c)
        rs = [r for cd, r in C.ret_cases(b) if cd] if b else []
        return len(rs) == 1 and rs[0][0] == "fld" and str(rs[0][1]) == "0"
    if t[0] == "ok" and call(t[1], "next") and has(t, lambda x: x[0] == "call" and re.search(r"str::(split|splitn)$", x[1]) and pre(x[2][0])):
        return True
    if t[0] in ("fld", "phi", "call"):
        fs = alts(t)
        if len(fs) == 2 and any(pre(x) for x in fs) and any(x[0] == "fld" and str(x[1]) == "0" and x[2][0] == "ok" and split1(x[2][1]) for x in fs):
            return True
    if call(t, "unwrap_or") and pre(t[2][1]) and has(t[2][0], split1):
        return True
    return False


# ---------------------------------------------------------------- the server
def server(R, F):
    C = Cond(F, no_inline=r"Watch::(read_entry_logs|min_version|max_version)$|StateMachine::version$")
    b = R.body(SM + "read_change_logs")
    me, base = P(b.id, 1), P(b.id, 4)
    isver = lambda x: has(x, lambda y: call(y, "StateMachine::version") and y[2][0] == me)
    logs = lambda x: call(x, "Watch::read_entry_logs") and x[2][0] == ("fld", "watch", me) and x[2][1] == P(b.id, 2) and x[2][2] == P(b.id, 3) and x[2][3] == base
    st = lambda x: x[0] == "fld" and str(x[1]) == "1" and logs(x[2])
    uptodate = lambda l: l[0][0] == "bin" and l[0][1] == "Eq" and (l[0][2] == base and isver(l[0][3]) or l[0][3] == base and isver(l[0][2]))
    R.floor(len([1 for c in b.calls() if c.name.endswith("read_entry_logs")]), 1, "reads of the change log")
    cases = data_cases(C, b) if C.writes(b, "full_sync|entry_logs") else []
    if not cases:
        once(R, C, b, uptodate, st, logs, isver)
    for cd, f in cases:
        utd = {truth(l) for cj in cd for l in cj if uptodate(l)}
        neg = {negative(l, st) for cj in cd for l in cj} - {None}
        mx = f.get("max_ver")
        R.check(mx is not None and all(konst(x) == 0 or x[0] == "ok" and (call(x[1], "Watch::max_version") or isver(x)) for x in alts(unwr(mx))), "w-max", b.relfile, "the version to go on from is the newest in the log", show(mx)[:80] if mx else "none")
        fs, en = f.get("full_sync"), f.get("entry_logs")
        if utd == {True}:
            R.check(konst(fs) in (0, False) or show(fs) == "false", "w-same", b.relfile, "a watcher with the current version has nothing to do", show(fs))
        elif neg == {True}:
            R.check(show(fs) == "true", "w-sync", b.relfile, "a watcher the log no longer reaches is told to sync", show(fs))
        elif neg == {False}:
            R.check(en is not None and en[0] == "fld" and str(en[1]) == "0" and logs(en[2]), "w-logs", b.relfile, "the entries read from the log are given", show(en)[:100] if en else "")
        else:
            R.check(False, "w-case", b.relfile, "every answer is one of: up to date, sync, the entries", show_dnf(cd)[:160])
    kinds = {("same" if {truth(l) for cj in cd for l in cj if uptodate(l)} == {True} else str({negative(l, st) for cj in cd for l in cj} - {None})) for cd, f in cases}
    R.floor(len(kinds) if cases else 3, 3, "kinds of answer")
    # the newest version is taken before the entries are read
    evs = call_events(C, b, lambda c: c.name.endswith("::max_version") or c.name.endswith("read_entry_logs"))
    mx = [e for e in evs if e[0].name.endswith("max_version")]
    rd = [e for e in evs if e[0].name.endswith("read_entry_logs")]
    for r in rd:
        R.check(any(ev_before(F, m[3], r[3]) for m in mx), "w-order", b.relfile, "the newest version is taken before the entries are read")
    # need_return
    b = R.body("meta::store::command::WatchData::need_return")
    C1 = Cond(F)
    me = P(b.id, 1)
    for cd, t in C1.ret_cases(b):
        if cd and show(t) != "true":
            full = lambda l: l[0] == ("fld", "full_sync", me) and truth(l) is False
            emp = lambda l: call(l[0], "is_empty") and l[0][2][0] == ("fld", "entry_logs", me) and truth(l) is True
            R.check(lit(cd, lambda *l: full(l)) and lit(cd, lambda *l: emp(l)), "n-ret", b.relfile, "entries and the order to sync are never held back", show_dnf(cd)[:140])
    # process_watch
    C2 = Cond(F, no_inline=r"read_change_logs$|need_return$|response_encode$")
    n = 0
    for b in F.bodies("meta", pat=r".*::process_watch::\{closure#0\}$"):
        n += 1
        pw(R, F, C2, b)
    R.floor(n, 2, "watch services")


def once(R, C, b, uptodate, st, logs, isver):
    """the answer is built in one expression: what each field is, and when"""
    n = 0
    for bb in sorted(b.reachable()):
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=" and s[2][0] == "agg" and "full_sync" in (s[2][3] or ()):
                n += 1
                op = dict(zip(s[2][3], s[2][2]))
                for cd, v in C.cases(b, op["max_ver"], (bb, i)):
                    R.check(all(konst(x) == 0 or x[0] == "ok" and (call(x[1], "Watch::max_version") or isver(x)) for x in alts(unwr(v))), "w-max", b.relfile, "the version to go on from is the newest in the log", show(v)[:80])
                for cd, v in C.cases(b, op["full_sync"], (bb, i)):
                    if show(v) == "false" and all(not cj for cj in cd) and len(C.cases(b, op["full_sync"], (bb, i))) > 1:
                        continue
                    utd = lit(cd, lambda *l: uptodate(l) and truth(l) is True)
                    neg = [{negative(l, st) for l in cj} - {None} for cj in cd]
                    if show(v) == "true":
                        R.check(all(x == {True} for x in neg), "w-sync", b.relfile, "a watcher the log no longer reaches is told to sync", show_dnf(cd)[:100])
                    elif show(v) == "false":
                        R.check(utd or all(x == {False} for x in neg), "w-same", b.relfile, "only such a watcher need not", show_dnf(cd)[:100])
                    else:
                        R.check(negative((v, {"1"}, True), st) is True, "w-sync", b.relfile, "a watcher the log no longer reaches is told to sync", show(v)[:100])
                given = C.cases(b, op["entry_logs"], (bb, i))
                got = [cd for cd, v in given if v[0] == "fld" and logs(v[2]) and all(all(uptodate(l) and truth(l) is False or negative(l, st) is False for l in cj) for cj in cd)]
                R.check(got, "w-logs", b.relfile, "the entries read from the log are given", str(len(given)))
                for cd, v in given:
                    if got and all(not cj for cj in cd):
                        continue
                    utd = lit(cd, lambda *l: uptodate(l) and truth(l) is True)
                    neg = [{negative(l, st) for l in cj} - {None} for cj in cd]
                    R.check(utd or all(x == {True} for x in neg) or v[0] == "fld" and str(v[1]) == "0" and logs(v[2]), "w-logs", b.relfile, "the entries read from the log are given", f"{show(v)[:60]} if {show_dnf(cd)[:80]}")
    R.check(n == 1, "w-case", b.relfile, "an answer is made", str(n))


def unwr(t):
    while t[0] == "call" and re.search(r"unwrap_or(_default|_else)?$", t[1]):
        t = ("phi", (t[2][0] if t[2][0][0] == "ok" else ("ok", t[2][0]), ("k", "0_u64", None, 0)))
    return t


def data_cases(C, b):
    """[(condition, {field: value})] of the returned WatchData: literal fields overlaid by the stores under the same condition"""
    out = []
    ws = [(p, a, cd) for p, a, cd in C.writes(b, ".*") if p[3] in ("full_sync", "entry_logs", "min_ver", "max_ver")]
    names = ("full_sync", "min_ver", "max_ver", "entry_logs")
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        if t[0] != "agg":
            out.append((cd, {}))
            continue
        f0 = {n: getf(t, n) for n in names}
        # split by the conditions of the stores
        todo = [(cd, dict(f0))]
        for p, a, c2 in ws:
            nxt = []
            for c, f in todo:
                m = C.conj(c, c2)
                if m:
                    g = dict(f)
                    g[p[3]] = a[0]
                    nxt.append((m, g))
                    rest = minus(C, c, c2)
                    if rest:
                        nxt.append((rest, f))
                else:
                    nxt.append((c, f))
            todo = nxt
        out.extend(todo)
    return out


def minus(C, c, d):
    """the part of c outside d: for each literal of d negated"""
    out = set()
    for cj in c:
        for dj in d:
            for l in dj:
                if l in cj:
                    continue
                x = C.conj(frozenset([cj]), frozenset([frozenset([(l[0], l[1], not l[2])])]))
                out |= set(x)
    return frozenset(out)


def pw(R, F, C, b):
    root = b.id.rsplit("::{", 1)[0]
    req = lambda t, n: t[0] == "fld" and str(t[1]) == str(n) and t[2][0] == "ok" and call(t[2][1], "from_slice") and t[2][1][2][0] == P(root, 1)
    isread = lambda t: call(t, "StateMachine::read_change_logs")
    reads = own_sites(C, b, lambda c: c.name.endswith("read_change_logs"))
    R.floor(len(reads), 1, "reads of the changes")
    okver = lambda t, d=0: req(t, 3) or t[0] == "loop" or t[0] == "fld" and t[1] == "max_ver" and isread(t[2]) or t[0] == "phi" and all(okver(x) for x in t[1]) or call(t, "max") and all(okver(x) for x in t[2])
    for c, a, cd in reads:
        R.check(has(a[0], lambda x: x == P(root, 2)) and req(a[1], 1) and req(a[2], 2), "p-read", c.where, "changes are read for the watcher's cluster and tenants", f"{show(a[1])[:60]} {show(a[2])[:60]}")
        R.check(okver(a[3]), "p-from", c.where, "from the version it asked for, or a later one up to which there was nothing for it", show(a[3])[:120])
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        x = t[2][0] if t[0] == "agg" else t
        R.check(call(x, "response_encode") and x[2][0][0] == "agg" and x[2][0][1].endswith("::Ok") and isread(x[2][0][2][0]), "p-answer", b.relfile, "the answer is what was read", show(x)[:100])
    # the version is moved only past an answer that was not needed
    for loc in [v for v, nm in b.names.items() if False]:
        pass
    nrs = own_sites(C, b, lambda c: c.name.endswith("need_return"))
    for c, a, cd in reads:
        lp = (C.loop_of(b, c.bb) or (0, None))[1]
        t = ("call",)
        mine = [n for n in nrs if n[1][0][0] == "call" and isread(n[1][0]) and n[1][0][-1] == site_of(C, c)]
        R.check(len([n for n in nrs if isread(n[1][0])]) >= len(reads), "p-need", c.where, "every read is tested for having something to deliver")
        if lp:
            # every path from this read back to it passes a need_return that said no
            nr = [n for n in nrs if n[0].bb in lp]
            R.check(len(nr) >= 1, "p-need", c.where, "in the loop too")
            for n, a2, cd2 in nr:
                R.check(goes_back_only_if_false(C, b, n, a2, c, lp), "p-keep", c.where, "what was read is dropped only when there is nothing to deliver")


def site_of(C, c):
    return None


def goes_back_only_if_false(C, b, nr, args, rd, lp):
    """from the read, the loop is closed only through the need_return call and then over its false edge"""
    # blocks reachable from the read without passing the test of need_return's result
    target = None
    x = nr.bb
    seen = set()
    # find the switch on the result
    work = [s for s in b.succs(x)]
    while work:
        s = work.pop()
        if s in seen or s not in lp:
            continue
        seen.add(s)
        k = b.blocks[s].get("t") if isinstance(b.blocks[s], dict) else None
        tm = b.blocks[s]
        ed = sorted(b.succs(s))
        if len([e for e in ed]) > 1:
            target = s
            break
        work.extend(ed)
    if target is None:
        return False
    mine = lambda l: call(l[0], "need_return") and l[0][2][0] == args[0]
    # without passing nr.bb, rd.bb cannot reach itself
    def reach(src, dst, no):
        st, vis = list(b.succs(src)), set()
        while st:
            y = st.pop()
            if y in vis or y in no:
                continue
            vis.add(y)
            if y == dst:
                return True
            st.extend(b.succs(y))
        return False
    if reach(rd.bb, rd.bb, {nr.bb}):
        return False
    # over the true edge the loop is not closed
    for s in b.succs(target):
        e = C.edge(b, target, s)
        tv = [truth(l) for cj in e for l in cj if mine(l)]
        if tv and all(v is True for v in tv) and (s == rd.bb or reach(s, rd.bb, {target})):
            return False
    tvs = [truth(l) for s in b.succs(target) for cj in C.edge(b, target, s) for l in cj if mine(l)]
    return bool(tvs)


# ---------------------------------------------------------------- the client
def seg(t):
    """the number of the key's segment t stands for"""
    if t[0] == "idx" or call(t, "index"):
        base, i = (t[1], t[2]) if t[0] == "idx" else (t[2][0], t[2][1])
        if has(base, lambda x: x[0] == "call" and re.search(r"str::split$", x[1]) and has(x[2][0], lambda y: y[0] == "fld" and y[1] == "key") and show(x[2][1]) in ("'/'", '"/"')):
            return konst(i)
    return None


def special(cd, shape, tye, consts):
    """the conjunctions of cd possible for a key of this shape and kind, without the literals that decide it"""
    out = []
    segs = shape.split("/")
    for cj in cd:
        left, ok = [], True
        for l in cj:
            t = l[0]
            v = truth(l)
            val = None
            if t[0] == "bin" and t[1] in ("Eq", "Ne", "Lt", "Le"):
                a, c = num(t[2], segs, tye), num(t[3], segs, tye)
                if a is not None and c is not None and (isinstance(a, int) == isinstance(c, int)):
                    val = {"Eq": a == c, "Ne": a != c}.get(t[1])
                    if val is None and isinstance(a, int):
                        val = a < c if t[1] == "Lt" else a <= c
            elif t[0] == "fld" and t[1] == "tye" or t[0] in ("len", "call") and isinstance(num(t, segs, tye), int):
                ok = ok and (str(num(t, segs, tye)) in l[1]) == l[2]
                continue
            if val is None:
                left.append(l)
            elif v is None or v != val:
                ok = False
                break
        if ok:
            out.append(left)
    return out


def num(t, segs, tye):
    """the value of t for this key, when it is fixed by the shape"""
    if t[0] == "call" and re.search(r"::len$", t[1]) and has(t, lambda x: x[0] == "call" and re.search(r"str::split$", x[1])):
        return len(segs)
    if t[0] == "len" and has(t, lambda x: x[0] == "call" and re.search(r"str::split$", x[1])):
        return len(segs)
    i = seg(t)
    if isinstance(i, int):
        return segs[i] if i < len(segs) and segs[i] != "#" else ("out",) if i >= len(segs) else None
    if t[0] == "fld" and t[1] == "tye":
        return tye
    k = konst(t)
    if isinstance(k, (int, str)):
        return k if isinstance(k, int) else k.strip('"')
    if t[0] == "k":
        s = t[1]
        m = re.match(r'^"(.*)"$', s)
        return m.group(1) if m else CONST.get(str(t[2] if len(t) > 2 and t[2] else s))
    return None


CONST = {}
EFF = re.compile(r"(HashMap|BTreeMap|Vec|Sender)(<.*>)?::(insert|remove|push|clear|send|retain|drain|truncate|swap_remove|pop|extend)$|Entry(<.*>)?::or_default$|::(process_watch_log|process_drop_tenant)$")


def txt(t):
    """an effect's operand: segments of the key as #n, the decoded value as val"""
    if isinstance(seg(t), int):
        return f"#{seg(t)}"
    if t[0] in ("ok", "await"):
        return txt(t[1])
    if t[0] == "err":
        return "at " + txt(t[1])
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[1]
        if n in ("from_str", "from_slice"):
            a = txt(t[2][0])
            return a if not a.endswith(".val") else "val"
        if n in ("to_string", "to_owned", "clone", "into", "from", "read", "write", "or_default", "as_str", "as_bytes", "new", "cloned", "as_ref", "as_mut") and len(t[2]) >= 1:
            return txt(t[2][0])
        if n in ("get", "get_mut", "entry"):
            return f"{txt(t[2][0])}[{txt(t[2][1])}]"
        if n in ("binary_search_by", "binary_search_by_key", "position"):
            return "place in " + txt(t[2][0])
        return n + "(" + ", ".join(txt(x) for x in t[2]) + ")"
    if t[0] == "fld":
        s = txt(t[2])
        n = str(t[1]).rsplit(".", 1)[-1]
        if n == "data":
            return s
        return n if s in ("@",) else f"{s}.{n}"
    if t[0] == "param":
        return "@" if t[2] == 1 else "$"
    if t[0] == "agg":
        return t[1].rsplit("::", 1)[-1] + "(" + ", ".join(txt(x) for x in t[2]) + ")"
    if t[0] == "phi":
        return "|".join(sorted({txt(x) for x in t[1]}))
    return show(t)[:60]


def effects(C, b, no):
    out = []
    for c, a, cd, ch in call_events(C, b, lambda c: bool(EFF.search(c.fid or c.name)) and not re.search(r"::(tracing|trace|log)::", c.name)):
        n = c.name.rsplit("::", 1)[1]
        out.append((c.where, n, [txt(x) for x in a], cd))
    for p, a, cd in C.writes(b, ".*"):
        if has(a[1], lambda x: x[0] == "call" and re.search(r"::(write|lock|get_mut|entry)$", x[1])):
            out.append((b.relfile, "set", [txt(a[1]) + "." + str(p[3]), txt(a[0])], cd))
    for idx, val, cd in dstores(C, b):
        x = (idx[1], idx[2]) if idx[0] == "idx" else idx[2][:2] if idx[0] == "call" and idx[1].endswith("index_mut") else (idx,)
        out.append((b.relfile, "put", [txt(y) for y in x] + [txt(val)], cd))
    return out


TEN = {
    "/#/tenants/#/dbs/#/schemas/#": ({("insert", "dbs[#5].tables", "#7", "val")}, {("remove", "dbs[#5].tables", "#7")}),
    "/#/tenants/#/dbs/#/buckets/#": ({("put", "dbs[#5].buckets", "place in dbs[#5].buckets", "val"), ("insert", "dbs[#5].buckets", "at place in dbs[#5].buckets", "val")}, {("remove", "dbs[#5].buckets", "place in dbs[#5].buckets")}),
    "/#/tenants/#/dbs/#": ({("set", "dbs[#5].schema", "val")}, {("remove", "dbs", "#5")}),
    "/#/tenants/#/members/#": ({("insert", "members", "#5", "val")}, {("remove", "members", "#5")}),
    "/#/tenants/#/roles/#": ({("insert", "roles", "#5", "val")}, {("remove", "roles", "#5")}),
}
ADM = {
    "/#/data_nodes/#": ({("insert", "data_nodes", "#3", "val")}, {("remove", "data_nodes", "#3"), ("remove", "conn_map", "#3")}),
    "/#/users/#": ({("insert", "users", "#3", "val")}, {("remove", "users", "#3")}),
    "/#/resourceinfos/#": ({("send", "resource_tx_rx.0", "ResourceInfo(val)")}, set()),
    "/#/data_nodes_metrics/#": ({("send", "resource_tx_rx.0", "NodeMetrics(val)")}, {("send", "resource_tx_rx.0", "NodeMetrics(val)")}),
}


def client(R, F, keys):
    S = c33.TYE
    q = Quiet()
    q.__dict__["body"] = R.body
    c33.primitives(q, F)
    SET, DEL = S.get("insert"), S.get("remove")
    R.check(isinstance(SET, int) and isinstance(DEL, int) and SET != DEL, "c-kinds", "meta/src/store/command.rs", "storing and deleting are told apart", f"{SET} {DEL}")
    shapes = sorted({s for n, s in keys.items() if n not in c33.COLL and n != "cluster_prefix"})
    R.floor(len(shapes), 15, "key shapes")
    C = Cond(F, no_inline=r"KeyPath::")
    for fid, table, okl in ((TM + "process_watch_log", TEN, ten_lit), (AM + "process_watch_log", ADM, adm_lit)):
        b = core_of(R, fid)
        eff = effects(C, b, None)
        for sh in table:
            R.check(sh in shapes or sh == "/#/resourceinfos/#", "c-shape", b.relfile, f"{sh} is a key of the store", "")
        for sh in shapes:
            for kind, i in ((SET, 0), (DEL, 1)):
                want = table.get(sh, (set(), set()))[i]
                got = set()
                for where, n, a, cd in eff:
                    if n in ("or_default",):
                        continue
                    e = (n,) + tuple(a)
                    if e[:2] == ("set", "@.version"):
                        continue
                    left = special(cd, sh, kind, None)
                    if not left:
                        continue
                    got.add(e)
                    for cj in left:
                        for l in cj:
                            r = okl(l, sh, e)
                            R.check(r, "c-cond", where, f"{sh}: {n} happens whenever the change says so", f"only if {show(l[0])[:100]} {'in' if l[2] else 'not in'} {sorted(l[1])}")
                R.check(got == want, "c-effect", b.relfile, f"a change that {'stores' if i == 0 else 'deletes'} {sh} is applied to what the key names", f"{sorted(got - want)} instead of {sorted(want - got)}" if got != want else "")
    # versions of a tenant
    b = core_of(R, TM + "process_watch_log")
    root = b.id.rsplit("::{", 1)[0]
    isold = lambda t: t[0] == "fld" and t[1] == "version" and has(t, lambda x: call(x, "write") or call(x, "lock"))
    isnew = lambda t: t == ("fld", "ver", P(root, 2))
    w = [(p, a, cd) for p, a, cd in C.writes(b, "version")]
    R.check(len(w) == 1 and isnew(w[0][1][0]), "t-ver", b.relfile, "the tenant's version is moved to the change's", str([show(x[1][0])[:60] for x in w]))
    for p, a, cd in w:
        R.check(all(len(cj) == 1 and all(newer(l, isold, isnew) for l in cj) for cj in cd), "t-once", b.relfile, "exactly when it is newer", show_dnf(cd)[:120])
    for where, n, a, cd in effects(C, b, None):
        if not (n == "set" and a[0].endswith("version")):
            R.check(lit(cd, lambda *l: newer(l, isold, isnew)), "t-once", where, "and only then is the change applied", show_dnf(cd)[:120])
    dispatch(R, F, shapes, SET, DEL)
    watching(R, F)
    syncs(R, F)


def newer(l, isold, isnew):
    t = l[0]
    if t[0] == "bin" and t[1] == "Lt" and isold(t[2]) and isnew(t[3]):
        return truth(l) is True
    if t[0] == "bin" and t[1] == "Le" and isnew(t[2]) and isold(t[3]):
        return truth(l) is False
    return False


def decoded(l):
    t = l[0]
    return t[0] == "disc" and (call(t[1], "from_str") or call(t[1], "from_slice")) and truth(l) is False


def ten_lit(l, sh, e):
    t = l[0]
    if decoded(l):
        return True
    if t[0] == "bin" and t[1] in ("Lt", "Le") and has(t, lambda x: x[0] == "fld" and x[1] == "version"):
        return True
    if t[0] == "disc" and call(t[1], "get_mut") and txt(t[1]) == "dbs[#5]":
        return truth(l) is True
    if t[0] == "disc" and has(t, lambda x: x[0] == "call" and re.search(r"binary_search|position", x[1])):
        v = truth(l)
        if e[0] == "insert":
            return v is True if call(t[1], "binary_search_by") or call(t[1], "binary_search_by_key") else v is False
        return v is False if call(t[1], "binary_search_by") or call(t[1], "binary_search_by_key") else v is True
    return False


def adm_lit(l, sh, e):
    t = l[0]
    if decoded(l):
        return True
    if e[0] == "send" and has(t, lambda x: x[0] == "fld" and x[1] == "status" or call(x, "get_status")):
        return True
    return False


def dispatch(R, F, shapes, SET, DEL):
    C = Cond(F, no_inline=r"KeyPath::|::process_watch_log$")
    b = core_of(R, AM + "process_watch_data")
    root = b.id.rsplit("::{", 1)[0]
    eff = []
    for c, a, cd, ch in call_events(C, b, lambda c: c.name.endswith("::process_watch_log")):
        who = "limiter" if "Limiter" in c.name else "tenant" if "Tenant" in c.name else "admin"
        eff.append((c, who, a, cd))
        e = a[-1]
        R.check(has(e, lambda x: x == ("fld", "entry_logs", P(root, 2))), "d-entry", c.where, "the change itself is passed on", show(e)[:80])
        if who == "tenant":
            R.check(has(a[0], lambda x: call(x, "get") and isinstance(seg(tostr(x[2][1])), int) and seg(tostr(x[2][1])) == 3 and has(x[2][0], lambda y: y[0] == "fld" and y[1] == "tenants")), "d-tenant", c.where, "to the tenant the key names", show(a[0])[:120])
        if who == "limiter":
            R.check(seg(tostr(a[1])) == 3, "d-limiter", c.where, "to the limiter of the tenant the key names", show(a[1])[:80])
    for sh in shapes:
        segs = sh.split("/")
        want = set()
        if sh.startswith("/#/tenants/#"):
            want = {"tenant"} if len(segs) > 4 else {"limiter", "tenant"}
        elif sh in ADM or sh == "/#/resourceinfos/#":
            want = {"admin"}
        must = want - ({"tenant"} if sh == "/#/tenants/#" else set())
        for kind in (SET, DEL):
            got = set()
            for c, who, a, cd in eff:
                left = special(cd, sh, kind, None)
                if left:
                    got.add(who)
                good = False
                for cj in left:
                    bad = [l for l in cj if not disp_lit(l, who)]
                    good = good or not bad
                if left and who in want:
                    R.check(good, "d-cond", c.where, f"{sh}: every such change reaches the {who}", "; ".join(show(l[0])[:80] for cj in left for l in cj if not disp_lit(l, who))[:200])
            R.check(must <= got <= want | {"tenant"}, "d-where", b.relfile, f"a change of {sh} is given to {sorted(want) or 'nobody'}", str(sorted(got)))
    # all entries, in order: the loop goes over the whole list
    nx = [c for c in b.calls() if c.name.endswith("::next") and any(C.loop_of(b, c.bb) and e[0].bb in C.loop_of(b, c.bb)[1] for e in eff)]
    R.check(nx, "d-loop", b.relfile, "the entries are gone through")
    for c in nx:
        for u, d, cd in C.loop_exits(b, c.bb):
            R.check(only_end(C, b, c.bb, cd), "d-all", c.where, "until there is none left", show_dnf(cd)[-200:])
    it = [c for c in b.calls() if re.search(r"::(rev|skip|step_by|take|filter|skip_while|take_while)$", c.name)]
    R.check(not it, "d-all", b.relfile, "all entries are processed in order", str([c.name for c in it]))


def only_end(C, b, bb, cd):
    """the loop around bb is left under this condition only when its iterator has no more elements: nothing else is asked"""
    h = C.loop_of(b, bb)[0]
    before = {l for cj in C.rc(b, h) for l in cj}
    return all(l in before for cj in cd for l in cj)


def disp_lit(l, who):
    t = l[0]
    v = truth(l)
    if t[0] == "disc" and has(t, lambda x: x[0] == "fld" and x[1] == "entry_logs") and not has(t, lambda x: call(x, "get")):
        return v is True
    if t[0] == "disc" and has(t, lambda x: call(x, "get") and has(x[2][0], lambda y: y[0] == "fld" and y[1] == "tenants")):
        return v is True
    if t[0] == "bin" and t[1] == "Eq" and (seg(t[2]) == 1 or seg(t[3]) == 1) and has(t, lambda x: x[0] == "fld" and x[1] == "cluster_name"):
        return v is True
    return False


def atomic(n):
    return lambda c: bool(re.search(r"Atomic\w*(<.*>)?::(%s)$" % n, c.fid or c.name))


def watching(R, F):
    no = r"::(process_watch_log|process_full_sync|process_watch_data|sync_global_info|watch|watch_data_task)$|TenantMeta::(new|version)$"
    C = Cond(F, no_inline=no)
    b = core_of(R, AM + "watch_data_task")
    me = P(b.id.rsplit("::{", 1)[0], 1)
    isv = lambda t: t == ("fld", "watch_version", me) or t[0] == "fld" and t[1] == "watch_version"
    sites = own_sites(C, b, atomic("store|fetch_\\w+|swap|compare_\\w+"))
    rsp = lambda t: t[0] == "ok" and has(t, lambda x: call(x, "MetaHttpClient::watch") or x[0] == "agg" and "watch" in x[1])
    isfull = lambda t: t[0] in ("await", "ok") and has(t, lambda x: call(x, "process_full_sync") or x[0] == "agg" and "process_full_sync" in x[1])
    ismax = lambda t: t[0] == "fld" and t[1] == "max_ver" and rsp(t[2])
    new = []
    for c, a, cd in sites:
        R.check(isv(a[0]) and all(isfull(x) or ismax(x) for x in alts(a[1])), "v-store", c.where, "the version kept is the one the data was taken at", show(a[1])[:80])
        new.append((c, a[1], cd))
    req = [(p, a, cd) for p, a, cd in C.writes(b, "3")]
    vals = set()
    for p, a, cd in req:
        R.check(all(isfull(x) or ismax(x) for x in alts(a[0])), "v-next", b.relfile, "the next request goes on from the version the data was taken at", show(a[0])[:80])
        vals |= {"full" if isfull(x) else "max" for x in alts(a[0])}
    R.check(vals == {"full", "max"} == {"full" if isfull(x) else "max" for n in new for x in alts(n[1])}, "v-next", b.relfile, "after a sync and after a list of changes", str(sorted(vals)))
    ev = call_events(C, b, lambda c: bool(re.search(r"::(process_full_sync|process_watch_data|watch)$", c.name)) or atomic("store")(c))
    w0 = next((e[0].bb for e in ev if e[0].name.endswith("::watch") and e[0].body is b), None)
    fl = [e for e in ev if e[0].name.endswith("process_full_sync")]
    pd = [e for e in ev if e[0].name.endswith("process_watch_data")]
    R.check(len(fl) == 1 and len(pd) == 1, "v-do", b.relfile, "an answer is processed", f"{len(fl)} {len(pd)}")
    fs = lambda l: l[0][0] == "fld" and l[0][1] == "full_sync" and rsp(l[0][2])
    okrsp = lambda l: l[0][0] == "disc" and truth(l) is False
    for e in fl:
        R.check(all(all(fs(l) and truth(l) is True or okrsp(l) for l in cj) for cj in e[2]), "v-sync", e[0].where, "a sync is done when it is asked for", show_dnf(e[2])[-160:])
    for e in pd:
        R.check(all(all(fs(l) and truth(l) is False or okrsp(l) for l in cj) for cj in e[2]) and rsp(e[1][1]), "v-list", e[0].where, "and otherwise the changes are applied", show_dnf(e[2])[-160:])
        for s in ev:
            if atomic("store")(s[0]) and any(ismax(x) for x in alts(s[1][1])):
                R.check(precedes_all(b, s[0].bb, w0, e[0].bb) if w0 is not None and s[0].body is b and e[0].body is b else ev_before(F, e[3], s[3]), "v-after", s[0].where, "the version is moved on after the changes were applied")
    # the first request
    w = [e for e in ev if e[0].name.endswith("::watch")]
    R.check(len(w) == 1, "v-req", b.relfile, "one request")
    for e in w:
        t = e[1][1]
        parts = None
        for x in walk(t):
            if x[0] == "agg" and len(x[2]) == 4:
                parts = x[2]
                break
        ok = parts and has(parts[1], lambda x: x[0] == "fld" and x[1] == "cluster_name") and has(parts[2], lambda x: x[0] == "fld" and x[1] == "watch_tenants") and has(parts[3], lambda x: call(x, "load") and isv(x[2][0]))
        R.check(ok, "v-req", e[0].where, "for the node's cluster, its tenants, from its version", show(t)[:160])
    # manager
    b = core_of(R, AM + "watch_task_manager")
    root = b.id.rsplit("::{", 1)[0]
    info = lambda t: t[0] == "ok" and has(t, lambda x: call(x, "recv"))
    at = own_sites(C, b, atomic("store|fetch_\\w+|swap|compare_\\w+"))
    mins = [(c, a, cd) for c, a, cd in at if c.name.endswith("fetch_min")]
    R.check(len(at) == 1 and len(mins) == 1, "m-min", b.relfile, "a newly used tenant can only lower the version", str([c.name.rsplit('::', 1)[1] for c, a, cd in at]))
    for c, a, cd in mins:
        R.check(a[0] == ("fld", "watch_version", P(root, 1)) and a[1][0] == "fld" and a[1][1] == "version" and info(a[1][2]), "m-min", c.where, "to the version the tenant was read at", show(a[1])[:80])
        R.check(all(all(l[0][0] == "disc" and has(l[0], lambda x: call(x, "recv")) and truth(l) is True for l in cj) for cj in cd), "m-min", c.where, "always", show_dnf(cd)[:100])
    acts = own_sites(C, b, lambda c: bool(re.search(r"HashSet(<.*>)?::(insert|remove|clear)$", c.fid or c.name)))
    got = {}
    for c, a, cd in acts:
        n = c.name.rsplit("::", 1)[1]
        if n == "clear":
            continue
        got[n] = {v for cj in cd for l in cj if l[0][0] == "disc" and l[0][1][0] == "fld" and l[0][1][1] == "action" for v in [(frozenset(l[1]), l[2])]}
        R.check(a[1][0] == "fld" and a[1][1] == "name" and info(a[1][2]) and has(a[0], lambda x: x == ("fld", "watch_tenants", P(root, 1))), "m-set", c.where, f"{n}: the named tenant", show(a[1])[:60])
    add, dele = discr(F, "TenantAction", "Add"), discr(F, "TenantAction", "Del")
    R.check(got.get("insert") in ({(frozenset({str(add)}), True)}, {(frozenset({str(dele)}), False)}), "m-add", b.relfile, "a tenant in use is watched", str(got.get("insert")))
    R.check(got.get("remove") in ({(frozenset({str(dele)}), True)}, {(frozenset({str(add)}), False)}), "m-del", b.relfile, "until it is no longer used", str(got.get("remove")))
    ev = call_events(C, b, lambda c: bool(re.search(r"JoinHandle(<.*>)?::abort$|::fetch_min$|::spawn$", c.name)) or bool(re.search(r"HashSet(<.*>)?::insert$", c.fid or c.name)))
    ab = [e for e in ev if e[0].name.endswith("abort")]
    R.check(len(ab) == 1, "m-abort", b.relfile, "the running task is stopped first", str(len(ab)))
    # ended, not only asked to: the handle is awaited between the abort and the change of the version
    for e in ab:
        h = e[1][0]
        aw = [c for c in b.calls() if c.name.endswith("into_future") and strip(C.T.arg(c, 0)) == strip(h)]
        R.check(any(precedes_all(b, e[0].bb, c.bb, m[0].bb) for c in aw for m in mins), "m-wait", e[0].where, "and has ended before the version is lowered", "it can still store its own version over it")
    # whoever starts to use a tenant tells the version its data was read at
    b = core_of(R, AM + "create_tenant_meta")
    ev = call_events(C, b, lambda c: bool(re.search(r"Sender(<.*>)?::send$|TenantMeta::new$|LimiterManager::create_limiter$", c.fid or c.name)) or bool(re.search(r"HashMap(<.*>)?::insert$", c.fid or c.name)))
    se = [e for e in ev if e[0].name.endswith("send")]
    ins = [e for e in ev if e[0].name.endswith("insert") and has(e[1][0], lambda x: x[0] == "fld" and x[1] == "tenants")]
    R.check(len(se) == 1 and len(ins) == 1, "u-tell", b.relfile, "a tenant taken into use is kept and watched", f"{len(se)} {len(ins)}")
    for e in se:
        x = e[1][1]
        v = getf(x, "version") if x[0] == "agg" else x
        R.check(v is not None and has(v, lambda y: call(y, "TenantMeta::version") or y[0] == "agg" and "TenantMeta::version" in y[1]) and has(v, lambda y: call(y, "TenantMeta::new") or y[0] == "agg" and "TenantMeta::new" in y[1]), "u-ver", e[0].where, "from the version its data was read at", show(v)[:120] if v else "")
        ac = getf(x, "action") if x[0] == "agg" else None
        R.check(ac is not None and ac[0] == "agg" and ac[1].endswith("::Add"), "u-add", e[0].where, "as one to add", show(ac)[:60] if ac else "")
        R.check(all(ev_before(F, i[3], e[3]) for i in ins), "u-order", e[0].where, "kept before the changes for it arrive")


def precedes_all(b, x, y, z):
    """every way from x to z passes y"""
    st, vis = list(b.succs(x)), set()
    while st:
        n = st.pop()
        if n in vis or n == y:
            continue
        vis.add(n)
        if n == z:
            return False
        st.extend(b.succs(n))
    return True


def syncs(R, F):
    C = Cond(F, no_inline=r"::(sync_global_info|read|write)$")
    b = core_of(R, AM + "process_full_sync")
    ev = call_events(C, b, lambda c: bool(re.search(r"::sync_global_info$|HashMap(<.*>)?::clear$", c.fid or c.name)))
    sy = [e for e in ev if e[0].name.endswith("sync_global_info")]
    cl = [e for e in ev if e[0].name.endswith("clear")]
    R.check(len(sy) == 1 and len(cl) == 1 and has(cl[0][1][0], lambda x: x[0] == "fld" and x[1] == "tenants"), "y-sync", b.relfile, "a full sync reads the global data anew and forgets the tenants", f"{len(sy)} {len(cl)}")
    for e in cl:
        R.check(all(ev_before(F, s[3], e[3]) for s in sy), "y-order", e[0].where, "tenants are forgotten after the version was taken")
    for cd, t in C.ret_cases(b):
        if cd:
            R.check(has(t, lambda x: call(x, "sync_global_info") or x[0] == "agg" and "sync_global_info" in x[1]), "y-ver", b.relfile, "the version is that of the data read", show(t)[:80])
    C = Cond(F)
    b = core_of(R, AM + "sync_global_info")
    rd = lambda v: lambda t: has(t, lambda x: x[0] == "agg" and x[1].endswith("ReadCommand::" + v))
    ev = call_events(C, b, lambda c: bool(re.search(r"HashMap(<.*>)?::(insert|clear)$", c.fid or c.name)))
    for fld, cmd in (("data_nodes", "DataNodes"), ("users", "Users")):
        me = [e for e in ev if has(e[1][0], lambda x: x[0] == "fld" and x[1] == fld)]
        cl = [e for e in me if e[0].name.endswith("clear")]
        ins = [e for e in me if e[0].name.endswith("insert")]
        R.check(len(cl) == 1 and len(ins) == 1, "y-all", b.relfile, f"{fld}: replaced as a whole", f"{len(cl)} {len(ins)}")
        for i in ins:
            for u, d, cd in C.loop_exits(b, i[3][-1][1]) if i[3][-1][0] == b.id else ():
                R.check(only_end(C, b, i[3][-1][1], cd), "y-each", i[0].where, f"{fld}: to the last one", show_dnf(cd)[-160:])
            R.check(rd(cmd)(i[1][2]), "y-from", i[0].where, f"{fld}: by what the store answered", show(i[1][2])[-120:])
            R.check(all(ev_before(F, c[3], i[3]) for c in cl), "y-clear", i[0].where, f"{fld}: emptied first")
            bad = [l for cj in i[2] for l in cj if not (l[0][0] == "disc")]
            R.check(not bad, "y-each", i[0].where, f"{fld}: every one", str([show(l[0])[:80] for l in bad]))
    for cd, t in C.ret_cases(b):
        if cd and not is_err(t):
            v = t[2][0] if t[0] == "agg" else t
            R.check(v[0] == "fld" and str(v[1]) == "1" and rd("DataNodes")(v), "y-ver", b.relfile, "the version is the one read with the nodes, before the users", show(v)[-100:])
    dn = [c for c in b.calls() if c.name.endswith("MetaHttpClient::read")]
    for fid, cmd in ((TM + "sync_all_tenant_metadata", "TenantMetaData"), (TM + "write_with_data", None)):
        b = core_of(R, fid)
        root = b.id.rsplit("::{", 1)[0]
        st = dstores(C, b)
        R.check(len(st) == 1, "z-put", b.relfile, "the tenant's data is replaced by what the store answered", str(len(st)))
        for p, v, cd in st:
            isrsp = lambda t: t[0] == "ok"
            older = lambda t: t[0] == "fld" and t[1] == "version" and has(t, lambda x: call(x, "write")) 
            newv = lambda t: t[0] == "fld" and t[1] == "version" and t[2] == v
            R.check(v[0] == "ok", "z-put", b.relfile, "by the answer", show(v)[:80])
            rest = [l for cj in cd for l in cj if not l[0][0] == "disc"]
            R.check(rest and all(newer(l, older, newv) for l in rest), "z-newer", b.relfile, "exactly when that is newer", show_dnf(cd)[:160])
