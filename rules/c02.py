"""The bounded key-value ring: index and map stay in step, eviction is oldest first."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf, dominated
from va.terms import walk, show, alts
from va.lin import lin, add, fz
from va.lib import *
from va.core import place

PKGS = ["cache"]
CRATES = ["cache"]
RULE = """(1) Every write to the ring's head, tail and emptiness is the documented transition: advance and retreat are plus/minus one
modulo the ring's length (no unsigned underflow), head advances exactly when an element leaves the old end or the newest
overwrites the oldest, the ring becomes empty exactly when its only element leaves.  (2) Elements are stored at the (new) tail,
taken at the head (or at the tail when deleting the newest), and the bulk deletions take an element exactly while the
comparison with the given key says so.  (3) In the map, every key that leaves the ring is removed, every key that enters is
inserted under the same key, an existing key only has its value replaced, and making room happens exactly when the ring is full."""

CB = "cache::circular_kvcache::CircularBuffer::"
KV = "cache::circular_kvcache::CircularKVCache::"
IXM = re.compile(r"IndexMut(<.*>)?>?::index_mut$")


def run(R):
    F = R.F
    C = Cond(F)
    f = lambda b, n: ("fld", n, ("param", b.id, 1))
    LEN = lambda t, b: t[0] == "call" and t[1].endswith("::len") and t[2][0] == f(b, "buffer")

    def is_next(t, b, at):
        """(x + 1) % len with at(x)"""
        return t[0] == "bin" and t[1] == "Rem" and LEN(t[3], b) and t[2][0] == "bin" and t[2][1] == "Add" and \
            any(konst(y) == 1 and at(x) for x, y in ((t[2][2], t[2][3]), (t[2][3], t[2][2])))

    def is_prev(t, b, at):
        """len - 1, x - 1, (x - 1) % len, (x + len - 1) % len: as alternatives selected by x == 0 or modulo"""
        if t[0] == "bin" and t[1] == "Sub" and LEN(t[2], b) and konst(t[3]) == 1:
            return "wrap"
        if t[0] == "bin" and t[1] == "Rem" and LEN(t[3], b):
            u = t[2]
            ln = [x for x in walk(u) if LEN(x, b)]
            if u[0] == "bin" and u[1] == "Sub" and konst(u[3]) == 1 and at(u[2]):
                return "step"
            if ln and u[0] == "bin":
                for x in walk(u):
                    if at(x) and fz(lin(u)) == fz(add(add(lin(x), lin(ln[0])), {(): -1})):
                        return "mod"
        if t[0] == "bin" and t[1] == "Sub" and konst(t[3]) == 1 and at(t[2]):
            return "step"
        return None

    def pos(b, name):
        """terms denoting the current value of head/tail, through loops"""
        fld = f(b, name)

        def at(t):
            if t == fld:
                return True
            if t[0] == "phi":
                return any(x == fld for x in alts(t)) or any(at(x) for x in alts(t) if x != t)
            return False
        return at

    def flag(l, b, name="empty"):
        """True/False/None: the literal says ring empty / not empty"""
        t, vs, p = l
        if t == f(b, name):
            return ("1" in vs) == p if vs <= {"1"} else ("0" in vs) != p
        return None

    def empties(cd, b, want):
        return forced(cd, lambda *l: flag(l, b) is want)

    def eq_lit(l, p, q):
        t, vs, pp = l
        if t[0] == "bin" and t[1] == "Eq" and ((p(t[2]) and q(t[3])) or (p(t[3]) and q(t[2]))):
            return ("1" in vs) == pp
        return None

    def writes(b, name):
        return [(p, a[0], cd) for p, a, cd in C.writes(b, name) if strip(a[1]) == ("param", b.id, 1)]

    def strip(t):
        return t

    # is_full, is_empty, get_tail, take
    b = R.body(CB + "is_full")
    rs = C.full_cases(b)

    def full_term(t, b):
        return t[0] == "bin" and t[1] == "Eq" and any(is_next(x, b, pos(b, "tail")) and y == f(b, "head") for x, y in ((t[2], t[3]), (t[3], t[2])))
    R.check(any(full_term(t, b) for _, t in rs) and all(full_term(t, b) or konst(t) is False for _, t in rs), "is-full", b.relfile, "full exactly when advancing the tail meets the head", f"is_full: {[show(t) for _, t in rs]}")
    b = R.body(CB + "get_tail")
    for cd, t in C.ret_cases(b):
        if variant(t) == "1":
            R.check(has(t, lambda x: x[0] == "idx" and x[1] == f(b, "buffer") and x[2] == f(b, "tail")) and empties(cd, b, False), "get-tail", b.relfile, "the newest element is at the tail of a non-empty ring", show(t)[:150])
        elif variant(t) == "0":
            R.check(empties(cd, b, True), "get-tail-none", b.relfile, "no newest element only in an empty ring", show_dnf(cd)[:200])
        else:
            R.bad("get-tail", b.relfile, f"unrecognised result {show(t)[:150]}")
    # push
    b = R.body(CB + "push")
    ws = writes(b, "empty")
    R.check(len(ws) >= 1 and all(konst(v) is False for _, v, _ in ws) and not uncovered(C, [cd for _, _, cd in ws], lambda l: flag(l, b) is True), "push-empty", b.relfile,
            "pushing into an empty ring makes it non-empty", f"writes {[(show(v), show_dnf(c)[:80]) for _, v, c in ws]}")
    for _, v, cd in writes(b, "tail"):
        R.check(is_next(v, b, pos(b, "tail")) and cd and empties(cd, b, False), "push-tail", b.relfile, "the tail advances by one, exactly in a non-empty ring", f"tail = {show(v)[:120]} if {show_dnf(cd)[:160]}")
    R.check(len(writes(b, "tail")) == 1 and cover(writes(b, "tail")[0][2], lambda l: flag(l, b) is False), "push-tail-always", b.relfile, "a push into a non-empty ring advances the tail")
    ws = writes(b, "head")
    R.check(len(ws) == 1 and is_next(ws[0][1], b, pos(b, "head")) and
            cover(ws[0][2], lambda l: flag(l, b) is False or eq_lit(l, lambda x: is_next(x, b, pos(b, "tail")), pos(b, "head")) is True), "push-head", b.relfile,
            "the oldest element is dropped exactly when the new tail meets the head", f"head writes {[(show(v)[:100], show_dnf(c)[:200]) for _, v, c in ws]}")
    st = C.sites(b, lambda c: IXM.search(c.name) or IXM.search(c.fid or ""))
    seen = {True: False, False: False}
    for c, a, cd in st:
        if a[0] != f(b, "buffer"):
            continue
        for em in (True, False):
            if empties(cd, b, em):
                good = a[1] == f(b, "tail") if em else is_next(a[1], b, pos(b, "tail"))
                seen[em] = seen[em] or good
                R.check(good, f"push-slot:{'empty' if em else 'non-empty'}", c.where, "the element is stored at the (new) tail", f"stored at {show(a[1])[:140]}")
        if not empties(cd, b, True) and not empties(cd, b, False):
            al = alts(a[1])
            good = any(x == f(b, "tail") for x in al) and any(is_next(x, b, pos(b, "tail")) for x in al) and len(al) == 2
            seen = {True: good, False: good}
            R.check(good, "push-slot", c.where, "the element is stored at the (new) tail", f"stored at {show(a[1])[:140]}")
    R.check(seen[True] and seen[False], "push-stores", b.relfile, "both an empty and a non-empty ring store the element")
    # pop
    b = R.body(CB + "pop")
    removal(R, C, b, "pop", writes, is_next, None, pos, eq_lit, flag, empties, f, end="head", cmp=None)
    # bulk deletions
    removal(R, C, R.body(CB + "del_before"), "del_before", writes, is_next, None, pos, eq_lit, flag, empties, f, end="head", cmp=("lt", True))
    removal(R, C, R.body(CB + "del_after"), "del_after", writes, None, is_prev, pos, eq_lit, flag, empties, f, end="tail", cmp=("lt", False))
    # construction
    b = R.body(CB + "new")
    for cd, t in C.ret_cases(b):
        if t[0] == "agg":
            names = t[3] if len(t) > 3 else None
            g = lambda n: getfield(t, n)
            R.check(konst(g("head")) == 0 and konst(g("tail")) == 0 and konst(g("empty")) is True, "new", b.relfile, "a new ring is empty with head and tail at the same slot", show(t)[:200])
            R.check(mentions(g("buffer"), ("param", b.id, 1)), "new-size", b.relfile, "a new ring has the requested number of slots", show(t)[:200])

    # the map
    K = Cond(F, no_inline=r"CircularBuffer::")
    call = lambda t, n: t[0] == "call" and t[1] == CB + n
    ring = lambda c, n: c.fid == CB + n
    b = R.body(KV + "put")
    key, val = ("param", b.id, 2), ("param", b.id, 3)
    ins = K.sites(b, lambda c: MAPINS.search(c.fid or "") or ORINS.search(c.fid or "") or VACINS.search(c.fid or ""))
    push = K.sites(b, lambda c: ring(c, "push"))
    R.check(len(push) == 1 and push[0][1][1] == key, "put-push", b.relfile, "the new key enters the ring", f"{[show(x[1][1]) for x in push]}")

    def present(l):
        t, vs, p = l
        if t[0] == "call" and MAPGET.search(t[1]) and t[2][0] == f(b, "cache") and t[2][1] == key:
            return ("1" in vs) == p
        if t[0] == "disc" and t[1][0] == "call" and (MAPGET.search(t[1][1]) or MAPINS.search(t[1][1])) and t[1][2][1] == key:
            return ("1" in vs) == p if vs <= {"1"} else ("0" in vs) != p
        return None
    for c, a, cd in push:
        R.check(cover(cd, lambda l: present(l) is False or is_full_lit(l, b, call, full_term)), "put-push-absent", c.where, "a key enters the ring exactly when it is not in the map yet", f"if {show_dnf(cd)[:200]}")
    cov = {True: False, False: False}
    for c, a, cd in ins:
        R.check(a[0] == f(b, "cache") and a[1] == key and a[2] == val, "put-insert", c.where, "the value is stored under the given key", f"insert({', '.join(show(x)[:60] for x in a[1:])})")
        for want in (True, False):
            if cd == TRUE or cover(cd, lambda l: present(l) is want or is_full_lit(l, b, call, full_term)):
                cov[want] = True
    # *get_mut(key) = value
    for bb, idx, dst, v in C_stores(K, b):
        if dst[0] == "ok" and dst[1][0] == "call" and dst[1][1].endswith("::get_mut") and dst[1][2] == (f(b, "cache"), key) and v == val:
            if cover(K.rc(b, bb), lambda l: present(l) is True):
                cov[True] = True
    R.check(cov[True], "put-replace", b.relfile, "an existing key gets the new value")
    R.check(cov[False], "put-new", b.relfile, "a new key is inserted")
    pops = K.sites(b, lambda c: ring(c, "pop"))
    fullcond = lambda l: is_full_lit(l, b, call, full_term) and ("1" in l[1]) == l[2]
    new = lambda l: present(l) is False or l[0][0] == "disc" and l[0][1][0] == "call" and l[0][1][1].endswith("HashMap::entry") and l[0][1][2][1] == key and ("1" in l[1]) == l[2]
    R.check(len(pops) == 1 and all(forced(cd, lambda *l: fullcond(l)) and forced(cd, lambda *l: new(l)) and cover(cd, lambda l: fullcond(l) or present(l) is False) for _, _, cd in pops), "put-evict", b.relfile,
            "the oldest key is evicted exactly when a new key meets a full ring", f"{[show_dnf(c)[:200] for _, _, c in pops]}")
    if push and pops:
        R.check(not any(c.body.id == push[0][0].body.id and dominated(c.body, c.bb, [push[0][0].bb]) for c, _, _ in pops), "put-evict-first", b.relfile, "room is made before the key enters")
    rem = K.sites(b, lambda c: re.search(r"HashMap(<.*>)?::remove(_entry)?$", c.fid or ""))
    R.check(len(rem) == 1 and rem[0][1][0] == f(b, "cache") and call_in(rem[0][1][1], CB + "pop") and
            cover(rem[0][2], lambda l: fullcond(l) or present(l) is False or (l[0][0] == "disc" and call(l[0][1], "pop"))), "put-evict-map", b.relfile,
            "the evicted key leaves the map too", f"{[(show(x[1][1])[:80], show_dnf(x[2])[:160]) for x in rem]}")
    for op in ("del_before", "del_after"):
        b = R.body(KV + op)
        dl = K.sites(b, lambda c: ring(c, op))
        R.check(len(dl) == 1 and dl[0][2] == TRUE and dl[0][1][1] == ("param", b.id, 2), f"{op}-ring", b.relfile, f"{op} drains the ring with the given key")
        rem = K.sites(b, lambda c: re.search(r"HashMap(<.*>)?::remove(_entry)?$", c.fid or ""))
        src = lambda t: t[0] == "ok" and call(t[1], op) or t[0] == "ok" and t[1][0] == "call" and re.search(r"(iter|into_iter|drain)$", t[1][1]) and call_in(t[1], CB + op)
        R.check(len(rem) == 1 and rem[0][1][0] == f(b, "cache") and src(rem[0][1][1]) and
                all(l[0][0] == "disc" and call_in(l[0], CB + op) for l in lits(rem[0][2])), f"{op}-map", b.relfile, f"{op}: every drained key leaves the map",
                f"{[(show(x[1][1])[:100], show_dnf(x[2])[:160]) for x in rem]}")
    b = R.body(KV + "get")
    R.check(all(t[0] == "call" and t[1].endswith("HashMap::get") and t[2] == (f(b, "cache"), ("param", b.id, 2)) for _, t in K.ret_cases(b)), "kv-get", b.relfile, "a look-up asks the map for the given key")
    b = R.body(KV + "last")
    gs = K.sites(b, lambda c: re.search(r"HashMap(<.*>)?::get$", c.fid or ""))
    R.check(len(gs) == 1 and gs[0][1][0] == f(b, "cache") and call_in(gs[0][1][1], CB + "get_tail"), "kv-last", b.relfile, "last is the value under the newest key", f"{[show(x[1][1]) for x in gs]}")
    b = R.body(KV + "new")
    ns = K.sites(b, lambda c: c.fid == CB + "new")
    R.check(len(ns) == 1 and ns[0][1][0] == ("param", b.id, 1), "kv-new", b.relfile, "the ring has the requested capacity")
    # nothing else writes the ring or the map
    allowed = {CB + x for x in ("push", "pop", "del_before", "del_after", "new", "take")}
    n = 0
    for x in F.bodies("cache"):
        if not x.id.startswith(CB) or "::test" in x.id:
            continue
        n += 1
        for p, _, _ in C.writes(x, "head|tail|empty", closures=False):
            R.check(x.id.split("::{")[0] in allowed, f"writer:{x.id}", x.relfile, "head, tail and emptiness only change in the ring's own operations", f"{x.id} writes {p[3]}")
    R.floor(n, 10, "ring functions")


def C_stores(C, b):
    """stores through a dereferenced local: (bb, idx, target term, value term)"""
    out = []
    for bb in b.reachable():
        for i, st in enumerate(b.blocks[bb]["s"]):
            if st[0] == "=":
                l, p = place(st[1])
                if tuple(p) == ("*",):
                    out.append((bb, i, C.T.local(b, l, (), (bb, i)), C.T.rv(b, st[2], (bb, i), 0, ())))
    return out


def getfield(t, n):
    for x in walk(t):
        pass
    from va.terms import getf
    return getf(t, n)


def variant(t):
    from va.cond import variant_index
    return variant_index(t)


def call_in(t, fid):
    return has(t, lambda x: x[0] == "call" and x[1] == fid)


def is_full_lit(l, b, call, full_term):
    return call(l[0], "is_full") or full_term(l[0], b)


def cover(dnf, pred):
    """some conjunct consists of nothing but literals satisfying pred"""
    return any(all(pred(l) for l in cj) for cj in dnf)


def uncovered(C, cds, pred):
    return not any(cover(cd, pred) for cd in cds)


def removal(R, C, b, tag, writes, is_next, is_prev, pos, eq_lit, flag, empties, f, end, cmp):
    head, tail = pos(b, "head"), pos(b, "tail")
    at = head if end == "head" else tail
    key = ("param", b.id, 2)

    def cmp_lit(l):
        """True: the compared element is on the deleting side"""
        t, vs, p = l
        if cmp and t[0] == "bin" and t[1] == "Lt" and t[3] == key and t[2][0] == "idx" and t[2][1] == f(b, "buffer") and at(t[2][2]):
            return (("1" in vs) == p) == cmp[1]
        return None
    eq = lambda l: eq_lit(l, head, tail)
    base = lambda l: flag(l, b) is False or cmp_lit(l) is True or l[0][0] == "disc"
    ws = writes(b, "empty")
    R.check(len(ws) == 1 and konst(ws[0][1]) is True and cover(ws[0][2], lambda l: base(l) or eq(l) is True) and forced(ws[0][2], lambda *l: eq(l) is True),
            f"{tag}-empty", b.relfile, f"{tag}: the ring becomes empty exactly when its only element leaves", f"{[(show(v), show_dnf(c)[:240]) for _, v, c in ws]}")
    ws = writes(b, end)
    other = writes(b, "tail" if end == "head" else "head")
    R.check(not other, f"{tag}-other-end", b.relfile, f"{tag}: the other end stays", f"{len(other)} writes")
    kinds = []
    exp = []
    for p, v, cd in ws:
        pb, bb, ix, _ = p
        if v[0] == "phi" and pb.id == b.id:
            st = pb.blocks[bb]["s"][ix]
            exp.extend((p, t2, C.conj(cd, c2)) for c2, t2 in C.split(pb, TRUE, v, (bb, ix), "=", st[2]))
        else:
            exp.append((p, v, cd))
    for _, v, cd in exp:
        if end == "head":
            k = "step" if is_next(v, b, at) else None
        else:
            k = is_prev(v, b, at)
            if k == "wrap" and not forced(cd, lambda *l: zero(l, at) is True):
                k = None
            if k == "step" and not forced(cd, lambda *l: zero(l, at) is False):
                k = None
        kinds.append(k)
        R.check(k is not None and forced(cd, lambda *l: eq(l) is False) and cover(cd, lambda l: base(l) or eq(l) is False or zero(l, at) is not None), f"{tag}-{end}", b.relfile,
                f"{tag}: the {end} moves by one inside the ring, exactly when another element remains", f"{tag}: {end} = {show(v)[:140]} if {show_dnf(cd)[:240]}")
    full = {"step"} if end == "head" else None
    R.check(bool(kinds) and (set(kinds) == {"step"} if end == "head" else set(kinds) in ({"wrap", "step"}, {"mod"})), f"{tag}-{end}-moves", b.relfile, f"{tag}: the {end} moves past every removed element", f"{kinds}")
    tk = C.sites(b, lambda c: re.search(r"mem::(take|replace|swap)$", c.fid or ""))
    R.check(len(tk) == 1 and tk[0][1][0][0] == "idx" and at(tk[0][1][0][2]) and cover(tk[0][2], base) and empties(tk[0][2], b, False) and
            (not cmp or forced(tk[0][2], lambda *l: cmp_lit(l) is True)), f"{tag}-take", b.relfile,
            f"{tag}: takes the element at the {end}" + (", exactly while it is on the deleting side of the key" if cmp else ""), f"{[(show(x[1][0])[:120], show_dnf(x[2])[:240]) for x in tk]}")
    if cmp:
        ps = C.sites(b, lambda c: re.search(r"Vec(<.*>)?::push$", c.fid or ""))
        R.check(len(ps) == 1 and tk and (ps[0][2] == tk[0][2] or has(ps[0][1][1], lambda x: x[0] == "call" and x[1].endswith("::pop"))) and has(ps[0][1][1], lambda x: x[0] == "idx" and at(x[2]) or x[0] == "call" and x[1] == CB + "pop" and end == "head"), f"{tag}-returned", b.relfile, f"{tag}: every taken element is returned")
    else:
        for cd, t in C.ret_cases(b):
            v = variant(t)
            if v == "1":
                R.check(has(t, lambda x: x[0] == "idx" and at(x[2])) and empties(cd, b, False), f"{tag}-result", b.relfile, f"{tag}: returns the element at the {end}", show(t)[:160])
            elif v == "0":
                R.check(empties(cd, b, True) and cover(cd, lambda l: flag(l, b) is True), f"{tag}-none", b.relfile, f"{tag}: nothing is returned only from an empty ring", show_dnf(cd)[:160])


def zero(l, at):
    t, vs, p = l
    if t[0] == "bin" and t[1] == "Eq" and any(konst(y) == 0 and at(x) for x, y in ((t[2], t[3]), (t[3], t[2]))):
        return ("1" in vs) == p
    if at(t):
        return ("0" in vs) == p if vs == frozenset(["0"]) else None
    if t[0] == "bin" and t[1] == "Lt" and konst(t[2]) == 0 and at(t[3]):
        return ("1" in vs) != p
    return None
