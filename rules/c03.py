"""Rate limiter: grants are conserved."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf, dominated, precedes, reads
from va.terms import walk, show, alts
from va.lin import lin, add, eq, fz

PKGS = ["limiter_bucket"]
LEVEL = "other"
RULE = """For every public method of the token bucket that can change the balance: (1) exactly one acquisition of the bucket's
lock on any path, so that deciding and deducting are one critical section; (2) the refill step runs under that lock before
the balance is read; (3) for every pair of a return case and a balance write that can happen together, granted + new balance
- old balance is identically zero as a polynomial, and a return case that grants tokens has such a write; (4) after the
refill every path leaves the balance at most the maximum; (5) refill arithmetic: tokens and the new deadline as
polynomials of now, the old deadline and the interval; the new deadline is stored whenever tokens are added;
(6) every constructor starts with a balance of at most the maximum."""

B = "limiter_bucket::rate_bucket::RateBucket"


def run(R):
    F = R.F
    C = Cond(F)
    lock = lambda c: bool(re.search(r"Mutex::(lock|try_lock)", c.fid or ""))
    ent = 0
    for b in F.bodies("limiter_bucket", r"^" + re.escape(B) + r"::\w+$"):
        if not b.pub:
            continue
        wr = C.writes(b, "balance")
        if not wr:
            continue
        name = b.id.rsplit("::", 1)[-1]
        ent += 1
        locks = C.sites(b, lock)
        pairs = [(x, y) for i, x in enumerate(locks) for y in locks[i + 1:] if C.conj(x[2], y[2])]
        R.check(len(locks) >= 1 and not pairs, f"one-section:{name}", b.relfile, f"{name}: the balance is examined and deducted under one acquisition of the bucket's lock",
                f"{name}: lock acquired at {[str(c.where) for c, _, _ in locks]} on one path")
        # refill happens before anything is decided
        refill = [(p, a, cd) for (p, a, cd) in wr if any(q[0].id == p[0].id for q, _, _ in C.writes(p[0], "deadline", closures=True) if q[0].id == p[0].id)]
        grant = [(p, a, cd) for (p, a, cd) in wr if (p, a, cd) not in refill]
        R.check(bool(refill), f"refills:{name}", b.relfile, f"{name}: due tokens are added before granting")
        rbod = {p[0].id for p, _, _ in refill}
        for (p, a, cd) in grant:
            gb = p[0]
            rsites = [c.bb for c in gb.calls() if any(t in rbod for t in F.reach([x for x in F.targets(c)] or ["-"]))] if gb.id not in rbod else []
            if gb.id == b.id and rsites:
                for (bb, i, pl) in reads(gb, "balance"):
                    R.check(dominated(gb, bb, rsites), f"refill-first:{name}", gb.relfile, f"{name}: the balance is read after the refill")
        base0 = None
        for (p, a, cd) in wr:
            base0 = base0 or a[1]
            R.check(a[1] == base0 and any(x[0] == "call" and "Mutex::" in x[1] for x in walk(a[1])), f"guarded:{name}", p[0].relfile, f"{name}: the balance is only written through the lock guard")
        old = ("fld", "balance", base0)
        # conservation
        for cd, ret in C.ret_cases(b):
            if ret[0] == "call" and F.has(ret[1]):
                continue   # forwards to another method, checked there
            if ret[0] == "err" or ret[0] == "agg" and ret[1].endswith("::Err"):
                g = {}
            elif ret[0] == "agg" and ret[1].endswith("::Ok"):
                g = lin(("param", b.id, 2)) if b.argc >= 2 else {(): 1}
            else:
                g = lin(ret)
            mates = [(p, a) for (p, a, wc) in grant if C.conj(cd, wc)]
            # literals `x == 0` let us drop x
            zeros = set()
            for cj in cd:
                for (t, vs, pos) in cj:
                    if pos and vs == frozenset(["1"]) and t[0] == "bin" and t[1] == "Eq":
                        for x, y in ((t[2], t[3]), (t[3], t[2])):
                            if konst(y) == 0:
                                zeros.add(fz(lin(x)))
            if fz(g) in zeros:
                g = {}
            if not mates:
                R.check(not g, f"grant:{name}", b.relfile, f"{name}: nothing is granted without deducting it", f"{name}: {show(ret)[:80]} is granted but the balance is not reduced (when {show_dnf(cd)[:200]})")
            for (p, a) in mates:
                d = add(add(g, {} if a[0] == ("taken", old) else lin(a[0])), lin(old), -1)
                R.check(not d, f"conserve:{name}", f"{p[0].relfile}", f"{name}: granted + remaining = available",
                        f"{name}: grants {show(ret)[:80]} but leaves {show(a[0])[:120]} (when {show_dnf(cd)[:160]})")
                # deductions must be exact: guarded by balance >= amount
                v = a[0]
                amt = v[3] if v[0] == "bin" and v[1] == "Sub" else v[2][1] if v[0] == "call" and re.search(r"(wrapping|saturating|overflowing|unchecked)_sub$", v[1]) else None
                if amt is not None:
                    wc = [w for (q, x, w) in grant if q == p][0]
                    okg = all(any(t[0] == "bin" and t[1] == "Lt" and t[2] == old and eq(t[3], amt) and not pos for (t, vs, pos) in cj) for cj in wc)
                    R.check(okg or any(x[0] == "call" and x[1].endswith("::min") and any(y == old for y in x[2]) for x in walk(amt)), f"exact:{name}", p[0].relfile,
                            f"{name}: the deduction cannot wrap or saturate", f"{name}: {show(amt)[:60]} is deducted without having checked that the balance covers it (when {show_dnf(wc)[:200]})")
            # nothing is withheld: less than asked only when the balance does not cover it
            want = lin(("param", b.id, 2)) if b.argc >= 2 else {(): 1}
            if add(g, want, -1) and fz(want) not in zeros:
                less = all(any((t[0] == "bin" and t[1] == "Lt" and t[2] == old and lin(t[3]) == want and pos)
                               or (t[0] == "disc" and t[1][0] == "call" and t[1][1].endswith("checked_sub") and t[1][2][0] == old and ("0" in vs) == pos) for (t, vs, pos) in cj) for cj in cd)
                mn = any(x[0] == "call" and x[1].endswith("::min") and any(y == old for y in x[2]) for x in walk(ret))
                R.check(less or mn, f"withheld:{name}", b.relfile, f"{name}: less than asked is granted only when the balance does not cover it",
                        f"{name}: {show(ret)[:80]} is returned although the balance may cover the request (when {show_dnf(cd)[:200]})")
    R.floor(ent, 3, "granting methods")

    # (4) clamp, (5) refill arithmetic: functions writing the deadline
    rf = [b for b in F.bodies("limiter_bucket", r"^" + re.escape(B) + r"::\w+$") if any(p[0].id == b.id for p, _, _ in C.writes(b, "deadline"))]
    R.floor(len(rf), 1, "refill functions")
    for b in rf:
        dl = [(p, a, cd) for (p, a, cd) in C.writes(b, "deadline")]
        bw = [(p, a, cd) for (p, a, cd) in C.writes(b, "balance") if p[0].id == b.id]
        adds = [x for x in bw if not is_max(x[1][0])]
        for (p, a, cd) in adds:
            if is_min_with_max(a[0]):
                R.ok(f"clamp", b.relfile, "refilled balance is clamped by min(_, max)")
                continue
            # must be followed on every path by: store max, or a test showing balance <= max
            okb = clamped(C, b, p, bw)
            R.check(okb, "clamp", b.relfile, "after adding tokens every path leaves the balance at most the maximum",
                    f"a path from the refill at block {p[1]} leaves the balance unclamped")
            R.check(any(C.conj(cd, c2) == cd for _, _, c2 in dl), "deadline-stored", b.relfile, "the deadline advances whenever tokens are added")
        for (p, a, cd) in dl:
            R.check(all(C.conj(cd, x[2]) for x in adds), "deadline-pairs", b.relfile, "tokens are added whenever the deadline advances")
        # arithmetic, from the refill function's own frame
        self_ = ("param", b.id, 1)
        now = None
        for (p, a, cd) in dl:
            for t in walk(a[0]):
                if t[0] == "call" and re.search(r"Utc::now$", t[1]):
                    now = t
        C3 = Cond(F, no_inline=None)
        # expand the drain result by cases
        drain = None
        for c in b.calls():
            for t in F.targets(c):
                tb = F.get(t)
                if tb and any(re.search(r"Utc::now$", x.fid or "") for x in tb.calls()):
                    drain = (c, tb)
        if drain:
            c, tb = drain
            args = C.T.args(c)
            cases = [(C.subst(cd, tb.id, args), C.T.subst(t, tb.id, args)) for cd, t in C.ret_cases(tb)]
            some = [(cd, t) for cd, t in cases if t[0] == "agg" and t[1].endswith("::Some")]
            none = [(cd, t) for cd, t in cases if t[0] == "agg" and t[1].endswith("::None")]
            R.need(some, "refill step has no producing case")
            for cd, t in some:
                tup = t[2][0]
                tk = alts(tup[2][0])
                full = [x for x in tk if not (konst(x) == (1 << 64) - 1 or show(x) == "MAX")]
                # more than usize can hold: as many as it holds
                tok, dlv = lin(full[0] if len(full) == 1 and len(tk) <= 2 else tup[2][0]), lin(tup[2][1])
                nowa = [x for x in walk(t) if x[0] == "call" and re.search(r"Utc::now$", x[1])]
                R.need(nowa, "refill does not read the clock")
                N = lin(nowa[0])
                oldd = lin([x for x in args if x[0] == "fld" and x[1] == "deadline"][0])
                iv = [x for x in args if x[0] == "fld" and x[1] == "interval"][0]
                I = lin(iv)
                since = add(N, oldd, -1)
                ms = [fz(I)] + [fz({(("max", frozenset([fz(I), fz({(): 1})])),): 1})]
                okT = any(tok == add({(("div", fz(since), m),): 1}, {(): 1}) for m in ms)
                okD = any(dlv == add(add(N, I), {(("rem", fz(since), m),): 1}, -1) for m in ms) or any(
                    dlv == add(oldd, mul_(I, tok)) for m in ms)
                R.check(okT, "tokens", tb.relfile, "tokens due = elapsed / interval + 1", f"tokens due are computed as {show(tup[2][0])[:200]}")
                R.check(okD, "deadline", tb.relfile, "next deadline = now + interval - elapsed mod interval", f"next deadline computed as {show(tup[2][1])[:200]}")
            for cd, t in none:
                good = all(any(l[0][0] == "bin" and l[0][1] == "Lt" and any(x[0] == "call" and x[1].endswith("Utc::now") for x in walk(l[0][2])) and any(x[0] == "fld" and x[1] == "deadline" for x in walk(l[0][3])) and l[2] for l in cj) for cj in cd)
                R.check(good, "not-due", tb.relfile, "no refill only before the deadline", f"no refill when {show_dnf(cd)[:200]}")
        for (p, a, cd) in adds:
            v = a[0]
            inner = v
            mm = [x for x in walk(v) if x[0] == "fld" and x[1] == "refill"]
            R.check(bool(mm), "refill-amount", b.relfile, "the added amount is a multiple of the configured refill")
            d = add(lin(strip_min(v)), lin(("fld", "balance", a[1])), -1)
            d = {m: k for m, k in d.items()}
            ok1 = len(d) == 1 and list(d.values())[0] == 1 and len(list(d)[0]) == 2 and any(x[0] == "t" and x[1][0] == "fld" and x[1][1] == "refill" for x in list(d)[0])
            R.check(ok1, "refill-adds", b.relfile, "new balance = old balance + tokens x refill (clamped)", f"refilled balance is {show(v)[:200]}")

    # (6) constructors
    n = 0
    for b in F.bodies("limiter_bucket"):
        for bb in sorted(b.reachable()):
            for j, s in enumerate(b.blocks[bb]["s"]):
                if s[0] == "=" and s[2][0] == "agg" and re.search(r"rate_bucket::RateBucket($|\b)", s[2][1]) and "max" in s[2][3] and "critical" in s[2][3]:
                    if "Deserialize" in b.id or "Visitor" in b.id:
                        continue
                    n += 1
                    t = C.T.rv(b, s[2], (bb, j), 0, ())
                    mx = t[2][t[3].index("max")]
                    cr = t[2][t[3].index("critical")]
                    bal = [x[2][x[3].index("balance")] for x in walk(cr) if x[0] == "agg" and "balance" in x[3]]
                    good = bal and bounded(bal[0], mx)
                    R.check(bool(good), "initial", b.relfile, "a new bucket starts with at most its maximum", f"initial balance {show(bal[0])[:100] if bal else '?'} is not bounded by the maximum")
    R.floor(n, 1, "constructors")


def bounded(v, mx):
    if v == mx or konst(v) == 0:
        return True
    if v[0] == "call" and v[1].endswith("::min"):
        return any(x == mx for x in v[2])
    if v[0] == "call" and v[1].endswith("::clamp"):
        return v[2][2] == mx
    if v[0] == "phi":
        return all(bounded(x, mx) for x in v[1])
    return False


def mul_(a, b):
    from va.lin import mul
    return mul(a, b)


def is_max(v):
    return v[0] == "fld" and v[1] == "max"


def is_min_with_max(v):
    return v[0] == "call" and v[1].endswith("::min") and any(is_max(x) for x in v[2])


def strip_min(v):
    if is_min_with_max(v):
        return [x for x in v[2] if not is_max(x)][0]
    return v


def clamped(C, b, p, bw):
    """from the write p every path to return meets a store of max/min(_,max) or a branch edge implying balance <= max"""
    stores = {}
    for (q, a, cd) in bw:
        if is_max(a[0]) or is_min_with_max(a[0]):
            stores.setdefault(q[1], []).append(q[2])
    safe_edges = set()
    for x in b.reachable():
        t = b.blocks[x]["t"]
        if t[0] != "switch":
            continue
        term = C.T.op(b, t[1], (x, len(b.blocks[x]["s"])))
        for d in b.succs(x):
            vals = [v for v, dd in t[2] if dd == d]
            l = C.norm(term, vals, True) if vals else C.norm(term, [v for v, _ in t[2]], False)
            good = bool(l) and all(any((tt[0] == "bin" and tt[1] == "Lt" and not pos and is_max(tt[2]) and tt[3][0] == "fld" and tt[3][1] == "balance")
                           or (tt[0] == "bin" and tt[1] == "Lt" and pos and tt[2][0] == "fld" and tt[2][1] == "balance" and is_max(tt[3])) for (tt, vs, pos) in cj) for cj in l)
            if good:
                safe_edges.add((x, d))
    if any(i > p[2] for i in stores.get(p[1], [])):
        return True
    st, seen = [(p[1], d) for d in b.succs(p[1]) if (p[1], d) not in safe_edges], set()
    if b.blocks[p[1]]["t"][0] == "ret":
        return False
    while st:
        _, x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in stores:
            continue
        if b.blocks[x]["t"][0] == "ret":
            return False
        st.extend((x, d) for d in b.succs(x) if (x, d) not in safe_edges)
    return True
