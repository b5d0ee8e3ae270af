"""Time precisions and durations convert exactly, saturate or refuse."""
import re
from va.cond import Cond, TRUE, konst, show_dnf, variant_index
from va.terms import walk, show, getf, alts
from va.dom import ns_const, NS, AS
from va.lib import *

PKGS = ["utils"]
CRATES = ["utils"]
RULE = """(1) For each of the nine pairs of precisions, the value timestamp_convert returns under the path condition of that pair is the
timestamp itself (same unit), the timestamp divided by the exact ratio of the units (coarser target) or an overflow-checked
product with the exact ratio (finer target).  (2) The names, numeric codes and arrow time units of the precisions are one
bijection, and an unknown name is refused.  (3) A duration is returned in the unit the function is named for, capped at the
largest i64 before narrowing; the infinite duration is the largest i64 in every unit; to_precision picks the unit of the
precision.  (4) Days are turned into seconds with the exact factor, guarded against wrap-around; text is parsed as days, INF or a
duration, and anything else is refused; INF is printed as what is parsed as INF."""
UNIT = {"MS": 10**6, "US": 10**3, "NS": 1}
IMAX = 2**63 - 1
P = "utils::precision::"
D = "utils::duration::CnosDuration::"


def allowed(cd, term, n):
    """discriminants of `term` (0..n-1) compatible with the condition, with the remaining literals"""
    out = []
    for cj in cd:
        s = set(range(n))
        rest = []
        for t, vs, p in cj:
            if t == term:
                v = {int(x) for x in vs}
                s = s & v if p else s - v
            else:
                rest.append((t, vs, p))
        out.append((s, rest))
    return out


def run(R):
    F = R.F
    C = Cond(F)
    it = F.items.get(P + "Precision")
    R.need(it is not None, "enum Precision not found")
    vs = [v["name"] for v in it["variants"]]
    R.check(set(vs) == set(UNIT), "precisions", "common/utils/src/precision.rs", "the precisions are MS, US and NS", f"{vs}")
    # (1)
    b = R.body(P + "timestamp_convert")
    pf, pt, ts = (("param", b.id, i) for i in (1, 2, 3))
    n = len(vs)
    got = {}
    for cd, t in C.full_cases(b):
        for cj in cd:
            for i in range(n):
                for j in range(n):
                    good = True
                    for lt, lv, lp in cj:
                        r = lit_val(lt, lv, lp, pf, pt, i, j)
                        if r is False:
                            good = False
                    if good:
                        got.setdefault((i, j), []).append(t)
    for i in range(n):
        for j in range(n):
            a, z = UNIT[vs[i]], UNIT[vs[j]]
            res = got.get((i, j), [])
            # the first matching arm wins only when conditions are exclusive; every candidate must do
            for t in res:
                R.check(conv_ok(t, ts, a, z), f"convert:{vs[i]}-{vs[j]}", b.relfile, "exact conversion", f"{vs[i]} to {vs[j]} gives {show(t)[:120]}")
            R.check(bool(res), f"convert-defined:{vs[i]}-{vs[j]}", b.relfile, "the pair is converted")
    # (2)
    b = R.body(P + "Precision::new")
    txt = ("param", b.id, 1)
    names = {}
    for cd, t in C.full_cases(b):
        if variant_index(t) == "1":
            v = t[2][0][1].rsplit("::", 1)[-1] if t[2][0][0] == "agg" else "?"
            for cj in cd:
                ks = {konst(z).upper() for l in cj if l[2] == ("1" in l[1]) and l[0][0] == "bin" and l[0][1] == "Eq" for z in l[0][2:4] if isinstance(konst(z), str)}
                ks |= {konst(z).upper() for l in cj if l[2] == ("1" in l[1]) and l[0][0] == "call" and l[0][1].endswith("eq_ignore_ascii_case") for z in l[0][2] if isinstance(konst(z), str)}
                R.check(ks == {v}, f"name:{v}", b.relfile, "a precision is parsed from its own name", f"{v} is parsed when {show_dnf(frozenset([cj]))[:200]}")
                names[v] = ks
        else:
            R.check(variant_index(t) == "0", "name-unknown", b.relfile, "other names are refused", show(t)[:100])
    R.check(set(names) == set(UNIT), "name-all", b.relfile, "every precision has a name", f"{names}")
    b = R.body(f"<{P}Precision as core::fmt::Display>::fmt")
    disp = {}
    for cd, t in C.ret_cases(b):
        for s, rest in allowed(cd, ("disc", ("param", b.id, 1)), n):
            ks = {konst(x) for x in walk(t) if x[0] == "k" and isinstance(konst(x), str)}
            fp = fmt_pieces(t)
            if not ks and fp and len(fp) == 1:
                ks = {fp[0]}
            for i in s:
                disp.setdefault(vs[i], set()).update(ks)
    for v in vs:
        R.check(disp.get(v) == {v}, f"display:{v}", b.relfile, "a precision prints as its name", f"{v} prints {disp.get(v)}")
    b = R.body(f"<{P}Precision as core::convert::From<u8>>::from")
    for cd, t in C.full_cases(b):
        for cj in cd:
            for l in cj:
                pass
        v = t[1].rsplit("::", 1)[-1] if t[0] == "agg" else "?"
        for s, rest in allowed(cd, ("param", b.id, 1), 256):
            for k in s:
                if k < n:
                    R.check(v == vs[k], f"code:{k}", b.relfile, "a stored code reads back as the precision with that code", f"code {k} reads as {v}")
    for nm, dst in ((f"<{P}Precision as core::convert::From<arrow_schema::datatype::TimeUnit>>::from", True), (f"<arrow_schema::datatype::TimeUnit as core::convert::From<{P}Precision>>::from", False)):
        b = R.body(nm)
        AR = ["Second", "Millisecond", "Microsecond", "Nanosecond"]
        pair = {"Millisecond": "MS", "Microsecond": "US", "Nanosecond": "NS"}
        for cd, t in C.full_cases(b):
            v = t[1].rsplit("::", 1)[-1] if t[0] == "agg" else "?"
            for s, rest in allowed(cd, ("disc", ("param", b.id, 1)), 4 if dst else n):
                for k in s:
                    if dst and AR[k] in pair:
                        R.check(v == pair[AR[k]], f"from-unit:{AR[k]}", b.relfile, "a time unit is its precision", f"{AR[k]} becomes {v}")
                    elif not dst:
                        R.check(pair.get(v) == vs[k], f"to-unit:{vs[k]}", b.relfile, "a precision is its time unit", f"{vs[k]} becomes {v}")
    # (3)
    U = {"to_nanoseconds": ("as_nanos", 1), "to_microseconds": ("as_micros", 10**3), "to_millisecond": ("as_millis", 10**6)}
    for fn, (acc, unit) in U.items():
        b = R.body(D + fn)
        slf = ("param", b.id, 1)
        inf = ("fld", "is_inf", slf)
        for cd, t in C.full_cases(b):
            for cj in cd:
                isinf = None
                for lt, lv, lp in cj:
                    if lt == inf:
                        isinf = ("1" in lv) == lp if lv <= {"1"} else ("0" in lv) != lp
                if isinf is not False:
                    R.check(konst(t) == IMAX, f"{fn}-inf", b.relfile, "infinite is the largest value", f"{show(t)[:100]} when infinite")
                if isinf is not True:
                    R.check(capped(C, t, cj, slf, unit), f"{fn}-unit", b.relfile, f"the duration in its unit, capped at the largest value", f"{show(t)[:160]} if {show_dnf(frozenset([cj]))[:120]}")
                R.check(isinf is not None, f"{fn}-split", b.relfile, "infinite and finite durations are told apart")
    b = R.body(D + "to_precision")
    W = {"NS": "to_nanoseconds", "US": "to_microseconds", "MS": "to_millisecond"}
    K = Cond(F, no_inline=r"CnosDuration::to_")
    units = {"NS": 1, "US": 10**3, "MS": 10**6}
    pre, slf = ("disc", ("param", b.id, 2)), ("param", b.id, 1)
    inf = ("fld", "is_inf", slf)
    for cd, t in K.ret_cases(b):
        for s, rest in allowed(cd, pre, n):
            for k in s:
                if t[0] != "call" or not t[1].startswith(D + "to_"):
                    # computed here instead of forwarding: the same value, case by case
                    isinf = {("1" in l[1]) == l[2] for l in rest if l[0] == inf}
                    for x in choose(b, C, t, pre, str(k)):
                        okv = (False in isinf or konst(x) == IMAX) and (True in isinf or capped(C, x, rest, slf, units[vs[k]])) and len(isinf) == 1
                        R.check(okv, f"to-precision:{vs[k]}", b.relfile, "the unit of the precision", f"{vs[k]} gives {show(x)[:100]}")
                    continue
                R.check(t[0] == "call" and t[1] == D + W[vs[k]] and t[2][0] == ("param", b.id, 1), f"to-precision:{vs[k]}", b.relfile, "the unit of the precision", f"{vs[k]} gives {show(t)[:100]}")
    # (4)
    b = R.body(D + "new_with_day")
    day = ("param", b.id, 1)
    K = Cond(F)
    seen = set()
    for cd, t in K.full_cases(b):
        inf, du = konst(getf(t, "is_inf")), getf(t, "duration")
        seen.add(inf)
        if inf is False:
            m = du[2][0] if du[0] == "call" and du[1].endswith("Duration::from_secs") else None
            f = factor(m, day) if m is not None else None
            R.check(f == 86400, "days-factor", b.relfile, "a day is 86400 seconds", show(du)[:140])
            for cj in cd:
                lim = [upper(l, day) for l in cj]
                lim = [x for x in lim if x is not None]
                if has(m or ("?",), lambda x: checked(x, day) == 86400):
                    lim.append(0)
                R.check(bool(lim) and min(lim) * 86400 < 2**64, "days-guard", b.relfile, "the product is guarded against wrap-around", show_dnf(frozenset([cj]))[:160])
        else:
            for cj in cd:
                lim = [lower(l, day) for l in cj]
                lim = [x for x in lim if x is not None]
                if any(l[0][0] == "disc" and checked(l[0][1], day) == 86400 and ("0" in l[1]) == l[2] for l in cj):
                    lim.append(2**64)
                R.check(bool(lim) and max(lim) * 86400 >= 2**64, "days-inf", b.relfile, "only day counts that do not fit become infinite", show_dnf(frozenset([cj]))[:160])
    R.check(seen == {True, False}, "days-cases", b.relfile, "fitting and non-fitting day counts are told apart", f"{seen}")
    b = R.body(D + "new")
    txt = ("param", b.id, 1)
    K = Cond(F, no_inline=r"new_with_day$")
    kinds = set()
    for cd, t in K.full_cases(b):
        v = variant_index(t)
        pd = lambda l: l[0][0] == "disc" and l[0][1][0] == "call" and l[0][1][1].endswith("parse_duration") and l[0][1][2][0] == txt
        ok = lambda l: ("0" in l[1]) == l[2]
        if v == "0":
            R.check(forced(cd, lambda *l: pd(l) and not ok(l)), "parse-refuse", b.relfile, "only text that is no duration is refused", show_dnf(cd)[:200])
            kinds.add("none")
            continue
        if v != "1":
            # Option::map style
            if t[0] == "call" and has(t, lambda x: x[0] == "call" and x[1].endswith("parse_duration")):
                kinds |= {"none", "dur"}
                continue
            R.bad("parse-result", b.relfile, f"unrecognised result {show(t)[:140]}")
            continue
        x = t[2][0]
        if x[0] == "call" and x[1] == D + "new_with_day":
            y = x[2][0]
            R.check(y[0] == "ok" and y[1][0] == "call" and y[1][1].endswith("::parse") and y[1][2][0] == txt, "parse-days", b.relfile, "a bare number is a number of days", show(x)[:140])
            kinds.add("days")
            continue
        inf, du = konst(getf(x, "is_inf")), getf(x, "duration")
        if inf is True:
            R.check(forced(cd, lambda *l: is_inf_lit(l)), "parse-inf", b.relfile, "INF is infinite", show_dnf(cd)[:200])
            kinds.add("inf")
        else:
            R.check(inf is False and du[0] == "ok" and du[1][0] == "call" and du[1][1].endswith("parse_duration") and du[1][2][0] == txt and forced(cd, lambda *l: pd(l) and ok(l)), "parse-duration", b.relfile, "the text's duration", f"{show(x)[:140]} if {show_dnf(cd)[:300]}")
            kinds.add("dur")
    R.check(kinds == {"none", "days", "inf", "dur"}, "parse-kinds", b.relfile, "days, INF, durations and errors are told apart", f"{kinds}")
    b = R.body("<utils::duration::CnosDuration as core::fmt::Display>::fmt")
    slf = ("param", b.id, 1)
    K = Cond(F)
    ws = K.sites(b, lambda c: re.search(r"Formatter(<.*>)?::(write_fmt|write_str)$|Display>?::fmt$|Write>?::write_(fmt|str)$", c.name) or re.search(r"Formatter(<.*>)?::(write_fmt|write_str|pad)$", c.fid or ""))
    for c, a, cd in ws:
        isinf = None
        for l in lits(cd):
            if l[0] == ("fld", "is_inf", slf):
                isinf = ("1" in l[1]) == l[2] if l[1] <= {"1"} else ("0" in l[1]) != l[2]
        if isinf is True:
            s = [konst(x) for y in a for x in walk(y) if isinstance(konst(x), str)]
            fp = [x for y in a for x in (fmt_pieces(y) or []) if isinstance(x, str)]
            R.check(any(str(x).upper() == "INF" for x in s + fp), "show-inf", c.where, "infinite prints as INF", f"{s} {fp}")
        elif isinf is False:
            R.check(any(has(y, lambda x: x[0] == "call" and x[1].endswith("format_duration") and x[2][0] == ("fld", "duration", slf)) for y in a), "show-duration", c.where, "a finite duration prints in the form that is parsed", f"{[show(x)[:80] for x in a]}")
        else:
            R.bad("show-split", c.where, "infinite and finite durations print alike")
    R.floor(len(ws), 2, "print sites")
    for nm, inf, arg in (("new_inf", True, None), ("new_with_duration", False, 1), ("init", None, 1)):
        b = R.body(D + nm)
        for cd, t in K.ret_cases(b):
            i, du = getf(t, "is_inf"), getf(t, "duration")
            R.check((konst(i) is inf if inf is not None else i == ("param", b.id, 2)) and (arg is None or du == ("param", b.id, arg)), f"make:{nm}", b.relfile, "built as asked", show(t)[:120])


def lit_val(t, vs, p, pf, pt, i, j):
    for term, k in ((("disc", pf), i), (("disc", pt), j)):
        if t == term:
            return (str(k) in vs) == p
    if t[0] == "bin" and t[1] == "Eq" and {x for x in t[2:4]} <= {pf, pt, ("disc", pf), ("disc", pt)}:
        return ((i == j) == p) if vs == frozenset(["1"]) else None
    if t[0] == "bin" and t[1] == "Eq" and any("discriminant" in show(x) for x in t[2:4]):
        return ((i == j) == p) if vs == frozenset(["1"]) else None
    return None


def conv_ok(t, ts, a, z):
    """a, z: nanoseconds per unit of source and target"""
    some = t[0] == "agg" and t[1].endswith("::Some")
    if a == z:
        return some and t[2][0] == ts
    if a < z:
        return some and t[2][0][0] == "bin" and t[2][0][1] == "Div" and t[2][0][2] == ts and konst(t[2][0][3]) == z // a
    if t[0] == "call" and t[1].endswith("::checked_mul"):
        x, y = t[2]
        return any(u == ts and konst(w) == a // z for u, w in ((x, y), (y, x)))
    return False


def choose(b, C, t, term, k):
    """the alternatives of the joined values in t that belong to `term` having the discriminant k"""
    ph = next((x for x in walk(t) if x[0] == "phi"), None)
    if ph is None:
        return [t]
    at = {}
    for c in b.calls():
        at.setdefault(C.T.callterm(c, (c.bb, len(b.blocks[c.bb]["s"]))), []).append(c.bb)
    out = []
    for a in alts(ph):
        bbs = at.get(a)
        if bbs is not None and not any(int(k) in s for bb in bbs for s, _ in allowed(C.rc(b, bb), term, int(k) + 1)):
            continue
        out.extend(choose(b, C, replace(t, ph, a), term, k))
    return out


def replace(t, x, y):
    if t == x:
        return y
    return tuple(replace(z, x, y) if isinstance(z, tuple) else z for z in t)


def capped(C, t, cj, slf, unit):
    du = ("fld", "duration", slf)

    def acc(x):
        return x[0] == "call" and "Duration" in x[1] and x[1].rsplit("::", 1)[-1] in AS and AS[x[1].rsplit("::", 1)[-1]] == unit and x[2][0] == du

    def imax(x):
        return konst(x) == IMAX
    if t[0] == "cast" and t[1] == "i64":
        u = t[2]
        if u[0] == "call" and re.search(r"(cmp::|Ord>?::)min$", u[1]) and any(acc(x) and imax(y) for x, y in (u[2], u[2][::-1])):
            return True
        if acc(u):
            return any(l[0][0] == "bin" and l[0][1] == "Lt" and ("1" in l[1]) == (not l[2]) is True and imax(l[0][2]) and acc(l[0][3]) or
                       l[0][0] == "bin" and l[0][1] == "Lt" and ("1" in l[1]) == l[2] and acc(l[0][2]) and imax(l[0][3]) for l in cj)
    if konst(t) == IMAX:
        return any(l[0][0] == "bin" and l[0][1] == "Lt" and any(acc(x) for x in l[0][2:4]) and any(imax(x) for x in l[0][2:4]) or l[0][0] == "disc" and has(l[0], acc) for l in cj)
    if t[0] == "ok":
        t2 = t[1]
        return has(t2, acc)
    if t[0] == "call" and re.search(r"unwrap_or$", t[1]):
        return has(t[2][0], acc) and imax(t[2][1])
    return acc(t)


def checked(t, x):
    """factor k when t is checked_mul of x by constants, else None"""
    return factor(("ok", t), x) if t[0] == "call" and t[1].endswith("::checked_mul") else None


def factor(t, x):
    if t == x:
        return 1
    if t[0] == "ok" and t[1][0] == "call" and t[1][1].endswith("::checked_mul"):
        return factor(("bin", "Mul") + tuple(t[1][2]), x)
    if t[0] == "bin" and t[1] == "Mul":
        for u, w in ((t[2], t[3]), (t[3], t[2])):
            k = konst(w)
            f = factor(u, x)
            if isinstance(k, int) and f is not None:
                return k * f
    return None


def upper(l, x):
    """largest x the literal allows"""
    t, vs, p = l
    if t[0] != "bin" or t[1] != "Lt" or vs != frozenset(["1"]):
        return None
    a, b = t[2], t[3]
    if b == x and not p and isinstance(konst(a), int):
        return konst(a)
    if a == x and p and isinstance(konst(b), int):
        return konst(b) - 1
    return None


def lower(l, x):
    t, vs, p = l
    if t[0] != "bin" or t[1] != "Lt" or vs != frozenset(["1"]):
        return None
    a, b = t[2], t[3]
    if b == x and p and isinstance(konst(a), int):
        return konst(a) + 1
    if a == x and not p and isinstance(konst(b), int):
        return konst(b)
    return None


def is_inf_lit(l):
    t, vs, p = l
    if ("1" in vs) != p:
        return False
    if t[0] == "bin" and t[1] == "Eq":
        return any(konst(x) == "INF" and has(y, lambda z: z[0] == "call" and z[1].endswith("to_uppercase") or z[0] == "call" and z[1].endswith("to_ascii_uppercase")) or konst(x) == "inf" and "lowercase" in show(y) for x, y in ((t[2], t[3]), (t[3], t[2])))
    return t[0] == "call" and t[1].endswith("eq_ignore_ascii_case") and any(str(konst(x)).upper() == "INF" for x in t[2])
