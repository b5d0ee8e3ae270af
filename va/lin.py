"""Polynomial normal form of arithmetic terms (exact arithmetic: wrapping, saturating and checked forms are the
ideal operation; the guard that makes them exact is the caller's business)."""
import re
from .cond import konst

ADD = re.compile(r"(Add(<.*>)?>?::add|::(wrapping|saturating|checked|unchecked|overflowing)_add)$")
SUB = re.compile(r"(Sub(<.*>)?>?::sub|::(wrapping|saturating|checked|unchecked|overflowing)_sub)$")
MUL = re.compile(r"(Mul(<.*>)?>?::mul|::(wrapping|saturating|checked|unchecked|overflowing)_mul)$")
DIV = re.compile(r"(Div(<.*>)?>?::div|::(wrapping|saturating|checked)_div)$")
REM = re.compile(r"(Rem(<.*>)?>?::rem|::(wrapping|checked)_rem)$")
SIGNED_SINCE = re.compile(r"::(signed_duration_since|duration_since)$")
MS = re.compile(r"(chrono|time).*Duration::(milliseconds|num_milliseconds)$|TimeDelta::(milliseconds|num_milliseconds)$")


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def fz(p):
    return frozenset(p.items())


def lin(t, sub=None):
    """term -> {monomial: coefficient}"""
    if sub and t in sub:
        return lin(sub[t])
    k = konst(t)
    if isinstance(k, (int, float)) and not isinstance(k, bool):
        return {(): k} if k else {}
    h = t[0]
    if h == "cast":
        return lin(t[2], sub)
    if h == "bin":
        a, b = t[2], t[3]
        if t[1] == "Add":
            return add(lin(a, sub), lin(b, sub))
        if t[1] == "Sub":
            return add(lin(a, sub), lin(b, sub), -1)
        if t[1] == "Mul":
            return mul(lin(a, sub), lin(b, sub))
        if t[1] in ("Div", "Rem"):
            return {((t[1].lower(), fz(lin(a, sub)), fz(lin(b, sub))),): 1}
    if h == "ok" and t[1][0] == "call":
        n = t[1][1]
        if re.search(r"::checked_(add|sub|mul|div)$|TryFrom.*::try_from$|::try_into$", n):
            return lin(t[1], sub)
    if h == "fld" and t[1] == "0" and t[2][0] == "call" and "::overflowing_" in t[2][1]:
        return lin(t[2], sub)
    if h == "un" and t[1] == "Neg":
        return add({}, lin(t[2], sub), -1)
    if h == "call":
        n, a = t[1], t[2]
        if len(a) == 2:
            if ADD.search(n):
                return add(lin(a[0], sub), lin(a[1], sub))
            if SUB.search(n) or SIGNED_SINCE.search(n):
                return add(lin(a[0], sub), lin(a[1], sub), -1)
            if MUL.search(n):
                return mul(lin(a[0], sub), lin(a[1], sub))
            if DIV.search(n) or REM.search(n):
                return {(("div" if DIV.search(n) else "rem", fz(lin(a[0], sub)), fz(lin(a[1], sub))),): 1}
            m = re.search(r"::(min|max)$", n)
            if m:
                return {((m.group(1), frozenset([fz(lin(a[0], sub)), fz(lin(a[1], sub))])),): 1}
        if len(a) == 1 and (MS.search(n) or re.search(r"(From<.*>>|TryFrom<.*>>|From|TryFrom)::(from|try_from)$|::try_into$|::into$", n)):
            return lin(a[0], sub)
    return {(("t", strip_site(t)),): 1}


def strip_site(t):
    """forget call positions of pure getters so that equal calls compare equal"""
    if isinstance(t, frozenset):
        return frozenset(strip_site(x) for x in t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        return ("call", t[1], tuple(strip_site(x) for x in t[2]))
    return tuple(strip_site(x) if isinstance(x, (tuple, frozenset)) else x for x in t)


def eq(a, b):
    return lin(a) == lin(b)


def zero(*terms):
    """sum of (coef, term) is zero"""
    r = {}
    for k, t in terms:
        r = add(r, lin(t), k)
    return not r


def facts_of(conj):
    """literals of one conjunct -> (inequalities p >= 0, equalities p == 0) over integers"""
    le, eqs = [], []
    for t, vals, pos in conj:
        if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            a, b, op = lin(t[2]), lin(t[3]), t[1]
            true = ("1" in vals) == pos
            if not true:
                op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
            one = {(): 1}
            if op == "Lt":
                le.append(add(add(b, a, -1), one, -1))
            elif op == "Le":
                le.append(add(b, a, -1))
            elif op == "Gt":
                le.append(add(add(a, b, -1), one, -1))
            elif op == "Ge":
                le.append(add(a, b, -1))
            elif op == "Eq":
                eqs.append(add(a, b, -1))
        elif t[0] == "disc" and t[1][0] == "call" and re.search(r"::cmp$", t[1][1]) and len(t[1][2]) == 2:
            a, b = lin(t[1][2][0]), lin(t[1][2][1])
            poss = {"1", "0", "255"}
            s = (poss & set(vals)) if pos else (poss - set(vals))
            one = {(): 1}
            if s == {"0"}:
                eqs.append(add(a, b, -1))
            elif s == {"1"}:
                le.append(add(add(a, b, -1), one, -1))
            elif s == {"255"}:
                le.append(add(add(b, a, -1), one, -1))
            elif s == {"0", "1"}:
                le.append(add(a, b, -1))
            elif s == {"0", "255"}:
                le.append(add(b, a, -1))
        elif not vals:
            pass
        elif len(vals) == 1 and pos and re.fullmatch(r"-?\d+", str(next(iter(vals)))) and t[0] not in ("disc", "call") and t[0] != "bin":
            eqs.append(add(lin(t), {(): int(next(iter(vals)))}, -1))
    return le, eqs


def nonneg(p):
    return all(c >= 0 for c in p.values())


def implied(le, eqs, g, k=3):
    """g >= 0 follows as a sum of at most k of the facts plus a non-negative combination of (unsigned) atoms"""
    fs = list(le) + [e for e in eqs] + [add({}, e, -1) for e in eqs]

    def go(g, i, k):
        if nonneg(g):
            return True
        if k == 0:
            return False
        return any(go(add(g, fs[j], -1), j, k - 1) for j in range(i, len(fs)))
    return go(g, 0, k)


def same(le, eqs, a, b):
    """a == b under the equalities"""
    d = add(a, b, -1)
    return implied(le, eqs, d) and implied(le, eqs, add({}, d, -1))
