"""Small value-set domains for conditions over one field: integer interval sets, finite/cofinite string sets."""
import re
from .cond import konst
from .terms import show

NS = {"from_nanos": 1, "from_micros": 10**3, "from_millis": 10**6, "from_secs": 10**9, "from_mins": 60 * 10**9, "from_hours": 3600 * 10**9}
AS = {"as_nanos": 1, "as_micros": 10**3, "as_millis": 10**6, "as_secs": 10**9}
INF = None


def iv_and(a, b):
    out = []
    for (l1, h1) in a:
        for (l2, h2) in b:
            l = max(l1, l2)
            h = h2 if h1 is INF else (h1 if h2 is INF else min(h1, h2))
            if h is INF or l < h:
                out.append((l, h))
    return sorted(out, key=lambda x: x[0])


def iv_or(a, b):
    s = sorted(list(a) + list(b), key=lambda x: x[0])
    out = []
    for (l, h) in s:
        if out and (out[-1][1] is INF or l <= out[-1][1]):
            ph = out[-1][1]
            out[-1] = (out[-1][0], INF if (ph is INF or h is INF) else max(ph, h))
        else:
            out.append((l, h))
    return out


def iv_not(a):
    out, cur = [], 0
    for (l, h) in sorted(a, key=lambda x: x[0]):
        if cur is not INF and l > cur:
            out.append((cur, l))
        cur = h
        if h is INF:
            return out
    out.append((cur, INF))
    return out


class StrSet:
    def __init__(self, vals, co=False):
        self.v, self.co = frozenset(vals), co

    def __and__(self, o):
        if not self.co and not o.co:
            return StrSet(self.v & o.v)
        if self.co and o.co:
            return StrSet(self.v | o.v, True)
        a, b = (self, o) if not self.co else (o, self)
        return StrSet(a.v - b.v)

    def inv(self):
        return StrSet(self.v, not self.co)

    def __or__(self, o):
        return (self.inv() & o.inv()).inv()

    def __eq__(self, o):
        return isinstance(o, StrSet) and self.v == o.v and self.co == o.co

    def __repr__(self):
        return ("all but " if self.co else "") + str(sorted(self.v))


def ns_const(t):
    """duration constant in ns"""
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[-1]
        if "Duration" in t[1] and n in NS and t[2]:
            k = konst(t[2][0])
            return None if k is None else k * NS[n]
        if "Duration" in t[1] and n in AS and t[2]:
            k = ns_const(t[2][0])
            return None if k is None else ("scaled", k // AS[n])
    return None


def num_const(t):
    k = konst(t)
    if isinstance(k, int):
        return k
    r = ns_const(t)
    if isinstance(r, tuple):
        return r[1]
    return None


def lit_set(lit, field):
    """value set of `field` allowed by literal, or None when the literal is about something else.
    integer fields: intervals; Duration: intervals in ns; strings: StrSet"""
    t, vals, pos = lit
    if t == field:
        # boolean / enum field itself
        s = [(int(v), int(v) + 1) for v in sorted(vals) if v.lstrip("-").isdigit()]
        s = iv_or(s, [])
        return ("int", s if pos else iv_not(s))
    if vals != frozenset(["1"]):
        return None
    if t[0] == "call" and re.search(r"::is_empty$", t[1]) and t[2][0] == field:
        s = StrSet([""])
        return ("str", s if pos else s.inv())
    if t[0] == "call" and re.search(r"Duration::is_zero$", t[1]) and t[2][0] == field:
        s = [(0, 1)]
        return ("int", s if pos else iv_not(s))
    if t[0] == "call" and re.search(r"::contains$", t[1]) and len(t[2]) == 2:
        # slice of constants contains(field)
        a, f = t[2]
        if f == field and a[0] == "agg":
            ks = [konst(x) for x in a[2]]
            if all(isinstance(k, str) for k in ks):
                s = StrSet(ks)
                return ("str", s if pos else s.inv())
            if all(isinstance(k, int) for k in ks):
                s = iv_or([(k, k + 1) for k in ks], [])
                return ("int", s if pos else iv_not(s))
    if t[0] == "bin" and t[1] in ("Eq", "Lt"):
        a, b = t[2], t[3]
        for swap, (x, y) in ((False, (a, b)), (True, (b, a))):
            sc = None
            isdur = False
            x0 = x
            while x0[0] == "cast":
                x0 = x0[2]
            if x0 == field:
                sc = 1
            elif x0[0] == "call" and x0[1].rsplit("::", 1)[-1] in AS and "Duration" in x0[1] and x0[2][0] == field:
                sc = AS[x0[1].rsplit("::", 1)[-1]]
            elif x0[0] == "call" and x0[1].endswith("::len") and x0[2][0] == field:
                k = num_const(y)
                if k == 0 and t[1] == "Eq" or (t[1] == "Lt" and not swap and k == 1):
                    s = StrSet([""])
                    return ("str", s if pos else s.inv())
                return None
            if sc is None:
                continue
            if t[1] == "Eq":
                k = konst(y)
                if isinstance(k, str):
                    s = StrSet([k])
                    return ("str", s if pos else s.inv())
            k = num_const(y)
            if k is None:
                k = ns_const(y)
                if k is None or isinstance(k, tuple):
                    continue
            if t[1] == "Eq":
                s = [(k * sc, (k + 1) * sc)]
            elif not swap:      # field < k
                s = [(0, k * sc)] if k * sc > 0 else []
            else:               # k < field
                s = [((k + 1) * sc, INF)]
            return ("int", s if pos else iv_not(s))
    return None


def project(dnf, field):
    """[(frozenset of other literals, value set or None)]"""
    out = []
    for cj in dnf:
        cur, rest = None, []
        for lit in cj:
            s = lit_set(lit, field)
            if s is None:
                rest.append(lit)
            elif cur is None:
                cur = s
            elif cur[0] == s[0]:
                cur = (cur[0], cur[1] & s[1] if cur[0] == "str" else iv_and(cur[1], s[1]))
        out.append((frozenset(rest), cur))
    return out


def merge(proj):
    d = {}
    for rest, s in proj:
        if s is None:
            d[rest] = "any"
        elif rest not in d:
            d[rest] = s
        elif d[rest] != "any" and d[rest][0] == s[0]:
            d[rest] = (s[0], d[rest][1] | s[1] if s[0] == "str" else iv_or(d[rest][1], s[1]))
    return d
