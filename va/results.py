"""Discarded Results: calls whose Result is never inspected, returned or passed on."""
import re
from .core import place, op_place
from .okflow import kind

SWALLOW = re.compile(r"(result::Result|option::Option)(<.*>)?::(ok|err|unwrap_or|unwrap_or_default|unwrap_or_else|is_ok|is_err)$")


def uses_of(body):
    """local -> list of (kind, bb, idx, detail)"""
    out = {}

    def add(ps, k, bb, i, d=None):
        l, _ = place(ps)
        out.setdefault(l, []).append((k, bb, i, d))

    def ops(x, k, bb, i, d=None):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] in ("c", "m") and isinstance(x[1], str):
                add(x[1], k, bb, i, d)
            else:
                for y in x:
                    ops(y, k, bb, i, d)
    for bb in body.reachable():
        bl = body.blocks[bb]
        for i, s in enumerate(bl["s"]):
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "ref":
                    add(rv[2], "ref", bb, i, s[1])
                elif rv[0] == "disc":
                    add(rv[1], "disc", bb, i, s[1])
                elif rv[0] in ("use", "cast"):
                    ops(rv[1:], "copy", bb, i, s[1])
                else:
                    ops(rv, "rv", bb, i, s[1])
        t = bl["t"]
        n = len(bl["s"])
        if t[0] == "call":
            ops(t[2], "arg", bb, n, t)
            if isinstance(t[1], list) and t[1] and t[1][0] in ("c", "m"):
                ops(t[1], "arg", bb, n, t)
        elif t[0] == "switch":
            ops(t[1], "switch", bb, n)
        elif t[0] == "yield":
            ops(t[2:], "yield", bb, n)
        elif t[0] == "ret":
            out.setdefault(0, []).append(("ret", bb, n, None))
    return out


def dropped(body, pred=None, swallow=False):
    """calls whose returned Result is discarded unseen (dropped; with swallow=True also turned into an ignored value)"""
    u = None
    out = []
    for c in body.calls():
        if pred and not pred(c):
            continue
        l, p = place(c.dest)
        if p or kind(body.lty(l)) != "result":
            continue
        if body.lty(l).endswith("std::convert::Infallible>") or "fmt::Error>" in body.lty(l):
            continue
        if u is None:
            u = uses_of(body)
        if is_dropped(body, l, u, set(), swallow):
            out.append(c)
    return out


def is_dropped(body, l, u, seen, swallow):
    if l in seen or l == 0:
        return l != 0 or False
    seen.add(l)
    for k, bb, i, d in u.get(l, []):
        if k == "copy" or k == "ref":
            dl, dp = place(d)
            if dp:
                return False
            if not is_dropped(body, dl, u, seen, swallow):
                return False
        elif k == "arg":
            f = d[1]
            name = f[1] if f[0] == "f" else ""
            if re.search(r"mem::drop$", name):
                continue
            if SWALLOW.search(name) or re.search(r"::(map_err|inspect_err|map)$", name):
                dl, dp = place(d[3])
                if not dp and not is_dropped(body, dl, u, seen, swallow):
                    return False
                continue
            return False
        else:
            return False
    return True
