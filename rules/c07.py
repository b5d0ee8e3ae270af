"""Prometheus exposition."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf
from va.terms import walk, show
from va.lin import lin, add
from va.core import place
from va.lib import *

PKGS = ["metrics"]
CRATES = ["metrics"]
LEVEL = "other"
RULE = """Case analysis of the exposition code by discriminant, on symbolic argument terms: for every metric kind the exposed
family name suffix and type; for every value kind the setter that is reached, the term it stores (unit conversion included)
and the metric slot; for histograms the per-bucket bound (infinite exactly for the maximum), the running cumulative count
(previous + this bucket, over the buckets in order), the sample count (the final running count) and the sum; labels come from
the caller; every value kind but the null one is pushed; a family with samples is encoded."""

P = "<metrics::prom_reporter::PromReporter as metrics::reporter::Reporter>::"
NAME = {"U64Gauge": ("_total", "GAUGE"), "U64Counter": ("", "COUNTER"), "U64Average": ("", "COUNTER"), "U64Histogram": ("", "HISTOGRAM"),
        "DurationCounter": ("_seconds_total", "COUNTER"), "DurationGauge": ("_seconds", "GAUGE"), "DurationHistogram": ("_seconds", "HISTOGRAM")}


def run(R):
    F = R.F
    C = Cond(F, no_inline=r"prometheus::")
    kinds = {str(i): v["name"] for i, v in enumerate(F.items["metrics::metric_type::MetricType"]["variants"])}
    vals = {str(i): v["name"] for i, v in enumerate(F.items["metrics::metric_value::MetricValue"]["variants"])}

    def by_disc(dnf, base, names):
        out = set()
        for cj in dnf:
            c = set(names.values())
            for (t, vs, pos) in cj:
                if t == ("disc", base):
                    s = {names[v] for v in vs if v in names}
                    c = c & s if pos else c - s
            out |= c
        return out

    # start: name suffix and type per kind
    b = R.body(P + "start")
    kp = ("param", b.id, 4)
    got_n, got_t = {}, {}
    for x in F.family(b.id):
        for c in x.calls():
            if c.fid and re.search(r"MetricFamily::set_(name|field_type)$", c.fid):
                for cd, t in C.cases(x, c.args[1], (c.bb, len(x.blocks[c.bb]["s"]))):
                    for k in by_disc(cd, kp, kinds):
                        if c.fid.endswith("set_name"):
                            pcs = fmt_pieces(t) or [t]
                            pcs = [("NAME" if mentions(p, ("param", b.id, 2)) else "?") if isinstance(p, tuple) else p for p in pcs]
                            got_n.setdefault(k, set()).add("".join(str(p) for p in pcs))
                        else:
                            got_t.setdefault(k, set()).add(t[1].rsplit("::", 1)[-1] if t[0] == "agg" else show(t))
    helps = C.sites(b, lambda c: c.fid and c.fid.endswith("MetricFamily::set_help"))
    for k, (suf, ty) in NAME.items():
        R.check(got_n.get(k) == {"NAME" + suf}, f"name:{k}", b.relfile, f"a {k} family is exposed as <name>{suf}", f"a {k} family is exposed as {got_n.get(k)}")
        R.check(got_t.get(k) == {ty}, f"type:{k}", b.relfile, f"a {k} family has type {ty}", f"a {k} family has type {got_t.get(k)}")
    R.check(any(mentions(a[1], ("param", b.id, 3)) for c, a, cd in helps), "help", b.relfile, "the description becomes the help text")
    fam = C.writes(b, "metric")
    for p, a, cd in fam:
        ks = by_disc(cd, kp, kinds)
        R.check(set(NAME) <= ks, "started", b.relfile, "every kind but untyped opens a family", f"no family is opened for {set(NAME) - ks}")
    R.check(len(fam) >= 1, "started", b.relfile, "a family is opened")

    # report
    b = R.body(P + "report")
    vp = ("param", b.id, 3)
    lp = ("param", b.id, 2)
    have = lambda cd: by_disc(cd, ("param", b.id, 3), vals)
    setters = C.sites(b, lambda c: c.fid and re.search(r"prometheus::proto::\w+::(set_\w+)$", c.fid))
    seen = {}
    for c, a, cd in setters:
        seen.setdefault(c.fid.rsplit("::", 2)[-2] + "::" + c.fid.rsplit("::", 1)[-1], []).append((c, a, have(cd), cd))
    for k, want, slot in (("U64Counter", "num", "counter"), ("U64Average", "num", "counter"), ("U64Gauge", "num", "gauge"), ("DurationCounter", "sec", "counter"), ("DurationGauge", "sec", "gauge")):
        base = ("fld", f"{k}.0", vp)
        hit = [(c, a) for c, a, ks, cd in seen.get(slot.capitalize() + "::set_value", []) if k in ks]
        good = len(hit) >= 1
        for c, a in hit:
            v = a[1]
            m = [x for x in walk(v) if x[0] == "fld" and x[1] == k + ".0"] or [x for x in walk(v) if x == vp]
            if want == "num":
                good = good and v[0] == "cast" and v[1] == "f64" and (v[2] == base or v[2][0] == "phi" and base in v[2][1])
            else:
                good = good and v[0] == "call" and v[1].endswith("Duration::as_secs_f64") and (v[2][0] == base or v[2][0][0] == "phi" and base in v[2][0][1])
        R.check(good, f"value:{k}", b.relfile, f"a {k} is exposed as its value" + (" in seconds" if want == "sec" else ""), f"a {k} is exposed as {[show(a[1])[:120] for c, a in hit]}")
        sl = [c for c, a, ks, cd in seen.get("Metric::set_" + slot, []) if k in ks]
        R.check(len(sl) >= 1, f"slot:{k}", b.relfile, f"a {k} is stored in the sample's {slot}")
    for k, unit in (("U64Histogram", None), ("DurationHistogram", "as_secs_f64")):
        base = ("fld", f"{k}.0", vp)
        R.check(any(k in ks for c, a, ks, cd in seen.get("Metric::set_histogram", [])), f"slot:{k}", b.relfile, f"a {k} is stored in the sample's histogram")
        R.check(any(k in ks for c, a, ks, cd in seen.get("Histogram::set_bucket", [])), f"buckets:{k}", b.relfile, f"the buckets of a {k} are exposed")

        def inunit(v, x):
            if unit is None:
                return v[0] == "cast" and v[1] == "f64" and v[2] == x
            return v[0] == "call" and v[1].endswith("Duration::" + unit) and v[2][0] == x
        ss = [a[1] for c, a, ks, cd in seen.get("Histogram::set_sample_sum", []) if k in ks]
        R.check(len(ss) >= 1 and all(inunit(v, ("fld", "total", base)) for v in ss), f"sum:{k}", b.relfile, f"the sum of a {k} is its total", f"the sum of a {k} is {[show(x)[:120] for x in ss]}")
        el = ("ok", ("fld", "buckets", base))
        cum = [(c, a[1]) for c, a, ks, cd in seen.get("Bucket::set_cumulative_count", []) if k in ks and mentions(a[1], ("fld", "count", el))]
        okc = len(cum) >= 1
        accs = set()
        for c, v in cum:
            d = add(lin(strip_wrap(v)), lin(("fld", "count", el)), -1)
            # the rest is the previous running value: zero at first
            okc = okc and prev_ok(strip_wrap(v), ("fld", "count", el))
            accs |= acc_locals(F, c)
        R.check(okc, f"cumulative:{k}", b.relfile, f"bucket counts of a {k} are cumulative", f"bucket counts of a {k} are {[show(v)[:120] for c, v in cum]}")
        sc = [(c, a[1]) for c, a, ks, cd in seen.get("Histogram::set_sample_count", []) if k in ks]
        oks = len(sc) >= 1
        for c, v in sc:
            mine = acc_locals(F, c)
            summed = has(v, lambda x: x[0] == "call" and re.search(r"Iterator.*::(sum|fold)$", x[1])) and mentions(v, ("fld", "buckets", base))
            loop = mentions(v, ("fld", "count", el)) and prev_any(v, ("fld", "count", el))
            oks = oks and (summed or loop or bool(mine & accs))
            if mine & accs and not summed and not loop:
                # taken after the buckets were counted
                sb = [x.bb for x, a2, ks, cd in seen.get("Histogram::set_bucket", []) if k in ks and x.body.id == c.body.id]
                oks = oks and any(precedes(c.body, x, c.bb) for x in sb)
        R.check(oks, f"count:{k}", b.relfile, f"the sample count of a {k} is the running count after the last bucket", f"the sample count of a {k} is {[show(v)[:120] for c, v in sc]}")
        le = ("fld", "le", el)
        nb = 0
        for x in F.family(b.id):
            for c in x.calls():
                if c.fid and c.fid.endswith("Bucket::set_upper_bound"):
                    cs = C.cases(x, c.args[1], (c.bb, len(x.blocks[c.bb]["s"])))
                    cs = [(cd, t) for cd, t in cs if any(mentions(t2, le) for t2 in [t] + [l[0] for l in lits(cd)])]
                    if not cs:
                        continue
                    nb += 1
                    fin = [(cd, t) for cd, t in cs if inunit(t, le)]
                    inf = [(cd, t) for cd, t in cs if t[0] == "k" and "INFINITY" in str(t[1:3])]
                    R.check(len(fin) + len(inf) == len(cs) and fin and inf, f"bound:{k}", x.relfile, f"bucket bounds of a {k} are its bounds, or infinity", f"bucket bounds of a {k} are {[show(t)[:100] for _, t in cs]}")
                    for cd, t in inf:
                        okm = max_only(cd, le)
                        R.check(okm, f"inf:{k}", x.relfile, f"only the maximal bound of a {k} becomes infinity", f"bound becomes infinity when {show_dnf(cd)[:200]}")
        R.check(nb >= 1, f"bound:{k}", b.relfile, f"bucket bounds of a {k} are exposed")
    # labels
    ln = [a[1] for c, a, ks, cd in seen.get("LabelPair::set_name", [])]
    lv = [a[1] for c, a, ks, cd in seen.get("LabelPair::set_value", [])]
    R.check(any(x[0] == "fld" and x[1] == "0" and mentions(x, lp) for x in ln), "label-name", b.relfile, "label names are the caller's")
    R.check(any(x[0] == "fld" and x[1] == "1" and mentions(x, lp) for x in lv), "label-value", b.relfile, "label values are the caller's")
    pushed = C.sites(b, lambda c: c.fid and re.search(r"Vec(<.*>)?::push$", c.fid))
    each = lambda v: any(a[0] == v and all(l[0][0] == "disc" and mentions(l[0], lp) for cj in cd for l in cj if not mentions(l[0], ("fld", "metric", ("param", b.id, 1)))) and any(mentions(l[0], lp) for cj in cd for l in cj) for c, a, cd in pushed)
    R.check(any(mentions(a[1], lp) or each(a[1]) or a[1][0] == "call" and re.search(r"(From|Into)(<.*>)?>?::(from|into)$", a[1][1]) and each(a[1][2][0]) for c, a, ks, cd in seen.get("Metric::set_label", [])), "labels", b.relfile, "the sample carries the labels")
    pushed = C.sites(b, lambda c: c.fid and re.search(r"(Vec|RepeatedField)(<.*>)?::push$", c.fid))
    pk = set()
    for c, a, cd in pushed:
        if has(a[0], lambda x: x[0] == "call" and "mut_metric" in x[1]):
            pk |= have(cd)
    R.check(set(vals.values()) - {"Null"} <= pk, "pushed", b.relfile, "every sample is added to its family", f"no sample is added for {set(vals.values()) - {'Null'} - pk}")
    R.check("Null" not in pk, "null", b.relfile, "a null value exposes no sample")
    # stop
    b = R.body(P + "stop")
    enc = C.sites(b, lambda c: c.name.endswith("Encoder>::encode") or (c.fid or "").endswith("Encoder::encode"))
    R.check(len(enc) >= 1, "encoded", b.relfile, "a finished family is encoded")
    for c, a, cd in enc:
        R.check(mentions(a[1], ("fld", "metric", ("param", b.id, 1))) and a[2] == ("fld", "buffer", ("param", b.id, 1)), "encoded-into", c.where, "the family is encoded into the caller's buffer")
        other = [l for l in lits(cd) if not (l[0][0] == "disc" or (l[0][0] == "call" and l[0][1].endswith("is_empty") and not l[2]))]
        R.check(not other, "encoded-when", c.where, "a family with samples is always encoded", f"encoded only when {show_dnf(cd)[:200]}")


def strip_wrap(v):
    return v


def prev_ok(v, x):
    """v = previous + x with previous starting at zero"""
    from va.terms import alts
    if v[0] == "ok":
        return prev_ok(v[1], x)
    if v[0] == "phi":
        return all(prev_ok(y, x) or konst(y) == 0 for y in v[1])
    a = None
    if v[0] == "bin" and v[1] == "Add":
        a = (v[2], v[3])
    elif v[0] == "call" and re.search(r"::(wrapping|saturating|checked)_add$", v[1]):
        a = v[2]
    if a is None:
        return False
    for p, q in (a, a[::-1]):
        if q == x:
            return all(konst(y) == 0 or y == ("loop",) or prev_ok(y, x) for y in alts(p))
    return False


def prev_any(v, x):
    from va.terms import alts
    return any(prev_ok(y, x) for y in alts(v))


def acc_locals(F, c):
    """root locals feeding the call's second operand, through copies, arithmetic and closure captures"""
    b = c.body
    out, st, seen = set(), [(b, place(c.args[1][1])[0], place(c.args[1][1])[1])] if c.args[1][0] in ("c", "m") else [], set()
    while st:
        b, l, p = st.pop()
        if (b.id, l, p[:2]) in seen:
            continue
        seen.add((b.id, l, p[:2]))
        if l == 1 and "{closure#" in b.id.rsplit("::", 1)[-1]:
            q = [x for x in p if x.startswith(".")]
            pid = b.id.rsplit("::{", 1)[0]
            pb = F.get(pid)
            for bb in pb.reachable():
                for s in pb.blocks[bb]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].endswith(":" + b.id) and q and q[0][1:].isdigit():
                        o = s[2][2][int(q[0][1:])]
                        if o[0] in ("c", "m"):
                            st.append((pb,) + place(o[1]))
            continue
        out.add((b.id, l))
        for (bb, idx, dp, kind, pay) in b.defs().get(l, []):
            if kind != "=":
                continue
            for o in pay:
                if isinstance(o, list) and len(o) == 2 and o[0] in ("c", "m"):
                    st.append((b,) + place(o[1]))
            if pay[0] == "ref":
                st.append((b,) + place(pay[2]))
    return out


def max_only(cd, le):
    for cj in cd:
        good = False
        for (t, vs, pos) in cj:
            if t == le and pos and vs == frozenset([str(2**64 - 1)]):
                good = True
            if t == ("fld", "secs", le) and pos and vs == frozenset([str((2**64 - 1) // 10**9)]):
                good = good or any(mentions(t2, ("fld", "nanos", le)) for (t2, v2, p2) in cj)
            if t[0] == "bin" and t[1] == "Eq" and pos and le in (t[2], t[3]):
                o = t[3] if t[2] == le else t[2]
                good = good or "MAX" in str(o) or konst(o) == 2**64 - 1
        if not good:
            return False
    return bool(cd)
