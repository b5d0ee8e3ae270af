"""Metric recorders lose nothing."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf, precedes
from va.terms import walk, show
from va.lin import lin, add, mul, fz
from va.lib import *

PKGS = ["metrics"]
CRATES = ["metrics"]
LEVEL = "other"
RULE = """(1) In the metrics crate no path performs a load and then a store (or a compare-free overwrite) on the same atomic: every
update of shared recorder state is one atomic read-modify-write or happens inside one lock acquisition.  (2) The effect of
every counter/gauge operation, as a term over its arguments, is the documented one (increment by the argument, set to the
argument, durations in nanoseconds).  (3) A histogram observation takes the lock once and, under one condition (value <=
bound of the first matching bucket of the sorted list), adds the count to exactly one bucket and value*count to the sum.
(4) A recorder handle shares its state with the registered one, and reports the value of its own kind."""

M = "metrics::"
FRESH = re.compile(r"(Arc|Atomic\w*|Mutex|RwLock)(<.*>)?::(new|default)$|Default>?::default$")
ATOM = re.compile(r"sync::atomic::Atomic\w*(<.*>)?::(\w+)$")


def aop(c):
    m = ATOM.search(c.fid or "")
    return m.group(2) if m else None


NS = ("num",)


def as_ns(t):
    """strip Duration -> u64 nanoseconds conversions"""
    while True:
        if t[0] in ("ok",) :
            t = t[1]
        elif t[0] == "cast":
            t = t[2]
        elif t[0] == "call" and t[1].endswith("Duration::as_nanos"):
            return t[2][0]
        else:
            return None


def run(R):
    F = R.F
    C = Cond(F)
    # (1) no load..store pairs
    n = 0
    for b in F.bodies("metrics"):
        if "::test" in b.id:
            continue
        ops = [(c, a, cd) for c, a, cd in C.sites(b, lambda c: aop(c) is not None)]
        for c, a, cd in ops:
            if c.body.id != b.id:
                continue
            n += 1
            if aop(c) in ("store", "swap", "set"):
                for d, e, dd in ops:
                    if aop(d) in ("load",) and e[0] == a[0] and d.body.id == b.id and precedes(b, d.bb, c.bb):
                        R.bad(f"lost-update:{b.id.rsplit('::',2)[-2]}::{b.id.rsplit('::',1)[-1]}", c.where,
                              f"the atomic is loaded at line {d.line} and overwritten at line {c.line}: an update in between is lost")
                        break
                else:
                    R.ok(f"rmw:{b.id}", c.where, f"{aop(c)} does not follow a load of the same atomic")
            else:
                R.ok(f"rmw:{b.id}", c.where, f"{aop(c)}")
    R.floor(n, 7, "atomic operations")

    def one(fid, op, field, val, what):
        b = R.body(fid)
        ops = C.sites(b, lambda c: aop(c) is not None)
        p = lambda i: ("param", b.id, i)
        good = False
        for c, a, cd in ops:
            o = aop(c)
            if cd == TRUE and single_shot(c.body, c.bb) and a[0][0] == "fld" and a[0][1] == field:
                v = a[1] if len(a) > 1 else None
                if o == op and (val is None or val(v, p)):
                    good = True
        extra = [c for c, a, cd in ops if aop(c) not in ("load",) and a[0][0] == "fld" and a[0][1] == field]
        name = fid.split("::", 1)[1]
        R.check(good and (op == "load" or len(extra) == 1), f"effect:{name}", b.relfile, what,
                f"{what}: found {[(aop(c), [show(x)[:60] for x in a[:2]], show_dnf(cd)[:80]) for c, a, cd in ops]}")

    isp = lambda i: (lambda v, p: lin(v) == lin(p(i)))
    one(M + "count::U64Counter::inc", "fetch_add", "state", isp(2), "a counter increment adds exactly the argument")
    one(M + "count::U64Counter::inc_one", "fetch_add", "state", lambda v, p: konst(v) == 1, "inc_one adds exactly one")
    one(M + "gauge::U64Gauge::set", "store", "state", isp(2), "setting a gauge stores the argument")
    one(M + "duration::DurationGauge::set", "store", "state", lambda v, p: as_ns(v) == p(2), "a duration gauge stores nanoseconds")
    one(M + "duration::DurationCounter::inc", "fetch_add", "state", lambda v, p: as_ns(v) == p(2), "a duration counter adds nanoseconds")
    one(M + "average::U64Average::add", "fetch_add", "count", lambda v, p: konst(v) == 1, "an average observation counts one")
    one(M + "average::U64Average::add", "fetch_add", "total", isp(2), "an average observation adds its value")
    one(M + "average::U64Average::average", "swap", "count", lambda v, p: konst(v) == 0, "reading an average takes the count and resets it in one step")
    one(M + "average::U64Average::average", "swap", "total", lambda v, p: konst(v) == 0, "reading an average takes the total and resets it in one step")
    for ty, mod in (("U64Counter", "count"), ("U64Gauge", "gauge")):
        b = R.body(f"{M}{mod}::{ty}::fetch")
        t = C.ret_cases(b)
        R.check(all(x[0] == "call" and x[1].endswith("::load") and x[2][0] == ("fld", "state", ("param", b.id, 1)) for _, x in t), f"fetch:{ty}", b.relfile, f"{ty}::fetch returns the stored value")
    for ty in ("DurationGauge", "DurationCounter"):
        b = R.body(f"{M}duration::{ty}::fetch")
        t = C.ret_cases(b)
        R.check(all(x[0] == "call" and x[1].endswith("Duration::from_nanos") and has(x, lambda y: y[0] == "call" and y[1].endswith("::load")) for _, x in t), f"fetch:{ty}", b.relfile,
                f"{ty}::fetch reads nanoseconds", f"{ty}::fetch returns {[show(x) for _, x in t]}")

    # (3) histograms
    for fid, val, cnt in ((M + "histogram::U64Histogram::record_multiple", 2, 3), (M + "histogram::U64Histogram::record", 2, None),
                          (M + "duration::DurationHistogram::record_multiple", 2, 3), (M + "duration::DurationHistogram::record", 2, None)):
        b = R.body(fid)
        nm = fid.split("::", 1)[1]
        V = ("param", b.id, val)
        N = ("param", b.id, cnt) if cnt else None
        locks = C.sites(b, is_lock)
        R.check(len(locks) == 1 and locks[0][2] == TRUE, f"hist-lock:{nm}", b.relfile, f"{nm}: one critical section",
                f"{nm}: lock sites {[c.where for c, _, _ in locks]}")
        ws = C.writes(b, "count|total")
        cw = [w for w in ws if w[0][3] == "count"]
        tw = [w for w in ws if w[0][3] == "total"]
        if not R.check(len(cw) == 1 and len(tw) == 1, f"hist-writes:{nm}", b.relfile, f"{nm}: one bucket count and one total are updated", f"{nm}: {len(cw)} count writes, {len(tw)} total writes"):
            continue
        (cp, ca, cc), (tp, ta, tc) = cw[0], tw[0]

        def isv(t):
            return lin(t) == lin(V) or as_ns(t) == V
        dcount = add(lin(ca[0]), lin(("fld", "count", ca[1])), -1)
        wantn = lin(N) if N else {(): 1}
        R.check(dcount == wantn, f"hist-count:{nm}", cp[0].relfile, f"{nm}: the bucket count grows by the number of observations", f"{nm}: the bucket count becomes {show(ca[0])[:160]}")
        # total: value * count
        raw = None
        for t in walk(ta[0]):
            if isv(t) and t[0] != "param" or t == V:
                raw = raw or t
        dt = add(lin(ta[0]), lin(("fld", "total", ta[1])), -1)
        cands = [mul(lin(t), wantn) for t in walk(ta[0]) if isv(t)]
        R.check(any(dt == x for x in cands), f"hist-total:{nm}", tp[0].relfile, f"{nm}: the sum grows by value x count", f"{nm}: the sum becomes {show(ta[0])[:200]}")
        R.check(cc == tc, f"hist-together:{nm}", cp[0].relfile, f"{nm}: bucket and sum are updated together", f"{nm}: bucket when {show_dnf(cc)[:100]}, sum when {show_dnf(tc)[:100]}")
        # which bucket
        bk = ca[1]
        guard = locks[0]
        okb = False
        how = show(bk)[:160]
        if bk[0] == "ok" and bk[1][0] == "call" and bk[1][1].endswith("Iterator>::find"):
            cid = closure_id(bk[1][2][1])
            d = closure_true(C, cid)
            d = frozenset(frozenset((norm_v(t), vs, pos) for t, vs, pos in cj) for cj in d)
            elem = ("ok", bk[1][2][0])
            okb = first_le(d) and bk[1][2][0][0] == "fld" and bk[1][2][0][1] == "buckets"
            how = show_dnf(d)[:160]
        elif bk[0] == "ok" and bk[1][0] == "fld" and bk[1][1] == "buckets":
            lit = [l for l in lits(cc) if l[0][0] == "bin"]
            okb = len(lit) == 1 and first_le(frozenset([frozenset(lit)])) and single_shot(cp[0], cp[1])
            how = show_dnf(cc)[:160]
        elif bk[0] == "idx":
            # index located by position/partition_point
            okb = has(bk[2], lambda x: x[0] == "call" and re.search(r"::(position|partition_point|binary_search\w*)$", x[1]))
            for x in walk(bk[2]):
                if x[0] == "call" and re.search(r"::(position)$", x[1]):
                    okb = first_le(closure_true(C, closure_id(x[2][1])))
        R.check(okb, f"hist-bucket:{nm}", cp[0].relfile, f"{nm}: the observation is counted in the first bucket whose bound is at least the value", f"{nm}: bucket selected by {how}")
    # what a histogram reports
    b = R.body(M + "histogram::U64Histogram::fetch")
    ws = [w for x in [b] + [F.get(i) for i in F.children(b.id)] for w in C.writes(x, "count|total|le|buckets|shared")]
    R.check(not ws, "fetch:U64Histogram", b.relfile, "reading a histogram changes nothing in it or in the copy", f"{[w[0][3] for w in ws]} written")
    for _, t in C.ret_cases(b):
        R.check(has(t, lambda x: x == ("fld", "shared", ("param", b.id, 1))) and not has(t, lambda x: x[0] == "bin"), "fetch:U64Histogram", b.relfile, "the recorded state is what is reported", show(t)[:120])
    b = R.body(M + "duration::DurationHistogram::fetch")

    def ns_of(t, f):
        return t[0] == "call" and t[1].endswith("Duration::from_nanos") and t[2][0][0] == "fld" and t[2][0][1] == f
    for x in [b] + [F.get(i) for i in F.children(b.id)]:
        terms = [t for _, t in C.ret_cases(x)] + [a[1] for c, a, _ in C.sites(x, lambda c: c.name.endswith("::push")) if len(a) > 1]
        for t in [y for z in terms for y in walk(z) if y[0] == "agg" and len(y) > 3 and y[3]]:
            if "le" in t[3] and "count" in t[3]:
                le, ct = t[2][t[3].index("le")], t[2][t[3].index("count")]
                R.check(ns_of(le, "le") and ct[0] == "fld" and ct[1] == "count" and ct[2] == le[2][0][2], "fetch:DurationHistogram", x.relfile,
                        "every bucket is reported with its own bound, in nanoseconds, and its own count", f"le {show(le)[:80]}, count {show(ct)[:80]}")
            elif "total" in t[3] and "buckets" in t[3]:
                R.check(ns_of(t[2][t[3].index("total")], "total"), "fetch:DurationHistogram", x.relfile, "the sum is reported in nanoseconds", show(t[2][t[3].index("total")])[:100])
    # sorted options
    for fid in (M + "histogram::U64HistogramOptions::new", M + "duration::DurationHistogramOptions::new"):
        b = R.body(fid)
        s = C.sites(b, lambda c: re.search(r"::sort(_unstable)?$|BTreeSet.*::from_iter|sorted$|::sort(_unstable)?_by(_key)?$", c.fid or ""))
        R.check(any(cd == TRUE for _, _, cd in s), f"sorted:{fid.split('::')[-2]}", b.relfile, "bucket bounds are sorted before use")
    b = R.body(M + "histogram::U64Histogram::new")
    agg = [t for _, t in C.ret_cases(b)]
    elems = []
    for cid in F.children(b.id):
        for _, t in C.ret_cases(F.get(cid)):
            elems.append(t)
    R.check(any(t[0] == "agg" and "le" in t[3] and t[2][t[3].index("le")] == ("ok", ("param", b.id, 1)) for t in elems) or not elems, "hist-bounds", b.relfile, "every configured bound becomes a bucket")
    # (4) recorders
    vt = {}
    n = 0
    for b in F.bodies("metrics", r"^<metrics::.* as metrics::MetricRecorder>::recorder$"):
        ty = re.match(r"^<(.*) as ", b.id).group(1)
        n += 1
        it = F.items.get(ty)
        for cd, t in C.ret_cases(b):
            good = t == ("param", b.id, 1) or (t[0] == "agg" and all(mentions(x, ("param", b.id, 1)) for x in t[2]) and not has(t, lambda x: x[0] == "call" and FRESH.search(x[1])))
            R.check(good, f"shared:{ty}", b.relfile, f"{ty}: a recorder handle shares the registered state", f"{ty}: recorder() returns {show(t)[:160]}")
        for f in (it["variants"][0]["fields"] if it else []):
            fty = F.crates["metrics"].tys[f[1]]
            shares = "Arc<" in fty or any(fty.endswith(x) for x in ("count::U64Counter", "gauge::U64Gauge", "histogram::U64Histogram"))
            R.check(shares, f"state:{ty}.{f[0]}", b.relfile, f"{ty}.{f[0]} is shared between clones", f"{ty}.{f[0]} has type {fty}: a clone would not share it")
        v = R.body(f"<{ty} as metrics::MetricRecorder>::value")
        mt = R.body(f"<{ty} as metrics::MetricRecorder>::metric_type")
        k = [t[1].rsplit("::", 1)[-1] for _, t in C.ret_cases(mt) if t[0] == "agg"]
        vs = [t[1].rsplit("::", 1)[-1] for _, t in C.ret_cases(v) if t[0] == "agg"]
        R.check(len(k) == 1 and vs and all(x in (k[0], "Null") for x in vs), f"kind:{ty}", v.relfile, f"{ty} reports values of its declared kind", f"{ty}: kind {k}, values {vs}")
        for _, t in C.ret_cases(v):
            if t[0] == "agg" and t[2]:
                R.check(has(t, lambda x: x[0] == "param"), f"value:{ty}", v.relfile, f"{ty} reports its own state")
        # clone
        cl = F.get(f"<{ty} as core::clone::Clone>::clone")
        if cl is not None:
            for _, t in C.ret_cases(cl):
                fresh = [x for x in walk(t) if x[0] == "call" and re.search(r"(Arc|Atomic\w*|Mutex)(<.*>)?::new$|Default>?::default$", x[1])]
                R.check(not fresh, f"clone:{ty}", cl.relfile, f"{ty}: a clone shares its state", f"{ty}: clone creates {show(fresh[0]) if fresh else ''}")
    R.floor(n, 8, "recorder types")
    # metric_type <-> value mapping
    b = R.body(M + "metric_value::MetricValue::metric_type")
    en = F.items[M + "metric_value::MetricValue"]
    names = {str(i): v["name"] for i, v in enumerate(en["variants"])}
    seen = {}
    for cd, t in C.ret_cases(b):
        for cj in cd:
            for (l, vs, pos) in cj:
                if l[0] == "disc" and pos:
                    for v in vs:
                        seen[names[v]] = t[1].rsplit("::", 1)[-1]
    for v in names.values():
        R.check(seen.get(v) == (v if v != "Null" else "UnTyped"), f"type-of:{v}", b.relfile, f"a {v} value has metric type {v}", f"a {v} value has metric type {seen.get(v)}")


def norm_v(t):
    return t


def first_le(d):
    """DNF is exactly  not (elem.le < value)"""
    if len(d) != 1:
        return False
    cj = next(iter(d))
    if len(cj) != 1:
        return False
    t, vs, pos = next(iter(cj))
    return t[0] == "bin" and t[1] == "Lt" and not pos and t[2][0] == "fld" and t[2][1] == "le"
