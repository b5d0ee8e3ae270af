"""Metrics registry."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf
from va.terms import walk, show
from va.lib import *

PKGS = ["metrics"]
CRATES = ["metrics"]
LEVEL = "other"
RULE = """For every get-or-create operation of the registry (metric, register_metric, sub_register, recorder): one acquisition of
the map's lock on any path, insertion only under absence of the same key in the same map, the returned object is the stored one.
Created metrics and sub-registries carry the registry's labels; explicit registration and removal act on the given labels;
reporting visits every metric, one-time metric (removed in the same critical section) and sub-registry and every recorder,
with the metric's labels extended by the recorder's labels."""

MR = "metrics::metric_register::MetricsRegister::"
ME = "metrics::metric::Metric::"


def closure_id_of_key(F, C, cb, t):
    """t is the key or_insert_with_key hands to its closure"""
    u = C.T.closure_use(cb)
    return bool(u) and (u[0].fid or "").endswith("::or_insert_with_key") and has(t, lambda x: x == ("param", cb.id, 2))


def run(R):
    F = R.F
    C = Cond(F)
    p = lambda b, i: ("param", b.id, i)
    for fid, what, tag, isk in (
        (MR + "metric", "get-or-create of a metric", "metric", lambda b: (lambda k: k == p(b, 2))),
        (MR + "register_metric", "get-or-create of a metric with options", "register_metric", lambda b: (lambda k: k == p(b, 2))),
        (ME + "recorder", "get-or-create of a recorder", "recorder", lambda b: (lambda k: k == p(b, 2))),
        (MR + "sub_register", "get-or-create of a sub-registry", "sub_register", lambda b: None),
    ):
        b = R.body(fid)
        ins = get_or_create(R, C, b, tag, what, isk(b))
        own = {"metric": "measures", "register_metric": "measures", "recorder": "values", "sub_register": "sub_register"}[tag]
        for c, a, cd in ins:
            R.check(has(a[0], lambda x: x[0] == "fld" and x[1] == own), f"map:{tag}", c.where, f"{what}: stored in {own}", f"{what}: stored in {show(a[0])[:100]}")
    # label inheritance
    for fid in (MR + "metric", MR + "register_metric"):
        b = R.body(fid)
        n = 0
        for cd, t in C.full_cases(b):
            if t[0] == "agg" and "labels" in t[3] and not has(t, lambda x: x[0] == "call" and "OccupiedEntry" in x[1]):
                n += 1
                lab = t[2][t[3].index("labels")]
                R.check(mentions(lab, ("fld", "labels", p(b, 1))) or mentions(lab, ("fld", "0", ("fld", "labels", p(b, 1)))), f"inherit:{fid.rsplit('::',1)[-1]}", b.relfile, "a created metric carries the registry's labels", f"a created metric carries {show(lab)[:100]}")
                nm = t[2][t[3].index("name")]
                R.check(nm == p(b, 2), f"named:{fid.rsplit('::',1)[-1]}", b.relfile, "a created metric carries the requested name")
                ds = t[2][t[3].index("description")]
                R.check(ds == p(b, 3), f"described:{fid.rsplit('::',1)[-1]}", b.relfile, "a created metric carries the requested description")
        R.check(n >= 1, f"inherit:{fid.rsplit('::',1)[-1]}", b.relfile, "a metric is created")
    b = R.body(MR + "sub_register")
    ext = C.sites(b, lambda c: re.search(r"Extend::extend$|::(extend|insert|append)$", c.fid or "") and c.args)
    ext = [(c, a, cd) for c, a, cd in ext if len(a) > 1 and mentions(a[1], p(b, 2))]
    R.check(any(cd == TRUE and mentions(a[0], ("fld", "0", ("fld", "labels", p(b, 1)))) for c, a, cd in ext), "sub-labels", b.relfile,
            "a sub-registry's labels are the registry's labels extended by the given ones", f"the given labels are merged into {[show(a[0])[:80] for c, a, cd in ext]}")
    gets = [c.bb for c in b.calls() if MAPGET.search(c.fid or "") or ENTRY.search(c.fid or "")]
    direct = [c for c, a, cd in ext if c.body.id == b.id]
    calls = [c.bb for c in b.calls() if any(t in F.reach([x for x in F.targets(c)] or ["-"]) for t in {e.body.id for e, _, _ in ext})] + [c.bb for c in direct]
    for g in gets:
        R.check(dominated(b, g, calls), "sub-key", b.relfile, "the look-up key is the merged label set")
    for c, a, cd in C.sites(b, lambda c: c.fid == MR + "new"):
        if c.body.id != b.id and closure_id_of_key(F, C, c.body, a[0]):
            continue        # made of the key it is stored under: sub-key
        R.check(has(a[0], lambda x: x == ("fld", "labels", p(b, 1)) or x == ("fld", "0", ("fld", "labels", p(b, 1)))), "sub-inherit", c.where, "a sub-registry is created with the merged labels")
    # explicit registration/removal
    b = R.body(ME + "register_recorder")
    s = C.sites(b, lambda c: MAPINS.search(c.fid or ""))
    R.check(any(cd == TRUE and a[1] == p(b, 2) and a[2] == p(b, 3) for c, a, cd in s), "register", b.relfile, "registering stores the recorder under its labels")
    b = R.body(ME + "remove")
    s = C.sites(b, lambda c: re.search(r"BTreeMap(<.*>)?::remove$", c.fid or ""))
    R.check(any(cd == TRUE and a[1] == p(b, 2) and has(a[0], lambda x: x[0] == "fld" and x[1] == "values") for c, a, cd in s), "remove", b.relfile, "removing drops the recorder of the given labels")
    # reporting
    b = R.body(MR + "report")
    s = C.sites(b, lambda c: (c.fid or "").endswith("Measure::report") or c.name == MR + "report")
    for fld, what in (("measures", "metric"), ("one_time", "one-time metric"), ("sub_register", "sub-registry")):
        hit = [(c, cd) for c, a, cd in s if has(a[0], lambda x: x[0] == "fld" and x[1] == fld) and a[1] == p(b, 2)]
        R.check(bool(hit), f"visits:{fld}", b.relfile, f"reporting visits every {what}")
        for c, cd in hit:
            odd = [l for l in lits(cd) if l[0][0] != "disc"]
            R.check(not odd, f"visits-all:{fld}", c.where, f"no {what} is skipped", f"a {what} is reported only when {show_dnf(cd)[:200]}")
    skip = C.sites(b, lambda c: re.search(r"Iterator::(skip|take|filter|step_by|take_while|skip_while)$", c.fid or ""))
    R.check(not skip, "visits-all:iter", b.relfile, "no element is filtered out")
    ot = [c for c, a, cd in C.sites(b, is_lock) if a[0] == ("fld", "one_time", p(b, 1))]
    R.check(len(ot) == 1, "one-time", b.relfile, "one-time metrics are reported and removed in one critical section", f"one-time metrics are locked {len(ot)} times: a metric added in between is dropped unreported")
    for c, a, cd in C.sites(b, lambda c: re.search(r"Vec(<.*>)?::(clear|truncate|drain)$|mem::(take|replace)$|BTreeMap(<.*>)?::(clear|retain|remove)$", c.fid or "")):
        R.check(has(a[0], lambda x: x[0] == "fld" and x[1] == "one_time"), "keeps", c.where, "reporting removes nothing but one-time metrics", f"reporting removes entries of {show(a[0])[:80]}")
    b = R.body("metrics::metric::MetricShared::report")
    s = C.sites(b, lambda c: (c.fid or "").endswith("Reporter::report"))
    R.check(len(s) >= 1 and all(cd == TRUE or all(l[0][0] == "disc" for l in lits(cd)) for c, a, cd in s), "samples", b.relfile, "every recorder is reported")
    for c, a, cd in s:
        v = a[2]
        R.check(v[0] == "call" and v[1].endswith("MetricRecorder::value") and has(v, lambda x: x[0] == "fld" and x[1] == "1") and has(v, lambda x: x[0] == "fld" and x[1] == "values"), "sample-value", c.where, "a sample reports its recorder's value")
    e = C.sites(b, lambda c: re.search(r"Labels::(extend|insert)$", c.fid or ""))
    R.check(any(mentions(a[0], p(b, 2)) and has(a[1], lambda x: x[0] == "fld" and x[1] == "values") for c, a, cd in e), "sample-labels", b.relfile, "a sample's labels are the metric's labels extended by the recorder's")
    b = R.body("<metrics::metric::Metric as metrics::Measure>::report")
    order = [re.search(r"(start|stop|MetricShared::report)$", c.fid or "") for c in b.calls()]
    order = [m.group(1) for m in order if m]
    R.check(order == ["start", "MetricShared::report", "stop"], "bracket", b.relfile, "a metric is reported between start and stop", f"order is {order}")
    for c, a, cd in C.sites(b, lambda c: (c.fid or "").endswith("Reporter::start")):
        R.check([x == ("fld", f, p(b, 1)) for x, f in zip(a[1:], ("name", "description", "metric_type"))] == [True] * 3, "bracket-args", c.where, "the family is opened with the metric's name, description and kind")
    b = R.body("metrics::label::Labels::extend")
    e = C.sites(b, lambda c: re.search(r"Extend(<.*>)?>?::extend$|BTreeMap(<.*>)?::(append|insert|extend)$", c.name))
    R.check(any(a[0] == ("fld", "0", p(b, 1)) and (a[1] == p(b, 2) or mentions(a[1], p(b, 2))) for c, a, cd in e), "extend", b.relfile, "extending labels adds the given labels")
