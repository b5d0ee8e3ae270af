"""Request limits: what is configured is what is enforced, and it survives storage."""
import re
from va.cond import Cond, TRUE, konst, show_dnf, precedes
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L

PKGS = ["limiter_bucket", "meta"]
CRATES = ["limiter_bucket", "meta", "config"]
RULE = """(1) RateBucket::serialize writes each field once under its name, as many as it announces, the interval in the unit in which
deserialize reads it; visit_str maps each name to its own variant, visit_map puts the value read under each variant into the field of
that name, visit_seq in the order written. (2) the types kept or sent (builders, requests, responses, limiter maps) have no field
left out of their derived serialization. (3) load_config of the local and the remote limiter gives each of the eight kinds the
bucket configured for it; a bucket is built from the configured numbers. (4) each check_* asks for its own kind and for the bytes it was
given (or one request). (5) require and remote_requre report success only on a path that has taken exactly what was asked for from
the bucket, once, and only when the balance allows it; check_bucket admits without taking only where no bucket is configured. Tokens
granted by meta are added once, as granted. (6) process_limiter_request grants what acquire_closed of that tenant's and kind's bucket
gave, and stores the bucket after that; it grants unconditionally only without a limiter. (7) a changed tenant changes its limiter, a
dropped tenant removes it."""
LIM = "meta::limiter::local_request_limiter::"
LRL = LIM + "LocalRequestLimiter"
CO = "::{closure#0}"
RB = "limiter_bucket::rate_bucket::RateBucket"
KINDS = ["CoordDataIn", "CoordDataOut", "CoordQueries", "CoordWrites", "HttpDataIn", "HttpDataOut", "HttpQueries", "HttpWrites"]


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def P(f, n):
    return ("param", f, n)


def strk(t):
    m = re.match(r'^"(.*)"$', show(t))
    return m and m.group(1)


UNIT = {"num_milliseconds": "milliseconds", "num_seconds": "seconds", "num_microseconds": "microseconds", "num_nanoseconds": "nanoseconds"}


def run(R):
    F = R.F
    serde(R, F)
    kept(R, F)
    config(R, F)
    kinds(R, F)
    taking(R, F)
    granting(R, F)
    watching(R, F)


def serde(R, F):
    C = Cond(F)
    fid = f"<{RB} as serde::ser::Serialize>::serialize"
    b = R.body(fid)
    me = P(fid, 1)
    ss = own_sites(C, b, lambda c: c.name.endswith("::serialize_struct"))
    fs = own_sites(C, b, lambda c: c.name.endswith("::serialize_field"))
    fields = [f for f in R_fields(F, RB)]
    R.check(len(ss) == 1 and konst(ss[0][1][2]) == len(fs), "s-count", b.relfile, "as many fields are announced as written", f"{[show(x[1][2]) for x in ss]} announced, {len(fs)} written")
    fs.sort(key=lambda x: sum(1 for y in fs if y is not x and precedes(b, y[0].bb, x[0].bb)))
    names, conv = [], {}
    for c, a, cd in fs:
        nm = strk(a[1])
        names.append(nm)
        v = a[2]
        if v[0] == "call" and v[1].rsplit("::", 1)[1] in UNIT:
            conv[nm] = UNIT[v[1].rsplit("::", 1)[1]]
            v = v[2][0]
        if v[0] == "call" and v[1].endswith("::lock"):
            v = v[2][0]
        R.check(nm in fields and v == getf(me, nm), "s-field", c.where, "each field is written under its own name", f"{nm} = {show(a[2])[:80]}")
        bad = [l for l in lits(cd) if not (l[0][0] == "disc" and has(l[0], lambda t: t[0] == "call" and "serialize" in t[1]))]
        R.check(not bad, "s-field", c.where, "unconditionally", show_dnf(cd)[:120])
    R.check(sorted(names) == sorted(fields), "s-all", b.relfile, "every field is written", f"{names} of {fields}")
    # names -> variants
    vb = [F.get(i) for i in F.ids() if f"<{RB} as serde::de::Deserialize>" in i and i.endswith("FieldVisitor as serde::de::Visitor>::visit_str")]
    R.check(len(vb) == 1, "d-names", b.relfile, "field names are parsed in one place")
    var = {}
    for cd, t in C.ret_cases(vb[0]):
        if not cd or is_err(t) or t[0] != "agg":
            continue
        for cj in cd:
            s = [strk(x) for l in cj if l[0][0] == "bin" and l[0][1] == "Eq" and ("1" in l[1]) == l[2] for x in l[0][2:4] if strk(x)]
            R.check(len(s) == 1 and t[2] and t[2][0][0] == "agg", "d-names", vb[0].relfile, "a name selects a field", show(t)[:60])
            if s and t[2]:
                var[s[0]] = t[2][0][1].rsplit("::", 1)[1]
    R.check(set(names) <= set(var) and len(set(var.values())) == len(var), "d-names", vb[0].relfile, "every written name is known, each for itself", f"{var}")
    enum = [i for i in F.items if i.endswith("deserialize::Field") and RB in i]
    discs = {v: discr(F, enum[0], v) for v in var.values()} if enum else {}
    pre = f"<<{RB} as serde::de::Deserialize>::deserialize::RateLimiterVisitor as serde::de::Visitor>::"

    def unwrapc(nm, v):
        want = conv.get(nm)
        if v[0] == "call" and v[1].endswith("Mutex::new"):
            v = v[2][0]
        if want:
            if not (v[0] == "call" and v[1].endswith("::" + want)):
                return None
            v = v[2][0]
        return v
    # sequence
    q = R.body(pre + "visit_seq")
    els = [c for c in q.calls() if c.name.endswith("::next_element")]
    els.sort(key=lambda x: sum(1 for y in els if y is not x and precedes(q, y.bb, x.bb)))
    n = 0
    for cd, t in C.ret_cases(q):
        if not cd or t[0] != "agg" or not t[1].endswith("::Ok"):
            continue
        n += 1
        for nm in fields:
            v = unwrapc(nm, getf(t[2][0], nm))
            sites = {x[3] for x in walk(v) if x[0] == "call" and x[1].endswith("::next_element")} if v else set()
            i = names.index(nm) if nm in names else -1
            R.check(v is not None and v[0] == "ok" and i >= 0 and i < len(els) and sites == {(q.id, els[i].bb)} and not has(v, lambda x: x[0] == "bin"), "d-seq", q.relfile, f"sequence element {i} is the field written there ({nm})", show(v)[:100] if v else "unit differs from the one written")
    R.floor(n, 1, "visit_seq result")
    m = R.body(pre + "visit_map")
    rv = [c for c in m.calls() if c.name.endswith("::next_value")]
    n = 0
    for cd, t in C.ret_cases(m):
        if not cd or t[0] != "agg" or not t[1].endswith("::Ok"):
            continue
        n += 1
        for nm in fields:
            v = unwrapc(nm, getf(t[2][0], nm))
            sites = {x[3][1] for x in walk(v) if x[0] == "call" and x[1].endswith("::next_value")} if v else set()
            ok = len(sites) == 1 and not has(v, lambda x: x[0] == "bin")
            for s in sites:
                cdv = C.rc(m, s)
                for cj in cdv:
                    got = {x for l in cj if l[0][0] == "disc" and has(l[0], lambda y: y[0] == "call" and y[1].endswith("::next_key")) and l[0][1][0] == "ok" and l[0][1][1][0] == "ok" and l[2] for x in l[1]}
                    ok = ok and got == {discs.get(var.get(nm))}
            R.check(ok, "d-map", m.relfile, f"the value read under {nm} becomes {nm}", show(v)[:100] if v else "unit differs from the one written")
    R.floor(n, 1, "visit_map result")


def R_fields(F, ty):
    it = F.items[ty]
    return [f[0] for f in it["variants"][0]["fields"]]


def kept(R, F):
    for ty in (RB + "Builder", "limiter_bucket::rate_bucket::Critical", "limiter_bucket::count_bucket::CountBucket", LIM + "ExpectedRequest", LIM + "LocalBucketRequest", LIM + "LocalBucketResponse",
               "meta::limiter::remote_request_limiter::RemoteRequestLimiter", "config::common::limiter_config::RequestLimiterConfig", "config::common::limiter_config::RateBucketConfig",
               "config::common::limiter_config::CountBucketConfig", "config::common::limiter_config::Bucket"):
        it = F.items.get(ty)
        R.need(it is not None, f"{ty} not found")
        n = 0
        for f in it["variants"][0]["fields"]:
            n += 1
            at = " ".join(str(x) for x in f[2])
            bad = re.search(r"skip\w*|flatten|\w*with\b", at) if "serde" in at else None
            R.check(not bad, "k-field", ty, f"{ty.rsplit('::', 1)[1]} is kept whole", f"{f[0]}: {at[:80]}")
        R.floor(n, 1, f"fields of {ty}")


def config(R, F):
    for fid, ins in ((LRL + "::load_config", LIM + "insert_local_bucket"), ("meta::limiter::remote_request_limiter::RemoteRequestLimiter::load_config", "meta::limiter::remote_request_limiter::insert_remote_bucket")):
        b = R.body(fid)
        C = Cond(F)
        cfg = ("ok", P(fid, 1))
        got = {}
        for c, a, cd in C.sites(b, lambda c: re.search(r"HashMap(<.*>)?::(insert|extend|remove|clear|retain)$", c.fid or "")):
            k, v = a[1], a[2]
            kind = k[1].rsplit("::", 1)[1] if k[0] == "agg" else None
            bk = [x for x in walk(v) if x[0] == "fld" and x[1] in ("local_bucket", "remote_bucket")]
            src = {x[2] for x in bk}
            side = {x[1] for x in bk}
            ok = kind in KINDS and src == {("ok", getf(cfg, snake(kind)))} and side == {"local_bucket" if "local" in ins else "remote_bucket"}
            R.check(ok, "c-kind", c.where, "each kind gets the bucket configured for it", f"{show(k)} <- {[show(x)[:80] for x in bk]}")
            if ok:
                bad = [l for l in lits(cd) if not (l[0][0] == "disc" and l[0][1] in (P(fid, 1), getf(cfg, snake(kind))))]
                R.check(not bad, "c-always", c.where, "whenever it is configured", show_dnf(frozenset([frozenset(bad)]))[:120])
                got[kind] = v
        R.check(set(got) == set(KINDS), "c-all", b.relfile, "every kind is loaded", f"missing {sorted(set(KINDS) - set(got))}")
        for k, v in got.items():
            if "local" in ins:
                ag = [x for x in walk(v) if x[0] == "agg" and x[1].endswith("CountBucket")]
                lb = [x for x in walk(v) if x[0] == "fld" and x[1] == "local_bucket"]
                R.check(ag and lb and getf(ag[0], "count") == getf(lb[0], "initial") and getf(ag[0], "max_count") == getf(lb[0], "max"), "c-numbers", b.relfile, f"{k}: the local bucket starts as configured", show(v)[:160])
            else:
                ag = [x for x in walk(v) if x[0] == "agg" and x[1] == RB]
                rb = [x for x in walk(v) if x[0] == "fld" and x[1] == "remote_bucket"]
                ok = ag and rb and getf(ag[0], "refill") == getf(rb[0], "refill")
                iv = getf(ag[0], "interval") if ag else ("?",)
                ok = ok and iv[0] == "call" and iv[1].endswith("::milliseconds") and iv[2][0] == getf(rb[0], "interval")
                mx = getf(ag[0], "max") if ag else ("?",)
                ok = ok and any(x == ("ok", getf(rb[0], "max")) for x in alts(mx))
                bal = [x for x in walk(getf(ag[0], "critical"))] if ag else []
                ok = ok and any(x == getf(rb[0], "initial") for x in bal)
                R.check(bool(ok), "c-numbers", b.relfile, f"{k}: the remote bucket is built from the configured numbers", show(v)[:200])


def kinds(R, F):
    """each check_* asks for its own kind"""
    C = Cond(F, no_inline=r"LocalRequestLimiter::check_bucket$")
    for k in KINDS:
        fid = f"<{LRL} as meta::limiter::RequestLimiter>::check_{snake(k)}"
        b = R.body(fid + CO)
        s = own_sites(C, b, lambda c: (c.fid or "").endswith("LocalRequestLimiter::check_bucket"))
        R.check(len(s) == 1, "n-check", b.relfile, f"check_{snake(k)} asks the bucket", f"{len(s)}")
        for c, a, cd in s:
            R.check(a[0] == P(fid, 1) and a[1][0] == "agg" and a[1][1].endswith("::" + k), "n-kind", c.where, f"check_{snake(k)} asks for {k}", show(a[1])[:60])
            want = a[2] == P(fid, 2) if "Data" in k else konst(a[2]) == 1
            R.check(want and cd == TRUE, "n-amount", c.where, "for what it was given", show(a[2])[:60])
        for cd, t in C.ret_cases(b):
            if cd:
                R.check(t[0] == "await" and has(t, lambda x: x[0] == "call" and x[1].endswith("check_bucket")) or is_err(t) or any(has(l[0], lambda x: x[0] == "call" and x[1].endswith("check_bucket")) for cj in cd for l in cj), "n-answer", b.relfile, "and answers with the bucket's answer", show(t)[:100])


def taking(R, F):
    NI = r"CountBucket::\w+$|limiter_request$|LocalRequestLimiter::(require|remote_requre|get_buket)$"
    C = Cond(F, no_inline=NI)
    CB = lambda t, m: t[0] == "call" and t[1].endswith("CountBucket::" + m)
    # CountBucket
    for m, sign in (("inc", 1), ("dec", -1)):
        fid = "limiter_bucket::count_bucket::CountBucket::" + m
        b = R.body(fid)
        C0 = Cond(F)
        ws = [w for w in C0.writes(b, r"^count$")]
        R.check(len(ws) == 1 and ws[0][2] == TRUE and L.lin(ws[0][1][0]) == L.add(L.lin(getf(P(fid, 1), "count")), L.lin(P(fid, 2)), sign), "t-count", b.relfile, f"{m} changes the count by what it is given", f"{[show(w[1][0])[:80] for w in ws]}")
    for m, f in (("fetch", "count"), ("max", "max_count")):
        fid = "limiter_bucket::count_bucket::CountBucket::" + m
        b = R.body(fid)
        R.check([t for cd, t in Cond(F).ret_cases(b) if cd] == [getf(P(fid, 1), f)], "t-count", b.relfile, f"{m} is the {f}")
    # require
    fid = LRL + "::require"
    b = R.body(fid)
    bk, req = P(fid, 2), P(fid, 3)
    decs = own_sites(C, b, lambda c: CB(("call", c.fid or ""), "dec"))
    for c, a, cd in decs:
        R.check(a[0] == bk and a[1] == req, "t-dec", c.where, "what was asked for is taken", f"{[show(x)[:60] for x in a]}")
    other = own_sites(C, b, lambda c: re.search(r"CountBucket::(inc)$", c.fid or ""))
    R.check(not other, "t-dec", b.relfile, "nothing is given back")
    now = lambda t: CB(t, "fetch") and t[2][0] == bk
    mxo = lambda t: t[0] == "ok" and CB(t[1], "max") and t[1][2][0] == bk
    def summ(t):
        if t[0] != "bin":
            return False
        p, ns, ms = L.lin(t), [x for x in walk(t) if now(x)], [x for x in walk(t) if mxo(x)]
        return bool(ns and ms) and p == L.add(L.lin(ns[0]), L.lin(ms[0]), 1)
    n = 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        R.need(t[0] == "agg", f"require returns {show(t)[:60]}")
        v = t[1].rsplit("::", 1)[1]
        for cj in cd:
            taken = [c for c, a, d in decs if any(x <= cj for x in d)]
            neg = rels(cj, req, lambda x: konst(x) == 0)
            if v == "Success":
                n += 1
                R.check(len(taken) == 1, "t-charged", b.relfile, "a request is admitted only when it is charged, once", f"{len(taken)} deductions where {show_dnf(frozenset([cj]))[:200]}")
                enough = rels(cj, now, req) <= set(">=") or rels(cj, summ, req) <= set(">=") and "<" not in rels(cj, now, lambda x: konst(x) == 0)
                R.check(enough, "t-enough", b.relfile, "and only when the balance, with the allowed overdraft, covers it", show_dnf(frozenset([cj]))[:240])
                R.check("<" not in neg, "t-negative", b.relfile, "and is not negative", show_dnf(frozenset([cj]))[:200])
            else:
                R.check(not taken, "t-free", b.relfile, "nothing is taken from a request that is not admitted", show_dnf(frozenset([cj]))[:200])
                R.check(v != "RequestMeta" or "<" not in neg, "t-negative", b.relfile, "meta is not asked for a negative amount", show_dnf(frozenset([cj]))[:200])
            if v == "RequestMeta":
                R.check(rels(cj, now, req) <= set("<="), "t-meta", b.relfile, "meta is asked only when the balance does not cover the request", show_dnf(frozenset([cj]))[:200])
    R.floor(n, 1, "admissions of require")
    # remote
    fid = LRL + "::remote_requre"
    b = R.body(fid + CO)
    bk, need_ = P(fid, 3), P(fid, 4)
    rq = own_sites(C, b, lambda c: (c.fid or "").endswith("limiter_request"))
    R.check(len(rq) == 1, "r-ask", b.relfile, "meta is asked once")
    for c, a, cd in rq:
        me = P(fid, 1)
        R.check(a[1] == getf(me, "cluster") and a[2] == getf(me, "tenant") and getf(a[3], "kind") == P(fid, 2) and getf(getf(a[3], "expected"), "min") == P(fid, 5) and getf(getf(a[3], "expected"), "max") == P(fid, 6) and cd == TRUE, "r-ask", c.where, "for this tenant, kind and amount", f"{[show(x)[:80] for x in a[1:]]}")
    rsp = lambda t: t[0] == "ok" and t[1][0] == "await" and t[1][1][0] == "call" and t[1][1][1].endswith("limiter_request")
    answered = lambda cj: any(l[0][0] == "disc" and has(l[0], lambda x: x[0] == "call" and x[1].endswith("limiter_request")) and ("0" in l[1]) == l[2] for l in cj)
    incs = own_sites(C, b, lambda c: (c.fid or "").endswith("CountBucket::inc"))
    decs = own_sites(C, b, lambda c: (c.fid or "").endswith("CountBucket::dec"))
    R.check(len(incs) == 1, "r-add", b.relfile, "the grant is added once", f"{len(incs)}")
    for c, a, cd in incs:
        R.check(a[0] == bk and a[1][0] == "fld" and a[1][1] == "alloc" and rsp(a[1][2]), "r-add", c.where, "what meta granted is added", show(a[1])[:80])
        R.check(all(answered(cj) and len(cj) == 1 for cj in cd), "r-add", c.where, "whenever it granted", show_dnf(cd)[:120])
    for c, a, cd in decs:
        R.check(a[0] == bk and a[1] == need_, "r-take", c.where, "what was asked for is taken", show(a[1])[:60])
        R.check(all(precedes(b, i[0].bb, c.bb) for i in incs), "r-take", c.where, "after the grant is added")
    fb = lambda t: t[0] == "call" and t[1].endswith("CountBucket::fetch") and t[2][0] == bk
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for cj in cd:
            taken = [c for c, a, d in decs if any(x <= cj for x in d)]
            R.check(len(taken) == 1, "r-charged", b.relfile, "a request is admitted only when it is charged, once", f"{len(taken)} deductions where {show_dnf(frozenset([cj]))[:160]}")
            R.check(rels(cj, fb, need_) <= set(">="), "r-enough", b.relfile, "and the balance covers it", show_dnf(frozenset([cj]))[:200])
    # check_bucket
    fid = LRL + "::check_bucket"
    b = R.body(fid + CO)
    kind, n_ = P(fid, 2), P(fid, 3)
    isb = lambda t: has(t, lambda x: x[0] == "call" and x[1].endswith("get_buket") and x[2][1] == kind) or has(t, lambda x: x[0] == "call" and x[1].endswith("HashMap::get") and x[2][1] == kind)
    rqs = own_sites(C, b, lambda c: (c.fid or "").endswith("::require"))
    rms = own_sites(C, b, lambda c: (c.fid or "").endswith("::remote_requre"))
    R.check(len(rqs) == 1 and len(rms) == 1, "b-ask", b.relfile, "the bucket is asked, then meta")
    dl = lambda t: t == n_ or t[0] == "cast" and n_ in t
    for c, a, cd in rqs:
        lockd = lambda t: has(t, lambda x: x[0] == "call" and x[1].endswith("Mutex::lock"))
        R.check(isb(a[1]) and lockd(a[1]) and dl(a[2]), "b-args", c.where, "the kind's bucket, locked, for the amount", f"{[show(x)[:100] for x in a[1:]]}")
    for c, a, cd in rms:
        R.check(a[1] == kind and rqs and a[2] == rqs[0][1][1] and dl(a[3]) and a[4][0] == "fld" and a[4][1].endswith("min") and a[5][0] == "fld" and a[5][1].endswith("max"), "b-args", c.where, "meta is asked for the same kind, bucket and amount", f"{[show(x)[:100] for x in a[1:]]}")
    svar = discr(F, LIM + "RequireResult", "Success")
    isrq = lambda t: t[0] == "call" and t[1].endswith("::require")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for cj in cd:
            none = any(l[0][0] == "disc" and isb(l[0]) and not has(l[0], isrq) and ("0" in l[1]) == l[2] for l in cj)
            succ = any(l[0][0] == "disc" and isrq(l[0][1]) and l[2] and l[1] == {svar} for l in cj)
            rem = has(t, lambda x: x[0] == "call" and x[1].endswith("remote_requre")) or any(l[0][0] == "disc" and has(l[0], lambda x: x[0] == "call" and x[1].endswith("remote_requre")) and ("0" in l[1]) == l[2] for l in cj)
            R.check(none or succ or rem, "b-admit", b.relfile, "admitted only without a configured bucket or with the charge", f"{show(t)[:60]} if {show_dnf(frozenset([cj]))[:200]}")
    gb = F.get(LRL + "::get_buket" + CO)
    if gb is not None:
        g = LRL + "::get_buket"
        for cd, t in C.ret_cases(gb):
            if cd:
                look = lambda t: has(t, lambda x: x[0] == "call" and x[1].endswith("HashMap::get") and x[2][1] == P(g, 2))
                R.check(look(t) or t[0] == "agg" and t[1].endswith("::None") and all(any(l[0][0] == "disc" and look(l[0]) and ("0" in l[1]) == l[2] for l in cj) for cj in cd), "b-get", gb.relfile, "the bucket is looked up under its kind", show(t)[:100])


def granting(R, F):
    fid = "meta::store::storage::StateMachine::process_limiter_request"
    b = R.body(fid)
    C = Cond(F, no_inline=r"RateBucket::\w+$|get_struct|set_tenant_limiter$|KeyPath::\w+$|value_encode|StateMachine::(insert|remove)$")
    me, cl, tn, rq = (P(fid, i) for i in range(1, 5))
    key = lambda t: t[0] == "call" and t[1].endswith("KeyPath::limiter") and t[2] == (cl, tn)
    st = lambda t: t[0] == "call" and "get_struct" in t[1] and key(t[2][1])
    lim = lambda t: t[0] == "ok" and t[1][0] == "ok" and st(t[1][1])
    bucket = lambda t: t[0] == "ok" and t[1][0] == "call" and re.search(r"HashMap::get(_mut)?$", t[1][1]) and lim(t[1][2][0][2]) and t[1][2][0][1] == "buckets" and t[1][2][1] == getf(rq, "kind")
    mx = getf(getf(rq, "expected"), "max")
    acq = lambda t: t[0] == "call" and t[1].endswith("RateBucket::acquire_closed") and bucket(t[2][0]) and (t[2][1] == mx or t[2][1][0] == "cast" and mx in t[2][1])
    aq = own_sites(C, b, lambda c: re.search(r"RateBucket::acquire\w*$", c.fid or ""))
    sv = own_sites(C, b, lambda c: (c.fid or "").endswith("set_tenant_limiter"))
    R.check(len(aq) == 1 and len(sv) == 1, "g-steps", b.relfile, "tokens are taken once and the state is stored once", f"{len(aq)}, {len(sv)}")
    for c, a, cd in sv:
        R.check(a[1] == cl and a[2] == tn and a[3][0] == "agg" and a[3][1].endswith("::Some") and lim(a[3][2][0]), "g-store", c.where, "the tenant's limiter is stored", f"{[show(x)[:80] for x in a[1:]]}")
        R.check(all(precedes(b, x[0].bb, c.bb) for x in aq), "g-after", c.where, "after the tokens were taken")
    n = 0
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        rsp = t[2][0]
        al = getf(rsp, "alloc")
        core_ = al[2] if al[0] == "cast" and len(al) > 2 else al
        R.check(getf(rsp, "kind") == getf(rq, "kind"), "g-kind", b.relfile, "for the kind asked for", show(t)[:80])
        for cj in cd:
            n += 1
            nolim = any(l[0][0] == "disc" and (l[0][1][0] == "ok" and st(l[0][1][1]) or l[0][1][0] == "call" and l[0][1][1].endswith("HashMap::get")) and ("0" in l[1]) == l[2] for l in cj)
            if al == mx:
                R.check(nolim, "g-free", b.relfile, "without limit only where none is configured", show_dnf(frozenset([cj]))[:200])
            else:
                R.check(any(acq(x) for x in (al, core_) + tuple(al[1:] if al[0] == "cast" else ()) if isinstance(x, tuple)), "g-alloc", b.relfile, "what the bucket gave is granted", show(al)[:160])
                stored = any(l[0][0] == "disc" and has(l[0], lambda x: x[0] == "call" and x[1].endswith("set_tenant_limiter")) and ("0" in l[1]) == l[2] for l in cj)
                R.check(stored, "g-stored", b.relfile, "only once the state is stored", show_dnf(frozenset([cj]))[:200])
    R.floor(n, 2, "grants")
    fid = "meta::store::storage::StateMachine::set_tenant_limiter"
    b = R.body(fid)
    me, cl, tn, lm = (P(fid, i) for i in range(1, 5))
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t) or t[0] == "err":
            continue
        for cj in cd:
            some = any(l[0] == ("disc", lm) and ("1" in l[1]) == l[2] for l in cj)
            k = t[2][1] if t[0] == "call" and len(t[2]) > 1 else None
            good = k is not None and k[0] == "call" and k[1].endswith("KeyPath::limiter") and k[2] == (cl, tn) and (t[1].endswith("::insert") and some and has(t[2][2], lambda x: x == ("ok", lm)) or t[1].endswith("::remove") and not some)
            R.check(good, "g-set", b.relfile, "a limiter is stored under its tenant's key, none removes it", f"{show(t)[:120]} if {show_dnf(frozenset([cj]))[:80]}")


def watching(R, F):
    fid = "meta::limiter::limiter_manager::LimiterManager::process_watch_log"
    b = R.body(fid + CO)
    C = Cond(F, no_inline=r"LimiterManager::(get|create|remove)_limiter$|change_self$")
    me, tn, en = (P(fid, i) for i in range(1, 4))
    tye = getf(en, "tye")
    keyof = lambda t: t[0] == "agg" and t[1].endswith("LimiterKey") and t[2][1] == tn and show(t[2][0]).startswith("Tenant")

    def kind_(cj):
        for nm in ("SET", "DEL", "NOP"):
            if any(l[0][0] == "bin" and l[0][1] == "Eq" and tye in l[0][2:4] and show(l[0]).find("ENTRY_LOG_TYPE_" + nm) >= 0 and ("1" in l[1]) == l[2] for l in cj):
                return nm
        return None
    fresh = lambda t: t[0] == "agg" and t[1].endswith("TenantRequestLimiterConfig") and getf(t, "tenant") == tn and has(t, lambda x: x[0] == "call" and x[1].endswith("request_config") and has(x, lambda y: y == getf(en, "val")))
    acts = own_sites(C, b, lambda c: re.search(r"(create|remove)_limiter$|change_self$", c.fid or ""))
    done = {"SET": 0, "DEL": 0}
    for c, a, cd in acts:
        m = c.fid.rsplit("::", 1)[1]
        for cj in cd:
            k = kind_(cj)
            if m == "remove_limiter":
                R.check(k == "DEL" and keyof(a[1]), "w-remove", c.where, "a removed tenant's limiter is removed", show_dnf(frozenset([cj]))[:160])
                rest = [l for l in cj if not (tye in l[0][2:4] if l[0][0] == "bin" else False)]
                R.check(not rest, "w-remove", c.where, "whatever the entry's value", show_dnf(frozenset([frozenset(rest)]))[:160])
                done["DEL"] += 1
            elif k == "SET":
                R.check(m == "create_limiter" and keyof(a[1]) and fresh(a[2]) or m == "change_self" and fresh(a[1]), "w-set", c.where, "a changed tenant's limiter gets the new configuration", f"{m} {[show(x)[:120] for x in a[1:]]}")
                done["SET"] += 1
    R.check(done["SET"] >= 2 and done["DEL"] >= 1, "w-all", b.relfile, "changes and removals are followed", f"{done}")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t) or t[0] == "err":
            continue
        for cj in cd:
            if kind_(cj) == "SET":
                R.check(any(has(l[0], lambda x: x[0] == "call" and re.search(r"create_limiter$|change_self$", x[1])) and ("0" in l[1]) == l[2] for l in cj), "w-ok", b.relfile, "Ok only once the limiter has changed", show_dnf(frozenset([cj]))[:200])
    # change_self / change replace the buckets by those of the new configuration
    for name, src in ((f"<{LRL} as meta::limiter::RequestLimiter>::change_self", None), (LRL + "::change", 2)):
        bb = F.get(name + CO)
        R.need(bb is not None, name)
        C2 = Cond(F, no_inline=r"LocalRequestLimiter::load_config$")
        st = deref_stores(C2, bb)
        ok = False
        for x in st:
            txt = [y for y in x if isinstance(y, tuple)]
            ok = ok or any(has(y, lambda z: z[0] == "call" and z[1].endswith("load_config") and has(z, lambda q: q[0] == "param" and q[1] == name and q[2] == 2)) for y in txt)
        R.check(ok, "w-change", bb.relfile, "the buckets become those of the given configuration", f"{len(st)} stores")
    # insert/remove of the manager
    fid = "meta::limiter::limiter_manager::LimiterManager::remove_limiter"
    b = R.body(fid)
    s = [x for x in Cond(F).sites(b, lambda c: re.search(r"HashMap(<.*>)?::remove$", c.fid or ""))]
    R.check(len(s) == 1 and s[0][1][1] == P(fid, 2), "w-map", b.relfile, "the limiter of the given key is removed")
    fid = "meta::limiter::limiter_manager::LimiterManager::insert_limiter"
    b = R.body(fid)
    s = [x for x in Cond(F).sites(b, lambda c: re.search(r"HashMap(<.*>)?::insert$", c.fid or ""))]
    R.check(len(s) == 1 and s[0][1][1] == P(fid, 2) and s[0][1][2] == P(fid, 3), "w-map", b.relfile, "a limiter is kept under its key")
