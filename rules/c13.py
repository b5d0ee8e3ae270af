"""A trace context crosses process boundaries unchanged, and tracing never changes or refuses a request."""
import itertools
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from rules.c34 import truth
from rules.c10 import glue

PKGS = ["trace", "coordinator"]
CRATES = ["trace", "coordinator"]
RULE = """(1) SpanContext::to_string is <trace_id hex>:<span_id hex>; from_str cuts at the ':' into two pieces, and reads the first back as a u128, the
second as a u64, in the same radix, into the same places; a failure of any step is an error. (2) The sender inserts exactly that text and the receiver
reads exactly that text, under the same header constant; no header is no context, a bad one is an error. (3) TraceService::call inserts into the
request exactly: the header's context when there is one, a random one when there is none and spans are generated, nothing when the header is bad;
every way out hands the request to the inner service and returns its answer. (4) A span made from a context is a root under that context, or
a no-op without one; adding properties keeps the span. (5) The coordinator's remote readers append the context they were made with to the
request they send, and local ones start their span under it. (6) The file reporter appends every span it is given."""
HC = "trace::http::http_ctx::"
TL = "trace::http::tower_layer::"
SX = "<minitrace::span::Span as trace::span_ext::SpanExt>::"
CX = "<minitrace::collector::SpanContext as trace::span_ctx_ext::SpanContextExt>::"
FX, FH, FT, FS = ("common/trace/src/" + x for x in ("span_ctx_ext.rs", "http/http_ctx.rs", "http/tower_layer.rs", "span_ext.rs"))
HEX = {"lower_hex": 16, "upper_hex": 16, "octal": 8, "binary": 2, "display": 10}


def P(f, n):
    return ("param", f, n)


def call(t, suffix):
    return t[0] == "call" and (t[1].endswith("::" + suffix) or t[1] == suffix)


PASS = re.compile(r"::(as_str|as_ref|deref|as_bytes|borrow|to_string|to_owned|clone|cloned|copied|from|into|as_deref|must_use|format|as_mut|deref_mut)$")


def unok(t):
    while True:
        if t[0] in ("ok", "await"):
            t = t[1]
        elif t[0] == "call" and len(t[2]) == 1 and (PASS.search(t[1])):
            t = t[2][0]
        else:
            return t


def run(R):
    F = R.F
    C = Cond(F)
    text(R, F, C)
    headers(R, F, C)
    service(R, F, C)
    spans(R, F, C)
    openers(R, F)
    reporter(R, F, C)


# ---------------------------------------------------------------- text form
def text(R, F, C):
    b = R.body(CX + "to_string")
    me = P(b.id, 1)
    rs = [t for cd, t in C.ret_cases(b) if cd]
    f = glue(fmt_parts(rs[0])) if len(rs) == 1 else None
    want = [("fld", "0", ("fld", "trace_id", me)), ":", ("fld", "0", ("fld", "span_id", me))]
    radix = None
    if R.check(f is not None and len(f) == 3 and [x if isinstance(x, str) else x[1] for x in f] == want, "t-form", FX, "a context is written as trace id ':' span id", str(f)[:140] if f else show(rs[0])[:140]):
        hows = [HEX.get(f[0][0]), HEX.get(f[2][0])]
        radix = hows[0]
        R.check(hows[0] == hows[1] and radix in (10, 16), "t-radix", FX, "both ids in one radix, and one from_str_radix knows", str([f[0][0], f[2][0]]))
        R.check(not any(f[0][2] or ()) and not any(f[2][2] or ()), "t-spec", FX, "without padding or prefix", str([f[0][2], f[2][2]]))
    b = R.body(CX + "from_str")
    s = P(b.id, 1)
    oks = []
    for cd, t in C.ret_cases(b):
        if is_err(t):
            continue
        oks.append((cd, t))
    if not R.check(len(oks) == 1, "t-ok", FX, "reading back succeeds in one way", str(len(oks))):
        return
    cd, t = oks[0]
    v = t[2][0] if t[0] == "agg" and t[1].endswith("Result::Ok") else t
    v = unok(v)
    ids = ctx_parts(v)
    if not R.check(ids is not None, "t-new", FX, "into a SpanContext of its two ids", show(v)[:140]):
        return
    for i, (x, ty) in enumerate(zip(ids, ("u128", "u64"))):
        if x[0] == "ok" and x[1][0] == "call" and not call(unok(x), "from_str_radix"):
            x = C.deep(x)
        x = unok(x)
        n = ("trace", "span")[i]
        if not R.check(call(x, "from_str_radix") and re.search(r"\b%s\b" % ty, x[1]), "t-parse", FX, f"the {n} id is read as a {ty}", show(x)[:120]):
            continue
        R.check(konst(x[2][1]) == radix, "t-back", FX, f"the {n} id is read in the radix it was written in", f"{show(x[2][1])} / {radix}")
        R.check(piece(x[2][0], s) == i, "t-piece", FX, f"from the {('first', 'second')[i]} of two pieces", show(x[2][0])[:120])
        d = {l for cj in cd for l in cj if l[0] == ("disc", x) or l[0][0] == "disc" and l[0][1][0] == "call" and F.has(l[0][1][1]) and C.deep(("ok", l[0][1])) == ("ok", x)}
        R.check(d and all(v2 == {"0"} and p for _, v2, p in d), "t-fail", FX, f"a {n} id that cannot be read is an error", show_dnf(cd)[:140])


def ctx_parts(v):
    if call(v, "SpanContext::new"):
        a = v[2]
    elif v[0] == "agg" and v[1].endswith("SpanContext"):
        a = [getf(v, "trace_id"), getf(v, "span_id")]
    else:
        return None
    out = []
    for x, n in zip(a, ("TraceId", "SpanId")):
        if x[0] != "agg" or not x[1].endswith(n):
            return None
        out.append(x[2][0])
    return out


def colon(t):
    return show(t).strip("'\"") == ":"


def piece(t, s):
    """which piece of s cut at ':' this is; None when it is not, or when there can be more than two"""
    if t[0] == "fld" and t[1] in ("0", "1"):
        base = t[2]
        while base[0] == "ok":
            base = base[1]
        if call(base, "collect_tuple") and call(base[2][0], "split") and base[2][0][2][0] == s and colon(base[2][0][2][1]):
            return int(t[1])
        if (call(base, "split_once") or call(base, "rsplit_once")) and base[2][0] == s and colon(base[2][1]):
            return int(t[1])
    return None


# ---------------------------------------------------------------- headers
def headers(R, F, C):
    C2 = Cond(F, no_inline=r"SpanContextExt>::(to_string|from_str)$")
    b = R.body(HC + "span_context_from_http_headers")
    h = P(b.id, 1)
    key = None
    for cd, t in C2.full_cases(b):
        if is_err(t):
            continue
        v = t[2][0] if t[0] == "agg" and t[1].endswith("Result::Ok") else t
        some = v[0] == "call" and v[1].endswith("Some::{constructor#0}") or v[0] == "agg" and v[1].endswith("Option::Some")
        none = v[0] == "agg" and v[1].endswith("Option::None")
        R.check(some or none, "h-form", FH, "the header's context or none", show(t)[:120])
        x = unok(v[2][0]) if some else None
        for cj in cd:
            got = [l for l in cj if l[0][0] == "disc" and call(l[0][1], "HeaderMap::get") or l[0][0] == "call" and l[0][1].endswith("::contains_key")]
            there = {(truth(l) if l[0][0] != "disc" else ("1" in l[1]) == l[2]) for l in got}
            R.check(there == {bool(some)}, "h-when", FH, "a context exactly when the header is there", show_dnf([cj])[:140])
        if some:
            ok = call(x, "from_str") and call(unok(x[2][0]), "to_str")
            g = unok(unok(x[2][0])[2][0]) if ok else None
            if R.check(ok and (call(g, "HeaderMap::get")) and g[2][0] == h, "h-value", FH, "it is read from the header's text", show(v)[:140]):
                key = show(g[2][1])
                R.check(not has(x[2][0], lambda y: y[0] == "call" and not re.search(r"::(to_str|get)$", y[1]) and not PASS.search(y[1])), "h-same", FH, "as it is", show(x)[:140])
    R.check(key is not None, "h-key", FH, "the header is looked up by name")
    propagates(R, F, b, lambda c: bool(re.search(r"HeaderValue::to_str$|SpanContextExt>::from_str$", c.res or c.name)), "h-fail", "reading the header")
    b = R.body(HC + "grpc_append_trace_context")
    ctx, hd = P(b.id, 1), P(b.id, 2)
    es = call_events(C2, b, lambda c: bool(re.search(r"MetadataMap::\w+$", c.fid or c.name)))
    if R.check(len(es) == 1 and es[0][0].name.endswith("::insert"), "g-one", FH, "one header is set", str([e[0].name for e in es])):
        c, a, cd, _ = es[0]
        R.check(unref(a[0]) == hd, "g-map", c.where, "in the request's metadata", show(a[0])[:80])
        R.check(show(a[1]) == key, "g-key", c.where, "under the name the receiver looks up", f"{show(a[1])} / {key}")
        v = unok(a[2])
        if call(v, "parse") or re.search(r"MetadataValue(<.*>)?::try_from|TryFrom", v[1] if v[0] == "call" else ""):
            v = v[2][0]
        v = strip_ref(v)
        R.check(call(v, "to_string") and "SpanContextExt" in v[1] and unok(v[2][0]) == ctx, "g-value", c.where, "it is the text of the context", show(a[2])[:140])
        def lit(l):
            if l[0] == ("disc", ctx):
                return None if False else ("1" in l[1]) == l[2]
            return "ok" if l[0][0] == "disc" and l[1] == {"0"} and l[2] else "?"
        rows = [{lit(l) for l in cj} - {"ok"} for cj in cd]
        R.check(rows and all(r <= {True} for r in rows) and any(r == {True} for r in rows), "g-when", c.where, "whenever there is one", show_dnf(cd)[:140])
    propagates(R, F, b, lambda c: bool(re.search(r"str>?::parse$|try_from$", c.name)), "g-fail", "writing the header")


def unref(t):
    while t[0] == "call" and len(t[2]) == 1 and PASS.search(t[1]):
        t = t[2][0]
    return t


def strip_ref(t):
    while t[0] == "call" and len(t[2]) == 1 and re.search(r"::(as_str|as_ref|deref|borrow|as_bytes|into)$", t[1]):
        t = t[2][0]
    return t


# ---------------------------------------------------------------- tower service
def service(R, F, C0):
    C = Cond(F, no_inline=re.escape(HC))
    TS = f"<{TL}TraceService as tower_service::Service<http::request::Request>>::"
    b = R.body(TS + "call")
    me, rq = P(b.id, 1), P(b.id, 2)
    auto = ("fld", "auto_generate_span", me)
    es = call_events(C, b, lambda c: bool(re.search(r"Extensions::\w+$|HeaderMap(<.*>)?::(insert|remove|append|clear)\w*$|Request(<.*>)?::(headers_mut|uri_mut|method_mut|body_mut|version_mut|map|into_parts|from_parts)$", c.fid or c.name)))
    ins = [e for e in es if re.search(r"Extensions::(insert|replace)$", e[0].fid or e[0].name)]
    look = [e for e in es if re.search(r"Extensions::(get|len|is_empty)$", e[0].fid or e[0].name)]
    R.check(len(es) == len(ins) + len(look), "s-ops", FT, "nothing else of the request is changed", str([e[0].name.rsplit("::", 2)[1:] for e in es if e not in ins and e not in look]))
    hx = {x for e in ins for cj in e[2] for l in cj for x in walk(l[0]) if call(x, "span_context_from_http_headers")} | {x for e in ins for y in e[1] for x in walk(y) if call(x, "span_context_from_http_headers")}
    if not R.check(len({canon(x) for x in hx}) == 1, "s-hdr", FT, "the request's header decides", str(len(hx))):
        return
    h = next(iter(hx))
    R.check(call(h[2][0], "headers") and h[2][0][2][0] == rq, "s-hdr", FT, "the header of this request", show(h)[:100])

    def lit(l, st, au):
        t = l[0]
        if t == auto:
            return truth(l) == au
        if t[0] == "disc" and canon(t[1]) == canon(h):
            return (("1" if st == "err" else "0") in l[1]) == l[2]
        if t[0] == "disc" and t[1][0] == "ok" and canon(t[1][1]) == canon(h):
            return st != "err" and (("1" if st == "some" else "0") in l[1]) == l[2]
        return None
    bad = []
    put = []
    for c, a, cd, _ in ins:
        for cd2, v in [(cd, a[1])] if a[1][0] != "phi" else [(C.conj(cd, c2), v) for c2, v in C.cases(b, c.args[1], (c.bb, None))]:
            put.append((c, v, cd2))
        R.check(call(unref2(a[0]), "extensions_mut") and unref2(a[0])[2][0] == rq, "s-where", c.where, "put with the request that is passed on", show(a[0])[:80])
    for st, au in itertools.product(("err", "none", "some"), (False, True)):
        got = []
        for c, v, cd in put:
            on = False
            for cj in cd:
                vs = [lit(l, st, au) for l in cj]
                if None in vs:
                    bad.append("depends on " + show_dnf([cj])[:80])
                on = on or all(vs)
            if on:
                got.append("ctx" if v[0] == "ok" and v[1][0] == "ok" and canon(v[1][1]) == canon(h) else "random" if call(v, "SpanContext::random") else show(v)[:60])
        want = ["ctx"] if st == "some" else ["random"] if st == "none" and au else []
        if got != want:
            bad.append(f"header {st}, generate {au}: {got or 'nothing'}")
    R.check(not bad, "s-table", FT, "the context put with the request", "; ".join(sorted(set(bad)))[:240])
    n = 0
    for cd, t in C.ret_cases(b):
        if cd:
            n += 1
            R.check(call(t, "call") and plain(t[2][0]) == ("fld", "service", me) and t[2][1] == rq, "s-pass", FT, "the request is passed on and its answer returned", show(t)[:100])
    R.check(n > 0, "s-pass", FT, "call returns")
    cs = call_events(C, b, lambda c: bool(re.search(r"Service(<.*>)?::call$", c.name)))
    R.check(all(ev_before(F, e[3], x[3]) for e in ins for x in cs if x[1][1:] and x[1][1] == rq) and len(cs) == 1, "s-order", FT, "the context is there before it is passed on")
    for n2, want in (("poll_ready", ("fld", "service", None)),):
        x = R.body(TS + n2)
        rs = [t for cd, t in C.ret_cases(x) if cd]
        R.check(len(rs) == 1 and call(rs[0], "poll_ready") and plain(rs[0][2][0]) == ("fld", "service", P(x.id, 1)), "s-ready", FT, "ready when the inner service is", str([show(t)[:80] for t in rs]))
    x = R.body(TL + "TraceLayer::new")
    rs = [t for cd, t in C.ret_cases(x) if cd]
    ok = len(rs) == 1 and rs[0][0] == "agg"
    R.check(ok and getf(rs[0], "auto_generate_span") == P(x.id, 1) and unok(getf(rs[0], "name")) == P(x.id, 2), "s-new", FT, "the layer keeps what it is given", str([show(t)[:100] for t in rs]))
    x = R.body(f"<{TL}TraceLayer as tower_layer::Layer<S>>::layer")
    rs = [t for cd, t in C.ret_cases(x) if cd]
    ok = len(rs) == 1 and rs[0][0] == "agg"
    R.check(ok and getf(rs[0], "service") == P(x.id, 2) and all(unok(getf(rs[0], n)) == ("fld", n, P(x.id, 1)) for n in ("auto_generate_span", "name")), "s-layer", FT, "and gives it to the service", str([show(t)[:100] for t in rs]))


def unref2(t):
    while t[0] == "call" and re.search(r"::(deref_mut|as_mut|borrow_mut)$", t[1]):
        t = t[2][0]
    return t


def plain(t):
    """generic receiver: fld service of fld service is the place, whatever the trait object layers"""
    while t[0] == "fld" and t[2][0] == "fld" and t[1] == t[2][1]:
        t = t[2]
    return unref(t)


# ---------------------------------------------------------------- spans
def spans(R, F, C):
    b = R.body(SX + "from_context")
    name, ctx = P(b.id, 1), P(b.id, 2)
    seen = set()
    for cd, t in C.ret_cases(b):
        for cj in cd:
            st = {("1" in v) == p for x, v, p in cj if x == ("disc", ctx)}
            if call(t, "Span::root"):
                seen.add("root")
                R.check(st == {True} and unok(t[2][0]) == name and unok(t[2][1]) == ctx, "p-root", FS, "a context makes a root span of that context", f"{show(t)[:80]} when {show_dnf([cj])[:60]}")
            else:
                seen.add("noop")
                R.check(st == {False} and call(t, "Span::noop"), "p-noop", FS, "no context makes no span", f"{show(t)[:80]} when {show_dnf([cj])[:60]}")
    R.check(seen == {"root", "noop"}, "p-both", FS, "both cases are there", str(seen))
    b = R.body(SX + "context")
    rs = [t for cd, t in C.ret_cases(b) if cd]
    R.check(len(rs) == 1 and call(rs[0], "SpanContext::from_span") and rs[0][2][0] == P(b.id, 1), "p-ctx", FS, "a span's context is its own", str([show(t)[:80] for t in rs]))
    for n, w in (("add_property", "with_property"), ("add_properties", "with_properties")):
        b = R.body(SX + n)
        me, pr = P(b.id, 1), P(b.id, 2)
        es = call_events(C, b, lambda c: bool(re.search(r"mem::(take|swap|replace)$|Span::\w+$", c.fid or c.name)))
        ws = [e for e in es if e[0].name.endswith("::" + w)]
        R.check(len(ws) == 1 and ws[0][1][1] == pr and not any(cj for cj in ws[0][2]), "p-prop", FS, f"{n} adds what it is given", str([show(x)[:60] for e in ws for x in e[1]]))
        took = [e for e in es if re.search(r"mem::(take|replace)$", e[0].name) and unref(e[1][0]) == me]
        if not R.check(len(took) >= 1, "p-own", FS, f"{n} works on the span itself"):
            continue
        # the span that got the property goes back into its place: swapped or stored, after the property was added
        back = [e for e in es if e[0].name.endswith("mem::swap") and me in [unref(x) for x in e[1]]] + [e for e in es if e[0].name.endswith("mem::replace") and unref(e[1][0]) == me and has(e[1][1], lambda x: call(x, w))]
        st = [x for x in deref_stores(C, b) if unref(x[2]) == me and has(x[3], lambda y: call(y, w))]
        ok = bool(st) or any(ev_before(F, ws[0][3], e[3]) and not any(cj for cj in e[2]) for e in back) if ws else False
        R.check(ok, "p-back", FS, f"{n} puts the span back with it")


# ---------------------------------------------------------------- coordinator
def openers(R, F):
    C = Cond(F, no_inline=r"grpc_append_trace_context$|SpanExt>::|::new$")
    n = 0
    for b in F.bodies("coordinator"):
        if "mock" in b.relfile or "::tests" in b.id:
            continue
        cs = [c for c in b.calls() if (c.res or c.fid or "").endswith("grpc_append_trace_context")]
        for c in cs:
            n += 1
            a = C.T.args(c)
            src = a[0]
            flds = [x for x in walk(src) if x[0] in ("fld",) and x[1] == "span_ctx" or x[0] == "param"]
            R.check(has(src, lambda x: x[0] == "fld" and x[1] == "span_ctx") or "span_ctx" in names_in(F, b, src), "o-ctx", c.where, "the context of the reader is sent", show(src)[:100])
            rq = [x for x in walk(a[1]) if call(x, "Request::new")]
            sent = [k for k in b.calls() if re.search(r"TskvServiceClient(<.*>)?::\w+$", k.fid or k.name) and not re.search(r"::(new|with_\w+|max_\w+|send_\w+|accept_\w+)$", k.name)]
            same = [k for k in sent if rq and any(canon(x) == canon(y) for x in rq for y in walk(C.T.arg(k, 1)))]
            R.check(len(sent) >= 1 and len(same) == len(sent), "o-req", c.where, "with the request that is made", str([show(C.T.arg(k, 1))[:60] for k in sent]))
            R.check(all(precedes_cfg(b, c.bb, k.bb) for k in sent), "o-before", c.where, "before it is made")
            propagates(R, F, b, lambda k: k.bb == c.bb and k.name == c.name, "o-fail", "appending the context")
            sp = [k for k in b.calls() if (k.res or k.fid or "").endswith("from_context")]
            for k in sp:
                x = C.T.arg(k, 1)
                R.check(canon(unok(x)) == canon(unok(src)), "o-local", k.where, "the local reader's span is under the same context", show(x)[:100])
            R.check(bool(sp), "o-local", c.where, "the local reader has a span of its own")
    R.floor(n, 2, "places that send a trace context")
    for b in F.bodies("coordinator", pat=r"::(TemporaryTableScanOpener|TemporaryTagScanOpener)::new$"):
        rs = [t for cd, t in C.ret_cases(b) if cd]
        ok = len(rs) == 1 and rs[0][0] == "agg" and getf(rs[0], "span_ctx") is not None
        if R.check(ok, "o-new", b.relfile, "the reader keeps a context", str([show(t)[:80] for t in rs])):
            v = unok(getf(rs[0], "span_ctx"))
            R.check(v[0] == "param" and v in [P(b.id, i) for i in range(1, b.argc + 1)] and "SpanContext" in b.lty(v[2]), "o-new", b.relfile, "the one it is given", show(v)[:80])


def names_in(F, b, t):
    """names of the captured variables a term stands for"""
    out = set()
    for x in walk(t):
        if x[0] == "fld" and x[2][0] == "param":
            out.add(x[1])
    return out


def precedes_cfg(b, x, y):
    """y cannot be reached from the entry without x"""
    seen, st = set(), [0]
    while st:
        n = st.pop()
        if n in seen or n == x:
            continue
        if n == y:
            return False
        seen.add(n)
        st.extend(b.succs(n))
    return True


# ---------------------------------------------------------------- reporter
def reporter(R, F, C):
    fn = "common/trace/src/global_tracing.rs"
    b = R.body("<trace::global_tracing::FileReporter as minitrace::collector::global_collector::Reporter>::report")
    sp = P(b.id, 2)
    es = call_events(C, b, lambda c: bool(re.search(r"(?:io::write::|io::)Write(<.*>)?>?::\w+$", c.name)) and not c.name.endswith("flush"))
    ok = [e for e in es if e[0].name.endswith("write_all") or e[0].name.endswith("write_fmt")]
    if R.check(len(ok) == 1 and len(es) == 1, "w-one", fn, "each span is written whole", str([e[0].name for e in es])):
        c, a, cd, ch = ok[0]
        R.check(unref(a[0]) == ("fld", "file", P(b.id, 1)), "w-file", c.where, "to the reporter's file", show(a[0])[:80])
        R.check(has(a[1], lambda x: x[0] == "ok" and mentions(x, sp) or x[0] == "idx" and x[1] == sp), "w-span", c.where, "the span itself", show(a[1])[:100])
        R.check(all(l[0][0] == "disc" and mentions(l[0], sp) for l in lits(cd)), "w-every", c.where, "every span is written", show_dnf(cd)[:100])
        if len(ch) == 1 and C.loop_of(b, c.bb):
            ex = C.loop_exits(b, c.bb)
            R.check(len({u for u, _, _ in ex}) == 1, "w-every", c.where, "up to the last", str(ex)[:100])
    b = R.body("trace::global_tracing::FileReporter::new")
    es = call_events(C, b, lambda c: bool(re.search(r"OpenOptions::\w+$|File::\w+$", c.fid or c.name)))
    ns = {e[0].name.rsplit("::", 1)[1]: e for e in es}
    R.check("open" in ns and "append" in ns and "truncate" not in ns and "create" in ns and konst(ns["append"][1][1]) in (1, True) and not any(cj for e in es for cj in e[2]), "w-append", fn, "an existing trace file is added to", str(sorted(ns)))
