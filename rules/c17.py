"""Log lines and spans: what the settings ask for is written, where they say."""
import glob
import os
import re
from va.cond import Cond, TRUE
from va.terms import walk, show
from va.lib import *

PKGS = ["trace"]
CRATES = ["trace"]
RULE = """(1) Each crate of the workspace that can log (all but four whose manifests name no trace or tracing; crates and binaries are read from the
manifests) is covered by a target of targets_filter whose level is the one given, unconditionally, and no target inside such a crate has another
level; tokio and runtime get TRACE exactly when tokio tracing is on. (2) init_global_logging: the level is the setting's, WARN when it is
not a level; each rotation name gives its own rotation and any other none (truth table over the names); path and prefix are the ones given; old files are limited exactly
when a count is set, to it. The subscriber that is installed, on every path, has the layer that writes to standard error, the one that writes to
the file, and the filter; the guard of the file's writer is kept in a static. (3) init_global_tracing: the file is the reporter when its path is set,
the collector when its endpoint is set, each with the three limits from their own settings; the file is opened for appending; every span of a report is written."""
GL = "trace::global_logging::"
GT = "trace::global_tracing::"
ROT = {"daily": "DAILY", "hourly": "HOURLY", "minutely": "MINUTELY", "never": "NEVER", "\0": "NEVER"}


def crates():
    """names under which the workspace's own crates log"""
    out = set()
    root = open("/repo/Cargo.toml").read()
    m = re.search(r"^members\s*=\s*\[(.*?)\]", root, re.S | re.M)
    for d in re.findall(r'"([^"]+)"', m.group(1)):
        for p in glob.glob(os.path.join("/repo", d, "Cargo.toml")):
            s = open(p).read()
            can = re.search(r"^(trace|tracing)\s*[=.]", s, re.M)
            name = re.search(r'^name\s*=\s*"([^"]+)"', s, re.M).group(1)
            if not can and name in ("cache", "derive_macros", "derive_traits", "version"):
                continue        # has no means to log
            bins = re.findall(r"^\[\[bin\]\]\s*\nname\s*=\s*\"([^\"]+)\"", s, re.M)
            if os.path.exists(os.path.join("/repo", d, "src", "lib.rs")):
                out.add(name)
            elif not bins:
                out.add(name)
            out |= set(bins) - {"cnosdb-cli"}
    return {n.replace("-", "_") for n in out}


def text(t):
    m = re.match(r'^"(.*)"$', show(t))
    return m.group(1) if m else None


def pairs(t):
    """(name, level) of every target named in a term"""
    for x in walk(t):
        if x[0] == "agg" and len(x[2]) == 2 and text(x[2][0]) is not None and x[1] in ("()", "tuple", "(){}", ""):
            yield text(x[2][0]), x[2][1]
        elif x[0] == "agg" and len(x[2]) == 2 and text(x[2][0]) is not None:
            yield text(x[2][0]), x[2][1]


def field(t, f):
    return has(t, lambda x: x[0] == "fld" and x[1] == f)


def run(R):
    F = R.F
    C = Cond(F)
    targets(R, F, C)
    logging(R, F, C)
    spans(R, F, C)


def targets(R, F, C):
    b = R.body(GL + "targets_filter")
    lvl, on = ("param", b.id, 1), ("param", b.id, 2)
    got = []
    for c, a, cd in own_sites(C, b, lambda c: bool(re.search(r"Targets::(with_targets|with_target)$", c.fid or c.name))):
        if (c.fid or c.name).endswith("with_target"):
            t, l = a[1], a[2]
            names = [text(t)] if text(t) is not None else [text(x) for x in walk(t) if text(x) is not None]
            got += [(n, l, cd, c.where) for n in names]
        else:
            got += [(n, l, cd, c.where) for n, l in pairs(a[1])]
    R.check(bool(got), "targets", b.relfile, "the filter names its targets")
    ws = crates()
    for w in sorted(ws):
        mine = [g for g in got if w.startswith(g[0])]
        R.check(any(g[1] == lvl and C.norm(on, ["0"], True) != g[2] and g[2] == TRUE for g in mine), f"targets:{w}", b.relfile, f"lines of {w} are kept from the given level on", f"no target covers {w} with the given level on every path")
    for n, l, cd, where in got:
        if any(n == w or n.startswith(w + "::") or w.startswith(n) for w in ws):
            R.check(l == lvl, f"targets:{n}:level", where, f"{n}: the given level", show(l)[:80])
        elif n in ("tokio", "runtime"):
            R.check(show(l).endswith("TRACE") and all(any(t == on and (("1" in v) == p or ("0" in v) != p) for t, v, p in cj) for cj in cd), f"targets:{n}", where, f"{n}: everything, when tokio tracing is on", f"{show(l)[:40]}")
    R.check({"tokio", "runtime"} <= {g[0] for g in got}, "targets:tokio", b.relfile, "tokio's own events are let through when asked for")


def whole(cds):
    """installed whether tokio tracing is on or off (steps that panic when they fail left out)"""
    def sat(cj, v, w):
        for t, vs, p in cj:
            if t[0] == "disc" and t[1][0] == "call" and re.search(r"Builder::build$|::parse$|from_str$", t[1][1]) and ("0" in vs) == p:
                continue
            if not (t[0] == "disc" and (field(t, "tokio_trace") and (v in vs) == p or field(t, "max_file_count") and not field(t, "tokio_trace") and (w in vs) == p)):
                return False
        return True
    return all(any(sat(cj, v, w) for cd in cds for cj in cd) for v in "01" for w in "01")


def holds(cd, field_, s):
    """does cd hold when the setting is s? None when it asks something else"""
    for cj in cd:
        ok = True
        for t, vs, p in cj:
            if t[0] == "bin" and t[1] in ("Eq", "Ne") and (field(t[2], field_) or field(t[3], field_)):
                lit = text(t[3]) if field(t[2], field_) else text(t[2])
                if lit is None:
                    return None
                v = "1" if (lit == s) == (t[1] == "Eq") else "0"
                if (v in vs) != p:
                    ok = False
                    break
            else:
                return None
        if ok:
            return True
    return False


def logging(R, F, C):
    b = R.body(GL + "init_global_logging")
    cfg = ("param", b.id, 1)
    allb = [F.get(i) for i in sorted(F.ids()) if i.startswith(GL) and "::tests::" not in i]

    def the(rx, n=1):
        out = [(c, a, cd, x) for x in allb for c, a, cd in own_sites(C, x, lambda c: bool(re.search(rx, c.fid or c.name))) if c.body.id == x.id] if False else []
        for x in allb:
            for c in x.calls():
                if re.search(rx, c.fid or c.name):
                    out.append((c, x))
        return out
    sites = own_sites(C, b, lambda c: True)

    def of(rx):
        return [(c, a, cd) for c, a, cd in sites if re.search(rx, c.fid or c.name)]
    # level and tokio
    tf = the(r"global_logging::targets_filter$")
    R.check(len(tf) == 1, "log:filter", b.relfile, "one filter", str(len(tf)))
    for c, x in tf:
        at = (c.bb, len(x.blocks[c.bb]["s"]))
        cs = C.cases(x, c.args[0], at)
        own = [t for _, t in cs if field(t, "level")]
        rest = [t for _, t in cs if not field(t, "level")]
        R.check(bool(own) and all(t[0] == "ok" and has(t, lambda y: y[0] == "call" and re.search(r"from_str$|::parse$", y[1])) for t in own), "log:level", c.where, "the level is the one set", str([show(t)[:80] for _, t in cs]))
        R.check(all(show(t).endswith("WARN") for t in rest) and len(rest) <= 1, "log:level:else", c.where, "warnings and errors when the setting is no level", str([show(t)[:60] for t in rest]))
        for cd, t in cs:
            if t in rest:
                R.check(all(any(y[0] == "disc" and field(y, "level") and ("1" in v) == p or y[0] == "disc" and field(y, "level") and ("0" in v) != p for y, v, p in cj) for cj in cd), "log:level:when", c.where, "the fallback is for what is no level")
        on = [(cd, t) for cd, t in C.cases(x, c.args[1], at)]
        ok = True
        for cd, t in on:
            xs = [y for y in walk(t) if y[0] == "fld" and y[1] == "tokio_trace"]
            up, core = True, t
            while core[0] == "un" and core[1] == "Not":
                up, core = not up, core[2]
            if xs and core[0] == "call" and core[1].endswith("::is_some" if up else "::is_none"):
                continue
            v = show(t)
            ok = ok and v in ("true", "false") and all(any(y[0] == "disc" and field(y, "tokio_trace") and (("1" if v == "true" else "0") in w) == p for y, w, p in cj) for cj in cd)
        R.check(ok and bool(on), "log:tokio", c.where, "tokio tracing is on exactly when it is configured", str([show(t)[:60] for _, t in on]))
    # the file
    rot = the(r"rolling::builder::Builder::rotation$|RollingFileAppender::new$")
    R.check(len(rot) == 1, "log:rotation", b.relfile, "one rotation", str(len(rot)))
    for c, x in rot:
        cs = C.cases(x, c.args[1], (c.bb, len(x.blocks[c.bb]["s"])))
        for s, want in ROT.items():
            hit = {show(t).rsplit("::", 1)[-1] for cd, t in cs if holds(cd, "file_rotation", s)}
            R.check(hit == {want}, f"log:rotation:{s if s != chr(0) else 'other'}", c.where, f"rotation {s if s != chr(0) else 'of any other name'}: {want}", str(sorted(hit)))
    for rx, name, arg, say in ((r"Builder::filename_prefix$", "prefix", lambda t: t == ("param", b.id, 2), "the prefix given"), (r"rolling::builder::Builder::build$", "path", lambda t: field(t, "path") and mentions(t, cfg), "the path set")):
        ss = of(rx)
        R.check(len(ss) == 1 and arg(ss[0][1][1]), f"log:{name}", ss[0][0].where if ss else b.relfile, f"the files have {say}", str([show(s[1][1])[:80] for s in ss]))
    mx = of(r"Builder::max_log_files$")
    R.check(bool(mx), "log:max", b.relfile, "old files are removed when a count is set")
    for c, a, cd in mx:
        d = {(show(t)[:80], tuple(sorted(v)), p) for cj in cd for t, v, p in cj}
        only = all(len(cj) == 1 and all(t[0] == "disc" and field(t, "max_file_count") and (("1" in v) == p) for t, v, p in cj) for cj in cd)
        R.check(only and a[1][0] == "ok" and field(a[1], "max_file_count"), "log:max:when", c.where, "exactly then, and to that count", f"{show(a[1])[:60]} {sorted(d)[:2]}")
    bl = of(r"rolling::builder::Builder::build$")
    for c, a, cd in bl:
        if mx:
            R.check(has(a[0], lambda y: y[0] == "call" and y[1].endswith("max_log_files")), "log:max:used", c.where, "the count is used")
        R.check(has(a[0], lambda y: y[0] == "call" and y[1].endswith("::rotation")), "log:rotation:used", c.where, "the rotation is used")
    # the subscriber
    ini = of(r"SubscriberInitExt::(init|try_init)$|set_global_default$")
    R.check(bool(ini) and whole([cd for _, _, cd in ini]), "log:init", b.relfile, "a subscriber is installed on every path")
    err = lambda y: y[0] == "call" and y[1].endswith("with_writer") and "stderr" in show(y[2][-1])
    fil = lambda y: y[0] == "call" and y[1].endswith("with_writer") and has(y[2][-1], lambda z: z[0] == "call" and z[1].endswith("non_blocking")) and has(y[2][-1], lambda z: z[0] == "call" and z[1].endswith("Builder::build"))
    flt = lambda y: y[0] == "call" and (y[1].endswith("targets_filter") or "filter::targets::Targets" in y[1])
    for c, a, cd in ini:
        for p, n in ((err, "standard error"), (fil, "the log file"), (flt, "the filter")):
            R.check(has(a[0], p), f"log:layer:{n}", c.where, f"the subscriber has {n}", f"the subscriber that is installed here lacks {n}")
    on = [cj for c, a, cd in ini if has(a[0], lambda y: y[0] == "call" and "console_subscriber" in y[1]) for cj in cd]
    R.check(bool(on) and all(any(t[0] == "disc" and field(t, "tokio_trace") and ("1" in v) == p for t, v, p in cj) for cj in on), "log:console", b.relfile, "the console is served when tokio tracing is configured")
    gd = [(c, a) for c, a, cd in of(r"OnceLock(<.*>)?::(get_or_init|set|try_insert)$|mem::forget$|Box(<.*>)?::leak$") if any(has(x, lambda y: y[0] == "call" and y[1].endswith("non_blocking")) for x in a)]
    put = [(c, a) for c, a, cd in of(r"Vec(<.*>)?::(push|insert|extend)$") if has(a[-1], lambda y: y[0] == "call" and y[1].endswith("non_blocking"))]
    if put:
        gd += [(c, [x for x in a if closure_id(x) is None]) for c, a, cd in of(r"OnceLock(<.*>)?::(get_or_init|set|try_insert)$|mem::forget$|Box(<.*>)?::leak$")]
    R.check(bool(gd), "log:guard", b.relfile, "the guard of the file's writer outlives the set-up", "the writer's guard is dropped: lines no longer reach the file")
    for c, a in gd:
        for x in a:
            cid = closure_id(x)
            if cid and F.get(cid) is not None:
                R.check(any(has(t, lambda y: y[0] == "call" and y[1].endswith("non_blocking")) for _, t in C.ret_cases(F.get(cid))), "log:guard:kept", c.where, "the guard is what is kept")


def counted_whole(t, arg):
    """0..len of it"""
    return t[0] == "agg" and len(t[2]) >= 2 and show(t[2][0]).startswith("0") and t[2][1][0] in ("call", "un", "len") and not has(t[2][1], lambda y: y[0] == "bin") and mentions(t[2][1], arg)


def spans(R, F, C):
    b = R.body(GT + "init_global_tracing")
    ss = own_sites(C, b, lambda c: (c.fid or c.name).endswith("set_reporter"))
    seen = set()
    for c, a, cd in ss:
        kind = next((k for k in ("trace_log_path", "otlp_endpoint") if field(a[0], k)), None)
        if not R.check(kind is not None, "span:kind", c.where, "a reporter writes where a setting says", show(a[0])[:120]):
            continue
        seen.add(kind)
        R.check(all(any(t[0] == "disc" and field(t, kind) and ("1" in v) == p for t, v, p in cj) and (len(cj) == 1 or kind == "trace_log_path") for cj in cd), f"span:{kind}:when", c.where, f"{kind}: exactly when it is set")
        for f in ("batch_report_interval", "batch_report_max_spans", "max_spans_per_trace"):
            xs = [y for y in walk(a[1]) if y[0] == "call" and y[1].endswith("Config::" + f)]
            R.check(bool(xs) and all(y[2][1][0] == "fld" and y[2][1][1] == f and mentions(y[2][1], ("param", b.id, 1)) for y in xs), f"span:{kind}:{f}", c.where, f"{kind}: {f} is the one set", str([show(y[2][1])[:60] for y in xs]))
        if kind == "trace_log_path":
            op = [y for y in walk(a[0]) if y[0] == "call" and re.search(r"OpenOptions::open$", y[1])]
            opts = {y[1].rsplit("::", 1)[1]: show(y[2][1]) for x in op for y in walk(x) if y[0] == "call" and "OpenOptions::" in y[1] and len(y[2]) == 2 and not y[1].endswith("::open")}
            R.check(bool(op) and opts.get("append") == "true" and (opts.get("create") == "true") and opts.get("truncate", "false") == "false", "span:file", c.where, "the file is created, and added to", str(opts))
        else:
            ep = [y for y in walk(a[0]) if y[0] == "call" and y[1].endswith("with_endpoint")]
            R.check(bool(ep) and all(field(y[2][1], kind) for y in ep), "span:endpoint", c.where, "spans are sent to the endpoint set")
            R.check(has(a[0], lambda y: y == ("param", b.id, 2)), "span:service", c.where, "spans bear the service's name")
    R.check(seen == {"trace_log_path", "otlp_endpoint"}, "span:both", b.relfile, "both destinations can be set", str(sorted(seen)))
    fid = "<trace::global_tracing::FileReporter as minitrace::collector::global_collector::Reporter>::report"
    b = R.body(fid)
    ws = own_sites(C, b, lambda c: bool(re.search(r"Write::(write_all|write_fmt)$", c.fid or c.name)))
    R.check(bool(ws), "span:write", b.relfile, "spans are written")
    arg = ("param", b.id, 2)
    for c, a, cd in ws:
        R.check(any(mentions(x, arg) for x in a[1:]), "span:write:it", c.where, "the span itself")
        R.check(all(all(t == ("disc", arg) or t[0] == "disc" and counted_whole(t[1], arg) for t, v, p in cj) for cj in cd), "span:write:each", c.where, "every span of the report")
        if c.body.id == b.id:
            for u, d, ecd in C.loop_exits(b, c.bb):
                t = b.blocks[u]["t"]
                R.check(t[0] == "switch" and mentions(C.T.op(b, t[1], (u, len(b.blocks[u]["s"]))), arg) and not has(C.T.op(b, t[1], (u, len(b.blocks[u]["s"]))), lambda y: y[0] == "call" and "write" in y[1]), "span:write:all", c.where, "up to the last")
    b = R.body(GT + "finalize_global_tracing")
    R.check(bool(own_sites(C, b, lambda c: (c.fid or c.name).endswith("minitrace::flush") or (c.fid or c.name).endswith("::flush"))), "span:flush", b.relfile, "what is left is written at the end")
