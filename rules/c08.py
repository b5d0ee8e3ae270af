"""Configuration check."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf
from va.terms import walk, show
from va.lib import has
from va.dom import project, merge, StrSet

PKGS = ["config"]
LEVEL = "other"
RULE = """For every implementation of the section-check trait found in the type-checked program: (1) the config check
command consults the section's field of the loaded configuration on every path after a successful load and merges the
findings; (2) a section returns nothing only under the condition that its collected findings are empty; (3) nested
sections are consulted and merged; (4) the value set of each validated field under which a finding is recorded, computed as
an interval / finite set from the branch conditions dominating the recording call, equals the documented set; (5) findings
keep their severity through merging and every error (and, on request, warning) is printed."""

TRAIT = "config::check::CheckConfig"
RES = "config::check::CheckConfigResult"
MB = 1024 * 1024
# section type -> {(field, severity): value set that must be flagged}
TABLE = {
    "LogConfig": {("path", "warn"): StrSet([""])},
    "CacheConfig": {("max_buffer_size", "warn"): [(0, MB)], ("partition", "warn"): [(1025, None)]},
    "DeploymentConfig": {("mode", "error"): StrSet(["query_tskv", "tskv", "query", "singleton"], True),
                         ("cpu", "warn"): [(0, 1)], ("memory", "warn"): [(0, 1)]},
    "GlobalConfig": {("cluster_name", "warn"): StrSet([""])},
    "MetaConfig": {("report_time_interval", "error"): [(0, 1)]},
    "QueryConfig": {("max_server_connections", "warn"): [(0, 16)], ("query_sql_limit", "warn"): [(0, 64)],
                    ("write_sql_limit", "warn"): [(0, 64)], ("read_timeout", "warn"): [(0, 10**7)],
                    ("write_timeout", "warn"): [(0, 10**7)], ("stream_executor_cpu", "warn"): [(1025, None)],
                    ("stream_trigger_cpu", "warn"): [(1025, None)], ("sql_record_timeout", "warn"): [(0, 10**9)]},
    "TLSConfig": {("certificate", "error"): StrSet([""]), ("private_key", "error"): StrSet([""])},
    "StorageConfig": {("path", "error"): StrSet([""]), ("max_summary_size", "warn"): [(0, 1024)],
                      ("base_file_size", "warn"): [(0, MB)], ("flush_req_channel_cap", "warn"): [(0, 16)],
                      ("max_level", "warn"): [(0, 4), (5, None)], ("compact_trigger_cold_duration", "warn"): [(0, 10**9)],
                      ("max_compact_size", "warn"): [(0, MB)],
                      ("tsm_meta_compress", "error"): StrSet(["zstd", "snappy", "null"], True)},
    "WalConfig": {("path", "error"): StrSet([""]), ("wal_req_channel_cap", "warn"): [(0, 16)],
                  ("compress", "error"): StrSet(["zstd", "snappy", "gzip", "bzip", "zlib"], True)},
}
# address resolution failures: section -> [(port field or None, severity)]
RESOLVE = {"MetaConfig": ["service_addr"],
           "ServiceConfig": ["http_listen_port", "grpc_listen_port", "flight_rpc_listen_port", "tcp_listen_port"]}


def run(R):
    F = R.F
    C = Cond(F, no_inline=r"CheckConfigResult::add_|CheckConfigResult as core::default::Default>::default|CheckConfig>::check$|Config::new$")
    C2 = Cond(F)
    impls = {}
    for im in F.impls:
        if im["trait"] == TRAIT and im["crate"] == "config":
            ty = F.crates["config"].tys[im["self"]]
            impls[ty] = f"<{ty.replace('config::', 'config::', 1)} as {TRAIT}>::check"
    impls = {}
    for b in F.bodies("config", r"^<config::.* as config::check::CheckConfig>::check$"):
        impls[re.match(r"^<(.*) as ", b.id).group(1)] = b
    R.floor(len(impls), 12, "section checks")

    # (1) dispatch
    root = R.body("config::tskv::check_config")
    cfg = F.items["config::tskv::Config"]
    fields = {f[0]: F.crates["config"].tys[f[1]] for f in cfg["variants"][0]["fields"]}
    R.floor(len(fields), 12, "configuration sections")
    is_check = lambda c: bool(re.search(r"as config::check::CheckConfig>::check$", c.name))
    disp = C.sites(root, is_check)
    merges = C.sites(root, lambda c: re.search(r"CheckConfigResult::(add_|warn|error)", c.name) or (
        c.args and c.body.crate.name == "config" and re.search(r"Vec::(append|extend|push)$|Extend::extend$", c.fid or "")))
    merged = set()
    for c, a, cd in merges:
        for x in a:
            for t in walk(x):
                merged.add(t)
    for fname, ty in fields.items():
        base = ty.split("<")[0]
        if base not in impls:
            continue
        name = impls[base].id
        got = [(c, a, cd) for (c, a, cd) in disp if c.name == name and a and a[0][0] == "fld" and a[0][1] == fname]
        if not R.check(bool(got), f"dispatch:{fname}", root.relfile, f"the config check consults section {fname}"):
            continue
        c, a, cd = got[0]
        lits = [l for cj in cd for l in cj]
        only_load = all(l[0][0] == "disc" and any(t[0] == "call" and t[1].endswith("Config::new") for t in walk(l[0])) for l in lits)
        R.check(only_load, f"dispatch-cond:{fname}", c.where, f"section {fname} is consulted whenever the file loads", f"consulted only if {show_dnf(cd)[:200]}")
        hit = any(t[0] == "call" and t[1] == name for t in merged)
        R.check(hit, f"merge:{fname}", c.where, f"findings of section {fname} are merged into the report")

    # (2) result iff nonempty
    for ty, b in sorted(impls.items()):
        sec = ty.rsplit("::", 1)[-1]
        cases = C.ret_cases(b)
        adds = C.sites(b, lambda c: re.search(r"CheckConfigResult::add_(warn|error|all)$", c.name))
        nn = 0
        for cd, t in cases:
            none = t[0] == "agg" and t[1].endswith("::None")
            some = t[0] == "agg" and t[1].endswith("::Some")
            then = t[0] == "call" and re.search(r"bool::(then_some|then)$", t[1])
            if none:
                nn += 1
                bad = [cj for cj in cd if not {x for x in ("warn", "error") if any(l[0][0] == "bin" and l[0][1] == "Eq" and l[2] and l[1] == frozenset(["1"])
                    and has(l[0], lambda y: y[0] == "call" and y[1].endswith("::len") and y[2][0][0] == "fld" and y[2][0][1] == x) and konst(l[0][3]) == 0
                    and not has(l[0], lambda y: y[0] == "bin" and y[1] not in ("Eq", "Add")) for l in cj) or any(
                    l[0][0] == "call" and l[0][1].endswith("::is_empty") and l[0][2][0][0] == "fld" and l[0][2][0][1] == x and l[2] and l[1] == frozenset(["1"]) for l in cj)} == {"warn", "error"}]
                R.check(not bad or not adds, f"lost:{sec}", b.relfile, f"{sec}: nothing is returned only when no finding was collected",
                        f"{sec}: findings are dropped when {show_dnf(frozenset(bad))[:160]}")
            elif some:
                R.ok(f"some:{sec}", b.relfile, f"{sec}: findings returned")
            elif then:
                lit = C.norm(t[2][0], ["1"], False)
                bad = [cj for cj in lit if len([l for l in cj if l[0][0] == "call" and l[0][1].endswith("::is_empty") and l[2]]) < 2]
                R.check(not bad or not adds, f"lost:{sec}", b.relfile, f"{sec}: nothing is returned only when no finding was collected")
        R.check(any(not (t[0] == "agg" and t[1].endswith("::None")) for _, t in cases), f"some:{sec}", b.relfile, f"{sec}: findings are returned")

        # (3) nested sections
        it = F.items.get(ty)
        for f in (it["variants"][0]["fields"] if it else []):
            fty = F.crates["config"].tys[f[1]]
            for nty, nb in impls.items():
                if re.search(r"\b" + re.escape(nty) + r"\b", fty):
                    inner = [x for x in C.sites(b, lambda c: c.name == nb.id)]
                    hit = [c for c, a, cd in inner if a and any(t[0] == "fld" and t[1] == f[0] for t in walk(a[0]))]
                    R.check(bool(hit), f"nested:{sec}.{f[0]}", b.relfile, f"{sec} consults its nested section {f[0]}")
                    m = any(t[0] == "call" and t[1] == nb.id for c, a, cd in adds for x in a[1:] for t in walk(x))
                    R.check(m, f"nested-merge:{sec}.{f[0]}", b.relfile, f"{sec} merges the findings of {f[0]}")

        # (4) flagged value sets
        self_ = ("param", b.id, 1)
        per = {}
        for c, a, cd in adds:
            m = re.search(r"add_(warn|error)$", c.name)
            if not m:
                continue
            for f in (it["variants"][0]["fields"] if it else []):
                ft = ("fld", f[0], self_)
                pr = project(cd, ft)
                if any(s is not None for _, s in pr):
                    per.setdefault((f[0], m.group(1)), []).extend(pr)
        for (fld, sev), want in TABLE.get(sec, {}).items():
            got = merge(per.get((fld, sev), []))
            free = got.get(frozenset())
            kind = "str" if isinstance(want, StrSet) else "int"
            R.check(free is not None and free != "any" and free[0] == kind and free[1] == want, f"flag:{sec}.{fld}", b.relfile,
                    f"{sec}.{fld} is reported as {sev} exactly for {want}",
                    f"{sec}.{fld} must be reported as {sev} exactly for {want}, but is for {[ (v[1] if v!='any' else v, [show(l[0])[:60] for l in k]) for k, v in got.items()] or 'no value'}")
        for fld in RESOLVE.get(sec, []):
            hit = None
            for c, a, cd in adds:
                if not c.name.endswith("add_error"):
                    continue
                for cj in cd:
                    for (t, vs, pos) in cj:
                        if t[0] == "disc" and t[1][0] == "call" and t[1][1].endswith("to_socket_addrs") and (("1" in vs) == pos):
                            if any(x[0] == "fld" and x[1] == fld for x in walk(t[1])):
                                others = [l for l in cj if l[0] != t and not (l[0][0] == "disc" and any(x[0] == "fld" and x[1] == fld for x in walk(l[0])))]
                                if not others:
                                    hit = c
            R.check(hit is not None, f"resolve:{sec}.{fld}", b.relfile, f"{sec}.{fld}: an address that cannot be resolved is reported as an error")
    R.floor(sum(len(v) for v in TABLE.values()), 25, "validated fields")

    # (5) report object
    for kind in ("warn", "error"):
        b = R.body(f"{RES}::add_{kind}")
        ps = [(c, a) for c, a, cd in C2.sites(b, lambda c: re.search(r"Vec::(push|insert)$|Extend::extend$", c.fid or "")) if cd == TRUE]
        R.check(any(a[0] == ("fld", kind, ("param", b.id, 1)) for c, a in ps), f"report:add_{kind}", b.relfile, f"a {kind} finding is stored among the {kind}s")
        m = R.body(f"{RES}::add_all")
        ap = [(c, a) for c, a, cd in C2.sites(m, lambda c: re.search(r"Vec::(append|extend_from_slice|extend)$|Extend::extend$|Vec::push$", c.fid or "")) if all(not l for l in cd) or c.fid.endswith("push")]
        R.check(any(a[0] == ("fld", kind, ("param", m.id, 1)) and any(t == ("fld", kind, ("param", m.id, 2)) for t in walk(a[1])) for c, a in ap),
                f"report:merge_{kind}", m.relfile, f"merging keeps the {kind}s of both sides")
    i = R.body(f"{RES}::introspect")
    for c in i.calls():
        R.check(not re.search(r"::(clear|truncate|drain|dedup\w*|retain|pop|remove|split_off)$", c.fid or ""), f"report:introspect", c.where, "ordering the report drops nothing")
    d = R.body(f"<{RES} as core::fmt::Display>::fmt")
    wr = C2.sites(d, lambda c: re.search(r"Formatter::(write_fmt|write_str)$|write_fmt$", c.fid or ""))
    for kind in ("error", "warn"):
        el = ("ok", ("fld", kind, ("param", d.id, 1)))
        for part in ("config", "item", "message"):
            hits = [(c, cd) for c, a, cd in wr if any(t == ("fld", part, el) for x in a for t in walk(x))]
            R.check(bool(hits), f"print:{kind}.{part}", d.relfile, f"every {kind} is printed with its {part}")
            for c, cd in hits[:1]:
                okc = True
                for cj in cd:
                    for (t, vs, pos) in cj:
                        if t[0] == "disc" and t[1][0] in ("call", "fld"):
                            continue          # loop / write-result conditions
                        if t == ("fld", "show_warnings", ("param", d.id, 1)) and kind == "warn":
                            continue
                        if kind == "error" and t[0] == "call" and t[1].endswith("is_empty"):
                            continue
                        okc = okc and any(x[0] == "call" and x[1].endswith("is_empty") for x in walk(t))
                R.check(okc, f"print-cond:{kind}.{part}", c.where, f"printing a {kind} depends on nothing but the requested verbosity", f"printed only if {show_dnf(cd)[:200]}")
