#!/usr/bin/env python3
"""Generate the analysis workspace /verif/.ws from /repo's current tree.

Every member gets a generated manifest whose [lib] path points into /repo, so the
compiler reads /repo's own sources.  Dev-dependencies, build scripts, benches,
bins and tests are dropped.  Third-party crates that are not in the offline
registry are replaced by signature-only stubs in /verif/stubs.
Files are only rewritten when their content changes (keeps cargo incremental).
"""
import os, re, sys, tomllib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
WS = os.path.join(VERIF, ".ws")
STUBS = os.path.join(VERIF, "stubs")

# members analysed (dependency order is cargo's business)
SKIP = {"e2e_test", "client"}
# members for which every third-party dependency is present or stubbed
MEMBERS = ["common/protos", "common/metrics", "common/trace", "common/utils", "common/http_protocol",
           "common/limiter_bucket", "common/cache", "common/derive_macros", "common/derive_traits",
           "common/version", "config",
           "common/models", "common/memory_pool", "common/protocol_parser", "replication",
           "meta", "tskv", "coordinator"]


# features that the full dependency graph switches on through crates that are stubbed here
UNIFIED = {"uuid": ["v4"]}


# optional dependencies behind off-by-default features that the offline registry lacks
ABSENT = {"rio", "tokio-uring"}


def write(path, text):
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def tv(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{tk(k)} = {tv(x)}" for k, x in v.items()) + " }"
    raise ValueError(v)


def tk(k):
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else tv(k)


def members():
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    only = os.environ.get("VP_MEMBERS")
    only = only.split(",") if only else MEMBERS
    ms = [m for m in root["workspace"]["members"] if m in only]
    return root, ms


def closure(pkgs):
    """package names of pkgs and their workspace dependencies"""
    ns = crate_members()
    dirs = {v: k for k, v in ns.items()}
    out, st = [], list(pkgs)
    while st:
        p = st.pop()
        if p in out or p not in dirs:
            continue
        out.append(p)
        t = tomllib.load(open(f"{REPO}/{dirs[p]}/Cargo.toml", "rb"))
        for k, v in t.get("dependencies", {}).items():
            if isinstance(v, dict) and "path" in v:
                q = os.path.normpath(os.path.join(dirs[p], v["path"]))
                if q in ns:
                    st.append(ns[q])
    return out


def crate_members():
    """member dir -> package name"""
    _, ms = members()
    r = {}
    for m in ms:
        t = tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))
        r[m] = t["package"]["name"]
    return r


def main():
    root, ms = members()
    stubs = {d: os.path.join(STUBS, d) for d in os.listdir(STUBS) if os.path.exists(f"{STUBS}/{d}/Cargo.toml")}
    out = ["[workspace]", 'resolver = "2"', "members = " + tv(ms + ["vhub"]), ""]
    out += ["[workspace.package]"] + [f"{k} = {tv(v)}" for k, v in root["workspace"]["package"].items()] + [""]
    out += ["[workspace.dependencies]"]
    wd = root["workspace"]["dependencies"]
    for k, v in wd.items():
        if k in stubs:
            v = {"path": stubs[k]}
        elif k in UNIFIED:
            v = dict(v) if isinstance(v, dict) else {"version": v}
            v["features"] = sorted(set(v.get("features", [])) | set(UNIFIED[k]))
        out.append(f"{k} = {tv(v)}")
    out += ["", "[profile.dev]", "debug = 0", "incremental = true", "overflow-checks = true", ""]
    write(f"{WS}/Cargo.toml", "\n".join(out))
    dirs = {os.path.normpath(m): m for m in ms}
    for m in ms:
        t = tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))
        p = t["package"]
        o = ["[package]", f'name = {tv(p["name"])}', "version.workspace = true", 'edition = "2021"', "build = false",
             "autobins = false", "autoexamples = false", "autotests = false", "autobenches = false", ""]
        lib = t.get("lib", {})
        lp = f"{REPO}/{m}/" + lib.get("path", "src/lib.rs")
        if os.path.exists(lp):
            o += ["[lib]", f"path = {tv(lp)}", "doctest = false", "test = false"]
            if lib.get("proc-macro"):
                o.append("proc-macro = true")
            if lib.get("name"):
                o.append(f'name = {tv(lib["name"])}')
            o.append("")
        else:
            bins = t.get("bin", [{"name": p["name"], "path": "src/main.rs"}])
            for b in bins:
                bp = f"{REPO}/{m}/" + b.get("path", "src/main.rs")
                if os.path.exists(bp):
                    o += ["[[bin]]", f'name = {tv(b["name"])}', f"path = {tv(bp)}", ""]

        def deps(d):
            for k, v in d.items():
                if isinstance(v, dict) and "path" in v:
                    v = dict(v)
                    q = os.path.normpath(os.path.join(m, v["path"]))
                    if q not in dirs:
                        continue
                    v["path"] = os.path.relpath(f"{WS}/{q}", f"{WS}/{m}")
                elif isinstance(v, str) and k in stubs:
                    v = {"path": stubs[k]}
                o.append(f"{tk(k)} = {tv(v)}")

        o.append("[dependencies]")
        deps(t.get("dependencies", {}))
        if not lib.get("proc-macro"):
            # one feature set for every third-party crate, whatever is checked: see vhub
            o.append('vhub = { path = "' + os.path.relpath(f"{WS}/vhub", f"{WS}/{m}") + '" }')
        for tgt, tt in t.get("target", {}).items():
            if "dependencies" in tt and tgt != "cfg(windows)":
                o += ["", f"[target.{tv(tgt)}.dependencies]"]
                deps({k: v for k, v in tt["dependencies"].items() if k not in ABSENT})
        feats = {k: [x for x in v if x not in ABSENT] for k, v in t.get("features", {}).items()}
        o += ["", "[features]"] + [f"{tk(k)} = {tv(v)}" for k, v in feats.items()]
        write(f"{WS}/{m}/Cargo.toml", "\n".join(o) + "\n")
    # vhub depends on everything the members use, so that `cargo check -p X` resolves the same features for every X
    hub, macros = {}, []
    for m in ms:
        t = tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))
        if t.get("lib", {}).get("proc-macro"):
            macros.append((t["package"]["name"], m))
            continue
        for d in [t.get("dependencies", {})] + [tt.get("dependencies", {}) for k, tt in t.get("target", {}).items() if k != "cfg(windows)"]:
            for k, v in d.items():
                v = dict(v) if isinstance(v, dict) else {"version": v}
                if "path" in v or k in ABSENT:
                    continue
                v.pop("optional", None)
                w = hub.setdefault(k, {})
                f = sorted(set(w.get("features", [])) | set(v.get("features", [])))
                w.update(v)
                if f:
                    w["features"] = f
    o = ["[package]", 'name = "vhub"', 'version = "0.0.0"', 'edition = "2021"', "", "[dependencies]"]
    for k, v in sorted(hub.items()):
        o.append(f"{tk(k)} = {tv({'path': stubs[k]} if k in stubs else v)}")
    for n, m in macros:
        o.append(f'{tk(n)} = {{ path = "../{m}" }}')
    write(f"{WS}/vhub/Cargo.toml", "\n".join(o) + "\n")
    write(f"{WS}/vhub/src/lib.rs", "")
    lock = open(f"{REPO}/Cargo.lock").read()
    if not os.path.exists(f"{WS}/Cargo.lock") or os.environ.get("VP_RELOCK"):
        write(f"{WS}/Cargo.lock", lock)


if __name__ == "__main__":
    main()
