#!/usr/bin/env python3
"""check.py <PID> [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse, hashlib, importlib, json, os, subprocess, sys, time, re, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VP_REPO", "/repo")
FACTS = os.path.join(VERIF, ".facts")
TARGET = os.path.join(VERIF, ".target")
import mkws
from va.core import Facts
from va.terms import Terms
from va.okflow import OkFlow


class Anchor(Exception):
    """an anchor the rule needs is missing: no verdict"""


def env():
    e = dict(os.environ)
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    e.update(RUSTC=f"{sysroot}/bin/rustc", LD_LIBRARY_PATH=f"{sysroot}/lib", RUSTUP_TOOLCHAIN="1.82",
             CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
             RUSTC_WORKSPACE_WRAPPER=f"{VERIF}/driver/target/release/vdriver",
             VFACTS_DIR=FACTS, CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    e.pop("RUSTC_WRAPPER", None)
    return e


def md5(p):
    try:
        with open(p, "rb") as f:
            return hashlib.md5(f.read()).hexdigest()
    except OSError:
        return None


def crate_state(name):
    """None when the dumped facts agree with the sources on disk, else a reason"""
    p = os.path.join(FACTS, name + ".json")
    if not os.path.exists(p):
        return "no facts"
    with open(p, "rb") as f:
        o = json.loads(f.read())
    for path, _alg, h in o["srcs"]:
        if path.startswith(REPO + "/") and md5(path) != h:
            return f"{path} changed since the facts were dumped"
    return None


def forget(pkg):
    d = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(d):
        for x in os.listdir(d):
            if re.fullmatch(re.escape(pkg) + r"-[0-9a-f]{16}", x):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)


def prepare(pkgs, quiet=True):
    """(re)check the packages; returns the set of crate names with current facts"""
    mkws.main()
    os.makedirs(FACTS, exist_ok=True)
    drv = md5(f"{VERIF}/driver/target/release/vdriver")
    stamp = os.path.join(FACTS, "driver.md5")
    if not os.path.exists(stamp) or open(stamp).read() != drv:
        for x in os.listdir(FACTS):
            os.remove(os.path.join(FACTS, x))
        with open(stamp, "w") as f:
            f.write(drv or "")
    names = mkws.crate_members()
    dirs = {v: k for k, v in names.items()}
    want = mkws.closure(pkgs)
    log = ""
    for attempt in range(2):
        cmd = ["cargo", "check", "--offline", "--quiet", "--keep-going"]
        for p in pkgs:
            cmd += ["-p", p]
        if "http_protocol" in want:
            # one feature set whatever is being checked, so that its facts are always those of the whole crate
            cmd += ([] if "http_protocol" in pkgs else ["-p", "http_protocol"]) + ["--features", "http_protocol/http_client"]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, ".ws"), env=env(), capture_output=True, text=True)
        log = r.stderr
        stale = {p: crate_state(p.replace("-", "_")) for p in want}
        stale = {p: s for p, s in stale.items() if s}
        if not stale:
            return want, log
        for p in stale:
            forget(p)
    sys.stderr.write(log[-6000:])
    raise Anchor("facts not current: " + "; ".join(f"{p}: {s}" for p, s in stale.items()))


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl, self.viol, self.notes = [], {}, []
        self.stats = {}

    # -- facts
    def load(self, *crates):
        self.F = Facts(FACTS, set(c.replace("-", "_") for c in crates) if crates else None)
        self._T = {}
        return self.F

    def terms(self, **kw):
        k = tuple(sorted(kw.items()))
        if k not in self._T:
            self._T[k] = Terms(self.F, **kw)
        return self._T[k]

    @property
    def T(self):
        return self.terms()

    def body(self, fid):
        b = self.F.get(fid)
        if b is None:
            raise Anchor(f"function not found: {fid}")
        if b.tainted:
            raise Anchor(f"function could not be type-checked: {fid}")
        return b

    # -- obligations
    def ok(self, key, where, how=""):
        self.obl.append((key, where, how, True))

    def bad(self, key, where, msg):
        """key: stable, without line numbers"""
        self.obl.append((key, where, msg, False))
        self.viol.setdefault(key, (where, msg))

    def check(self, cond, key, where, how, msg=None):
        (self.ok(key, where, how) if cond else self.bad(key, where, msg or f"expected: {how}"))
        return cond

    def need(self, cond, msg):
        if not cond:
            raise Anchor(msg)

    def floor(self, n, minimum, what):
        self.stats[what] = n
        if n < minimum:
            raise Anchor(f"only {n} {what} found, at least {minimum} were confirmed by hand")

    def stat(self, k, n):
        self.stats[k] = n


def known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"property=(\S+) key=(\S+)\s*(.*)", ln)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="dump facts for every analysed crate")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        names, log = prepare(sorted(mkws.crate_members().values()))
        print(f"facts dumped for {len(names)} crates in {time.time() - t0:.0f}s")
        return
    mod = importlib.import_module("rules." + a.pid.lower())
    R = Run(a.pid, a.tier)
    ev = os.path.join(VERIF, "evidence", a.pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        os.remove(ev)
    except OSError:
        pass
    err = None
    try:
        if not a.no_build:
            prepare(mod.PKGS)
        crates = getattr(mod, "CRATES", None) or [p.replace("-", "_") for p in mkws.closure(mod.PKGS)]
        R.load(*crates)
    except Anchor as e:
        err = str(e)
    if not err:
        try:
            mod.run(R)
        except Anchor as e:
            # fail closed: an obligation whose construct is gone cannot be discharged
            R.bad("anchor", "-", f"obligation cannot be discharged: {e}")
        except Exception as e:
            if os.environ.get("VDEBUG"):
                raise
            import traceback
            R.bad("anchor", "-", f"obligation cannot be discharged: {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1].line}")
    kn = known()
    new, old = {}, {}
    for k, v in R.viol.items():
        (old if (a.pid, k) in kn else new)[k] = v
    good = [o for o in R.obl if o[3]]
    samples = []
    seen = set()
    for o in R.obl:
        k = o[0].split(":")[0]
        if k in seen and len(samples) > 40:
            continue
        seen.add(k)
        samples.append({"obligation": o[0], "where": o[1], "how": o[2][:300], "discharged": o[3]})
        if len(samples) >= 80:
            break
    cov = {
        "obligations": len(R.obl), "discharged": len(good),
        "samples": samples,
        "explanation": getattr(mod, "RULE", "").strip(),
        "functions_analysed": len([b for b in R.F._b.values() if b]) if hasattr(R, "F") else 0,
        "crates": sorted(R.F.crates) if hasattr(R, "F") else [],
        "counts": R.stats,
        "known_findings": sorted(old),
    }
    cov["reports"] = [{"key": k, "where": w, "message": m[:600]} for k, (w, m) in sorted(new.items())]
    if err:
        cov["error"] = err
    json.dump({"property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
               "level": getattr(mod, "LEVEL", "other"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
               "violations": len(new)},
              open(ev, "w"), indent=1)
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={a.pid} {k} at {old[k][0]}: {kn[(a.pid, k)]}")
    if a.v:
        for o in R.obl:
            print(("ok   " if o[3] else "BAD  ") + o[0], "|", o[1], "|", o[2][:200])
    for k, (w, m) in sorted(new.items()):
        print(f"{k}: {w}: {m}")
    if new:
        for k in sorted(new)[:1]:
            print(f"VIOLATION property={a.pid} replay={ev}")
        sys.exit(1)
    if err:
        print(f"ERROR property={a.pid}: {err}")
        sys.exit(2)
    print(f"OK property={a.pid} obligations={len(R.obl)} discharged={len(good)} known={len(old)} wall={time.time()-t0:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
