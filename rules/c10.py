"""The HTTP client talks to the server it was given, and trusts what it was told to trust."""
import itertools
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from rules.c34 import truth

PKGS = ["http_protocol"]
CRATES = ["http_protocol"]
RULE = """(1) with_proxy_settings: every ClientBuilder call of it (or of what it calls) is found with its condition, and the condition's truth table over
(use_ssl, use_unsafe_ssl, proxy_url given, proxy_url empty, the two auths given) has to be: rustls iff use_ssl or use_unsafe_ssl, invalid certificates
accepted iff use_unsafe_ssl, proxy(..) iff a proxy_url is given and not empty and no_proxy() exactly otherwise, basic_auth / custom auth iff
given. (2) No builder that was changed is dropped on the way to build(). (3) Each cert_file is read, parsed and added in the loop over all of
them; failures are returned. (4) addr is https://host:port under the same condition as rustls, else http://host:port. (5) new() passes
its arguments in order and no proxy. (6) url() joins with exactly one '/'; each request method is sent as itself to url(path)."""
H = "http_protocol::http_client::HttpClient::"
FILE = "common/http_protocol/src/http_client.rs"


def P(f, n):
    return ("param", f, n)


def unok(t):
    while t[0] in ("ok", "await") or t[0] == "call" and t[1].endswith("Option::filter") or t[0] == "call" and re.search(r"::(as_str|as_ref|deref|as_bytes|as_slice|borrow|to_string|to_owned|clone|from|into|as_deref|must_use)$", t[1]) and len(t[2]) == 1:
        t = t[1] if t[0] in ("ok", "await") else t[2][0]
    return t


class Table:
    """truth table of a condition over named atoms; a literal on anything else has to be a success ('0' of a Result, or a loop's own test)"""
    def __init__(self, b):
        p = lambda n: P(b.id, n)
        self.b = b
        self.names = ["ssl", "unsafe", "url", "empty", "basic", "custom"]
        self.opt = {p(6): "url", p(7): "basic", p(8): "custom"}
        self.flag = {p(3): "ssl", p(4): "unsafe"}

    def lit(self, l):
        t, v, pol = l
        if v == {"0", "1"} and pol and t[0] == "disc" and unok(t[1]) in self.opt:
            return None
        if t in self.flag:
            return self.flag[t], truth(l)
        if t[0] == "disc" and unok(t[1]) in self.opt:
            some = ("1" in v) == pol if len(v) == 1 else None
            return self.opt[unok(t[1])], some
        if t[0] == "call" and re.search(r"Option(<.*>)?::is_(some|none)$", t[1]) and unok(t[2][0]) in self.opt and truth(l) is not None:
            return self.opt[unok(t[2][0])], truth(l) == t[1].endswith("is_some")
        if t[0] == "call" and t[1].endswith("::is_empty") and self.opt.get(unok(t[2][0])) == "url":
            return "empty", truth(l)
        if t[0] == "disc" and has(t, lambda x: x == P(self.b.id, 5)):
            return None                                    # progress of the loop over the certificates
        if t[0] == "disc" and t[1][0] == "call" and l[1] == {"0"} and pol:
            return None                                    # an earlier step succeeded
        return "?", show(t)[:80]

    def same(self, cd, want):
        rows = []
        for cj in cd:
            row = {}
            dead = False
            for l in cj:
                r = self.lit(l)
                if r is None:
                    continue
                if r[0] == "?" or r[1] is None:
                    return f"depends on {r[1] or show_dnf([[l]])}"
                if r[0] in row and row[r[0]] != r[1]:
                    dead = True
                row[r[0]] = r[1]
            if not dead:
                rows.append(row)
        for vs in itertools.product([False, True], repeat=len(self.names)):
            env = dict(zip(self.names, vs))
            if env["empty"] and not env["url"]:
                continue
            got = any(all(env[k] == v for k, v in r.items()) for r in rows)
            if got != bool(want(env)):
                return "differs for " + ", ".join(k for k in self.names if env[k]) + ("" if any(env.values()) else "nothing set")
        return None


def run(R):
    F = R.F
    settings(R, F)
    simple(R, F)


WANT = {
    "use_rustls_tls": lambda e: e["ssl"] or e["unsafe"],
    "danger_accept_invalid_certs": lambda e: e["unsafe"],
    "proxy": lambda e: e["url"] and not e["empty"],
    "no_proxy": lambda e: not e["url"] or e["empty"],
    "basic_auth": lambda e: e["url"] and not e["empty"] and e["basic"],
    "custom_http_auth": lambda e: e["url"] and not e["empty"] and e["custom"],
}


def settings(R, F):
    C = Cond(F)
    b = R.body(H + "with_proxy_settings")
    T = Table(b)
    p = lambda n: P(b.id, n)
    isb = lambda c: bool(re.search(r"reqwest::(async_impl::client::)?(ClientBuilder|Client|Proxy|proxy::Proxy)::\w+$|(ClientBuilder|Proxy|Certificate|Client)::\w+$|fs::read\w*$|File::open$|HeaderValue::from_\w+$", c.fid or c.name))
    evs = call_events(C, b, isb)
    by = {}
    for e in evs:
        by.setdefault(e[0].name.rsplit("::", 1)[1], []).append(e)
    known = set(WANT) | {"builder", "new", "default", "build", "add_root_certificate", "read", "from_pem", "from_str", "all"}
    for n, es in by.items():
        if n not in known:
            R.bad("b-extra", es[0][0].where, f"the client is also given {n}(), which nobody asked for")
    for n, want in WANT.items():
        es = by.get(n, [])
        if not R.check(bool(es), f"b-{n}", FILE, f"{n}() is used", f"the client never gets {n}()"):
            continue
        cd = frozenset().union(*(e[2] if n != "danger_accept_invalid_certs" else C.conj(e[2], C.norm(e[1][1], ["1"], True)) for e in es))
        why = T.same(cd, want)
        R.check(why is None, f"b-{n}", es[0][0].where, f"{n}() exactly when the arguments say so", str(why))
    for e in by.get("basic_auth", []):
        R.check(fld_of(e[1][1], p(7), "0") and fld_of(e[1][2], p(7), "1"), "b-auth", e[0].where, "with the user and the password given", f"{show(e[1][1])[-60:]}, {show(e[1][2])[-60:]}")
    for e in by.get("custom_http_auth", []):
        v = unok(e[1][1])
        R.check(v[0] == "call" and v[1].endswith("HeaderValue::from_str") and unok(v[2][0]) == p(8), "b-auth", e[0].where, "with the header given", show(v)[:80])
    for e in by.get("proxy", []):
        al = [x for x in walk(e[1][1]) if x[0] == "call" and x[1].endswith("::all")]
        R.check(al and all(unok(x[2][0]) == p(6) for x in al), "b-purl", e[0].where, "through the proxy given, for all schemes", show(e[1][1])[:100])
        for n in ("basic_auth", "custom_http_auth"):
            R.check(any(x[0] == "call" and x[1].endswith("::" + n) for x in walk(e[1][1])), "b-pauth", e[0].where, f"{n} reaches the proxy", show(e[1][1])[:100])
    # the certificates
    rd, ps, ad = by.get("read", []), by.get("from_pem", []), by.get("add_root_certificate", [])
    if R.check(rd and ps and ad, "c-ops", FILE, "certificates are read, parsed and added"):
        for e in rd:
            R.check(each_of(unok_path(e[1][0]), p(5)), "c-read", e[0].where, "each file of cert_files is read", show(e[1][0])[:80])
        for e in ps:
            R.check(call_of(unok(e[1][0]), "fs::read"), "c-parse", e[0].where, "what was read is parsed", show(e[1][0])[:80])
        for e in ad:
            R.check(call_of(unok(e[1][1]), "Certificate::from_pem"), "c-add", e[0].where, "what was parsed is added", show(e[1][1])[:80])
        for e in ad:
            why = T.same(e[2], lambda env: True)
            R.check(why is None, "c-when", e[0].where, "whatever the other arguments are", str(why))
        pred = lambda c: bool(re.search(r"fs::read$|Certificate::from_pem$", c.fid or c.name))
        for x in F.family(b.id) + [F.get(f) for e in rd + ps for f, _ in e[3][1:] if F.get(f)]:
            propagates(R, F, x, pred, "c-fail", "reading and parsing a certificate")
        every_item(R, F, b.id, lambda it: mentions(it, p(5)), lambda c: ["add"] if re.search(r"add_root_certificate$", c.name) else (), ["add"], "c-every", "every certificate file is added") if all(len(e[3]) == 1 for e in ad) else None
    for x in F.family(b.id):
        propagates(R, F, x, lambda c: bool(re.search(r"::Proxy::all$|HeaderValue::from_str$|ClientBuilder::build$", c.name)), "b-fail", "building the client")
    # nothing that was set is thrown away before build()
    for x in F.bodies("http_protocol", file="http_client.rs"):
        if x.id.startswith("<") and "Error" in x.id:
            continue
        ends = [c.bb for c in x.calls() if c.name.endswith("ClientBuilder::build")] or [bb for bb in x.reachable() if x.blocks[bb]["t"][0] == "return"]
        for bb, l in live_drops(x, r"(ClientBuilder|\bProxy|\bCertificate)$"):
            R.check(not reaches(x, bb, ends), "b-lost", FILE, f"{x.id.rsplit('::', 1)[1]}: what was set is thrown away only when the function fails", f"a {x.lty(int(l)).rsplit('::', 1)[1]} is dropped in {x.id} on the way to the client")
    # the result
    oks = [(cd, t) for cd, t in C.ret_cases(b) if t[0] == "agg" and t[1].endswith("Result::Ok")]
    if R.check(len(oks) == 1 and oks[0][1][2][0][0] == "agg", "r-form", FILE, "the client and its address are returned", str([show(t)[:80] for _, t in oks])):
        v = oks[0][1][2][0]
        bl = unok(getf(v, "client"))
        if R.check(call_of(bl, "ClientBuilder::build"), "r-client", FILE, "the client is the one that was built", show(bl)[:80]):
            ops = {x[1].rsplit("::", 1)[1] for x in walk(bl[2][0]) if x[0] == "call"}
            miss = {"use_rustls_tls", "danger_accept_invalid_certs", "add_root_certificate", "proxy", "no_proxy"} - ops
            R.check(not miss, "r-chain", FILE, "what was set is in it", f"not in the builder that is built: {sorted(miss)}")
    address(R, F, C, b, T)


def reaches(x, bb, tgt):
    seen, st = set(), [s for s in x.succs(bb)]
    while st:
        n = st.pop()
        if n in seen:
            continue
        if n in tgt:
            return True
        seen.add(n)
        st.extend(x.succs(n))
    return False


def call_of(t, suffix):
    return t[0] == "call" and t[1].endswith(suffix)


def unok_path(t):
    while t[0] == "call" and re.search(r"::(from|as_path|as_ref|new|deref|into|clone|to_path_buf)$", t[1]) and len(t[2]) == 1:
        t = t[2][0]
    return t


def fld_of(t, base, n):
    t = t if t[0] == "fld" else unok(t)
    return t[0] == "fld" and t[1] == n and unok(t[2]) == base


def address(R, F, C, b, T):
    hits = []
    for bb in b.reachable():
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == H[:-2]:
                hits.append((bb, i, s))
    if not R.check(len(hits) == 1, "a-form", FILE, "the client is made in one place", str(len(hits))):
        return
    bb, i, s = hits[0]
    ops, names = s[2][2], s[2][3]
    k = names.index("addr")
    seen = {"https": frozenset(), "http": frozenset()}
    for cd, t in [(cd, t2) for cd, t in C.cases(b, ops[k], (bb, i)) for c2, t2 in C.expand_cases(t) for cd, t2 in by_case(C, b, C.conj(cd, c2), t2)]:
        f = glue(fmt_parts(t))
        ok = f is not None and len(f) == 4 and [x if isinstance(x, str) else x[1] for x in f][1:] == [P(b.id, 1), ":", P(b.id, 2)] and f[0] in ("https://", "http://")
        if R.check(ok, "a-text", FILE, "the address is scheme://host:port", str(f)[:140] if f else show(t)[:140]):
            sch = f[0][:-3]
            seen[sch] = seen[sch] | cd
    for sch, want in (("https", WANT["use_rustls_tls"]), ("http", lambda e: not WANT["use_rustls_tls"](e))):
        why = T.same(project(seen[sch], T), lambda e: want(e))
        R.check(why is None, f"a-{sch}", FILE, f"{sch} exactly when the arguments say so", str(why))


def project(cd, T):
    """forget the conditions of the proxy part: they say nothing about the scheme"""
    out = set()
    for cj in cd:
        keep = []
        for l in cj:
            r = T.lit(l)
            if r is not None and r[0] in ("url", "empty", "basic", "custom"):
                continue
            keep.append(l)
        out.add(frozenset(keep))
    return frozenset(out)


# ---------------------------------------------------------------- new, url, requests
def simple(R, F):
    C = Cond(F, no_inline=re.escape(H) + r"(with_proxy_settings|url)$")
    b = R.body(H + "new")
    rs = [t for cd, t in C.ret_cases(b) if cd]
    c = rs[0] if len(rs) == 1 else None
    if R.check(c is not None and call_of(c, "HttpClient::with_proxy_settings"), "n-form", FILE, "new() is with_proxy_settings()", str([show(t)[:80] for t in rs])):
        R.check(all(unok(x) == P(b.id, i + 1) for i, x in enumerate(c[2][:5])), "n-args", FILE, "with its own arguments, in order", show(c)[:160])
        R.check(all(none(x) for x in c[2][5:]), "n-noproxy", FILE, "and no proxy", str([show(x)[:40] for x in c[2][5:]]))
    b = R.body(H + "url")
    me, uri = P(b.id, 1), P(b.id, 2)
    addr = ("fld", "addr", me)
    for cd, t in [y for x in C.ret_cases(b) for y in by_case(C, b, *x)]:
        f = fmt_parts(t)
        pieces = joined(glue(f)) if f is not None else None
        for cj in cd:
            st = slash(cj, uri)
            want = {True: [addr, uri], False: [addr, "/", uri]}.get(st)
            alt = [addr, "/", ("strip", uri)]
            R.check(pieces is not None and (pieces == want or pieces == alt), "u-join", FILE, "the url is the address, one '/', and the path", f"{[x if isinstance(x, str) else show(x)[:40] for x in pieces or []]} when the path {'starts' if st else 'does not start' if st is False else 'may start'} with '/'")
    for m in ("get", "post", "head", "put", "patch", "delete"):
        b = R.body(H + m)
        rs = [t for cd, t in C.ret_cases(b) if cd]
        ok = len(rs) == 1 and rs[0][0] == "call"
        if not R.check(ok, "q-form", FILE, f"{m}() makes one request", str([show(t)[:80] for t in rs])):
            continue
        t = rs[0]
        meth = t[1].rsplit("::", 1)[1]
        if meth == "request":
            k = show(t[2][1]).rsplit("::", 1)[-1].strip("()").lower()
            meth, a = k, [t[2][0], t[2][2]]
        else:
            a = list(t[2])
        R.check(re.search(r"Client::\w+$", t[1]) and meth == m, "q-method", FILE, f"{m}() is sent as {m.upper()}", show(t)[:100])
        R.check(unok(a[0]) == ("fld", "client", P(b.id, 1)), "q-client", FILE, f"{m}(): by the client that was built", show(a[0])[:80])
        u = unok(a[1])
        R.check(call_of(u, "HttpClient::url") and u[2][0] == P(b.id, 1) and unok(u[2][1]) == P(b.id, 2), "q-url", FILE, f"{m}(): to the url of the path", show(u)[:100])


def by_case(C, b, cd, t):
    """a formatted text whose parts are chosen earlier, one case for each choice"""
    f = fmt_parts(t)
    if f is None:
        return [(cd, t)]
    out = [(cd, t)]
    for c in b.calls():
        if not re.search(r"fmt::rt::Argument(<.*>)?::new_\w+$", c.name):
            continue
        a = C.T.arg(c, 0)
        if a[0] != "phi" or not any(not isinstance(x, str) and x[1] == a for x in f):
            continue
        out = [(C.conj(cd, c2), put(t, a, v)) for cd, t in out for c2, v in C.cases(b, c.args[0], (c.bb, None))]
    return [(cd, t) for cd, t in out if cd]


def put(t, a, v):
    if t == a:
        return v
    return tuple(put(x, a, v) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def glue(f):
    """neighbouring pieces of literal text are one"""
    if f is None:
        return None
    out = []
    for x in f:
        if not isinstance(x, str) and x[1][0] == "k" and isinstance(konst(x[1]), str):
            x = konst(x[1])
        elif not isinstance(x, str) and x[1][0] == "k" and re.match(r'^".*"$', show(x[1])):
            x = show(x[1])[1:-1]
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def none(x):
    return x[0] == "agg" and x[1].endswith("Option::None") or x[0] == "k" and "None" in str(x)


def joined(f):
    out = []
    for x in f:
        if isinstance(x, str):
            out += [x] if x else []
        elif x[0] == "display" and not any(x[2] or ()):
            v = unok(x[1])
            if v[0] == "call" and re.search(r"trim_start_matches$|strip_prefix$", v[1]):
                v = ("?",)
            out.append(v)
        else:
            return None
    return out


def slash(cj, uri):
    for l in cj:
        t = l[0]
        if t[0] == "call" and t[1].endswith("::starts_with") and unok(t[2][0]) == uri and show(t[2][1]).strip("'\"") in ("/",):
            return truth(l)
    return None
