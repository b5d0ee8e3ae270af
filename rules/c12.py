"""Errors keep their code and message on the way to the client."""
import json
import os
import re
from va.cond import Cond, TRUE, konst, show_dnf, precedes
from va.terms import walk, show, alts, getf
from va.lib import *

PKGS = ["http_protocol", "derive_traits", "derive_macros", "replication", "meta", "tskv", "coordinator"]
CRATES = ["http_protocol", "derive_traits", "replication", "meta", "tskv", "coordinator"]
RULE = """(1) code() gives every variant of an error enum one constant of six digits; the first two are the module's, the same for the whole
enum and different from every other enum; two variants never share a code, except those without one whose error_code() hands on to the
error inside; code_<variant>() gives that variant's code; message() is the displayed error. (2) error_code() answers with the error itself or
the one it wraps. (3) ErrorResponse::new keeps code and message; written out it is a JSON object of its serde fields, each string
written with every quote, backslash and control character escaped and everything else as it is. (4) encode_grpc_response gives
success, leader-forwarding and failure different codes; decode_grpc_response takes the same code to the same case and gets the
data, or the ids in the order they were written, back. (5) TskvError to Status writes the ErrorResponse of its error_code() as an
internal status; Status to TskvError parses it back from an internal status."""
REPO = os.environ.get("VP_REPO", "/repo")
EC = "derive_traits::error_code::ErrorCode"


def P(f, n):
    return ("param", f, n)


def strk(t):
    m = re.match(r"""^"(.*)"$|^'(.*)'$""", show(t), re.S)
    return m and (m.group(1) if m.group(1) is not None else m.group(2))


def snake(n):
    out, prevnum = "", False
    for i, c in enumerate(n):
        if c.isalpha():
            if prevnum or (i and c.isupper()):
                out += "_"
            prevnum = False
        if c.isnumeric():
            if not prevnum:
                out += "_"
            prevnum = True
        out += c
    return out.lower()


def run(R):
    F = R.F
    codes(R, F)
    response(R, F)
    grpc(R, F)
    status(R, F)


def codes(R, F):
    C = Cond(F)
    mods, n = {}, 0
    for ty, it in sorted(F.items.items()):
        if it["k"] != "enum":
            continue
        b = F.get(f"<{ty} as {EC}>::code")
        if b is None:
            continue
        n += 1
        me = P(b.id, 1)
        code = {}
        byd = {str(v["discr"]): v["name"] for v in it["variants"]}
        for cd, t in C.ret_cases(b):
            for cj in cd:
                ds = [l for l in cj if l[0] == ("disc", me)]
                vs = set(byd)
                for l in ds:
                    vs = vs & set(l[1]) if l[2] else vs - set(l[1])
                for d in vs:
                    code.setdefault(byd[d], set()).add(strk(t) or show(t))
        mod = set()
        seen = {}
        handed = delegates(R, F, C, ty, byd)
        nm = ty.rsplit("::", 1)[1]
        for v in sorted(byd.values()):
            c = code.get(v, set())
            R.check(len(c) == 1, "code-one", b.relfile, f"{nm}::{v} has one code", f"{c}")
            for x in c:
                R.check(re.fullmatch(r"\d{6}", x) is not None, "code-form", b.relfile, f"{nm}::{v}'s code has six digits", x)
                mod.add(x[:2])
                if x[2:] == "0000":
                    R.check(v in handed, "code-none", b.relfile, f"{nm}::{v} has a code or hands on to the error inside", x)
                else:
                    R.check(x not in seen, "code-unique", b.relfile, f"{nm}::{v}'s code is its own", f"{x} is also {seen.get(x)}'s")
                seen.setdefault(x, v)
        R.check(len(mod) == 1, "mod-one", b.relfile, f"{nm} has one module number", f"{mod}")
        for m in mod:
            R.check(m not in mods, "mod-unique", b.relfile, f"the module number of {nm} is its own", f"{m} is also that of {mods.get(m)}")
            mods[m] = nm
        for v, c in code.items():
            g = F.get(f"{ty}::code_{snake(v)}")
            if g is not None:
                R.check([strk(t) for cd, t in C.ret_cases(g) if cd] == list(c), "code-fn", b.relfile, f"code_{snake(v)}() is {nm}::{v}'s code")
        g = R.body(f"<{ty} as {EC}>::message")
        R.check(all(t == P(g.id, 1) or t[0] == "call" and t[1].endswith("to_string") and t[2][0] == P(g.id, 1) for cd, t in C.ret_cases(g) if cd), "message", b.relfile, f"{nm}'s message is what it displays")
    R.floor(n, 4, "error enums")
    # crates that cannot be type-checked here: their enum attributes, read from the syntax
    for f in ("query_server/spi/src/lib.rs", "main/src/http/mod.rs"):
        src = re.sub(r"//[^\n]*", "", open(os.path.join(REPO, f)).read())
        at = re.findall(r'#\[error_code\(\s*mod_code\s*=\s*"([^"]*)"\s*\)\]', src)
        R.check(len(at) == 1 and re.fullmatch(r"\d\d", at[0]) is not None, "mod-one", f, "one module number", f"{at}")
        for m in at:
            R.check(m not in mods, "mod-unique", f, "the module number is its own", f"{m} is also that of {mods.get(m)}")
            mods[m] = f


def delegates(R, F, C, ty, byd):
    b = F.get(f"{ty}::error_code")
    R.need(b is not None, f"{ty}::error_code")
    me = P(b.id, 1)
    C = Cond(F, no_inline=r"::error_code$")
    handed, own = set(), 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        for x in alts(t):
            if x == me:
                own += 1
                continue
            y = x[2][0] if x[0] == "call" and x[1].endswith("::error_code") else x
            ok = y[0] == "fld" and y[2] == me and y[1].split(".")[0] in byd.values()
            R.check(ok, "hand-on", b.relfile, "an error answers with its own code or that of the error inside", show(x)[:100])
            if ok:
                handed.add(y[1].split(".")[0])
    R.check(own == 1, "hand-own", b.relfile, "all other errors answer for themselves", f"{own}")
    inner = {i[1:-len(f" as {EC}>::code")] for i in F.ids() if i.endswith(f" as {EC}>::code")}
    for v in F.items[ty]["variants"]:
        for f in v["fields"]:
            fty = F.crates[F.items[ty]["crate"]].tys[f[1]]
            name = fty if isinstance(fty, str) else str(fty.get("p") or fty.get("name") or fty)
            if name in inner and name != ty and len(v["fields"]) and f[0] in ("source", "error"):
                R.check(v["name"] in handed, "hand-on", b.relfile, f"{v['name']} answers with the code of the error inside", name)
    for c, a, cd in own_sites(C, b, lambda c: (c.fid or "").endswith("::error_code")):
        for cj in cd:
            R.check(all(l[0] == ("disc", me) for l in cj), "hand-all", c.where, "whatever it contains", show_dnf(frozenset([cj]))[:120])
    return handed


def response(R, F):
    ER = "http_protocol::response::ErrorResponse"
    C = Cond(F, spreads=True)
    b = R.body(ER + "::new")
    e = P(b.id, 1)
    for cd, t in C.ret_cases(b):
        if cd:
            ok = t[0] == "agg" and all(any(x[0] == "call" and x[1].endswith("ErrorCode::" + m) and x[2][0] == e for x in walk(getf(t, f))) for f, m in (("error_code", "code"), ("error_message", "message")))
            R.check(ok and cd == TRUE, "resp-new", b.relfile, "the answer carries the error's code and message", show(t)[:120])
    for m, f in (("code", "error_code"), ("message", "error_message")):
        g = R.body(f"<{ER} as {EC}>::{m}")
        for cd, t in C.ret_cases(g):
            if cd:
                x = t
                while x[0] == "call" and re.search(r"leak$|into_boxed_str$|clone$|as_str$|to_owned$|into$", x[1]) and len(x[2]) == 1:
                    x = x[2][0]
                R.check(x == getf(P(g.id, 1), f), "resp-get", g.relfile, f"{m} of an answer is what was sent", show(t)[:100])
    it = F.items[ER]
    names = [f[0] for f in it["variants"][0]["fields"]]
    for f in it["variants"][0]["fields"]:
        R.check(not any("serde" in str(a) for a in f[2]), "resp-serde", "http_protocol::response", f"{f[0]} is read and written as {f[0]}", str(f[2]))
    # Display
    b = R.body(f"<{ER} as core::fmt::Display>::fmt")
    C = Cond(F, no_inline=r"write_json_escaped$")
    me = P(b.id, 1)
    esc = [i for i in F.ids() if i.startswith("http_protocol::response::") and "{" not in i and "<" not in i]
    esc = [i for i in esc if F.get(i) is not None and any(c.name.endswith("str::chars") for c in F.get(i).calls())]
    ws = in_order(F, call_events(C, b, lambda c: re.search(r"write_str$|write_fmt$|write_char$", c.fid or c.name) or (c.fid or "") in esc))
    R.need(ws is not None, "the order in which ErrorResponse is written was not understood")
    out = P(b.id, 2)
    txt, escapers = "", set()
    whole = False
    for c, a, cd, _ in ws:
        v = a[-1]
        f = fmt_parts(v)
        k = strk(v)
        if k is not None:
            txt += unq(show(v))
        elif v[0] == "fld" and v[2] == me and (c.fid or "") in esc:
            txt += "\0" + v[1] + "\0"
            escapers.add(c.fid)
        elif f is not None:
            for p in f:
                if isinstance(p, str):
                    txt += p
                else:
                    txt += json.dumps("?unescaped " + show(p[1]))[1:-1] if not (p[1][0] == "call" and p[1][1].endswith("to_string") and "serde_json" in p[1][1]) else "\1"
        elif has(v, lambda x: x[0] == "call" and "serde_json" in x[1] and "to_string" in x[1] and x[2][0] == me):
            whole = True
        else:
            txt += json.dumps("?" + show(v))[1:-1]
        bad = [l for l in lits(cd) if not (l[0][0] == "disc" and has(l[0], lambda x: x[0] == "call" and out in x[2]))]
        R.check(not bad, "disp-always", c.where, "written unconditionally", show_dnf(cd)[:120])
    if not whole:
        try:
            got = json.loads(txt.replace("\0", "\\u0000"))
        except ValueError:
            got = txt
        R.check(got == {n: f"\0{n}\0" for n in names}, "disp-json", b.relfile, "an answer is written as the JSON object of its fields, each escaped", repr(got)[:200])
        R.floor(len(escapers), 1, "escaped strings")
    for e in escapers:
        escaper(R, F, e)
    pub = R.body(ER + "::to_vec")
    C = Cond(F)
    for cd, t in C.ret_cases(pub):
        if cd:
            R.check(has(t, lambda x: x == P(pub.id, 1)), "resp-vec", pub.relfile, "to_vec is the written answer", show(t)[:80])


def unq(s):
    import ast
    try:
        return ast.literal_eval(re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: "\\u%04x" % int(m.group(1), 16), s))
    except (ValueError, SyntaxError):
        return "?" + s


def escaper(R, F, fid):
    C = Cond(F)
    b = R.body(fid)
    s = P(fid, 2)
    ch = lambda t: t[0] == "ok" and t[1][0] == "call" and re.search(r"str::chars$", t[1][1]) and t[1][2][0] == s
    ws = own_sites(C, b, lambda c: re.search(r"write_str$|write_fmt$|write_char$", c.fid or c.name))

    def holds(cj, n):
        """is the conjunction possible for character n (None: not decided)"""
        for t, vs, pos in cj:
            if ch(t):
                if (str(n) in vs) != pos:
                    return False
            elif t[0] == "disc" and t[1][0] == "call" and t[1][1].endswith("str::chars"):
                if ("1" in vs) != pos:
                    return False
            elif t[0] == "bin" and t[1] in ("Lt", "Le", "Eq") and any(ch(unc(x)) for x in t[2:4]):
                v = []
                for x in t[2:4]:
                    if ch(unc(x)):
                        v.append(n)
                    else:
                        m = re.fullmatch(r"'(.*)'", show(x), re.S)
                        k = ord(unq(show(x))[:1] or "\0") if m else konst(x)
                        if not isinstance(k, int):
                            return None
                        v.append(k)
                r = {"Lt": v[0] < v[1], "Le": v[0] <= v[1], "Eq": v[0] == v[1]}[t[1]]
                if (("1" in vs) == pos) != r:
                    return False
            elif t[0] == "call" and re.search(r"is_(ascii_)?control$", t[1]):
                if (("1" in vs) == pos) != (n < 32 or n == 127):
                    return False
            elif t[0] == "disc" and has(t, lambda x: x[0] == "call" and "write_" in x[1]):
                continue
            else:
                return None
        return True

    def unc(t):
        return t[2] if t[0] == "cast" and len(t) > 2 and isinstance(t[2], tuple) else t
    nclass = 0
    for n in list(range(0, 128)) + [160, 0x7ff, 0x1f600]:
        out = []
        for c, a, cd in ws:
            hs = [holds(cj, n) for cj in cd]
            R.need(None not in hs, f"condition of {c.where} not understood: {show_dnf(cd)[:160]}")
            if any(hs):
                out.append((c, a[-1]))
        out.sort(key=lambda x: sum(1 for y in out if y is not x and precedes(b, y[0].bb, x[0].bb)))
        got = ""
        for c, v in out:
            k = fmt_parts(v)
            if k is not None and len(k) == 2 and isinstance(k[0], str) and not isinstance(k[1], str) and k[1][0] in ("lower_hex", "upper_hex") and ch(unc(k[1][1])):
                w = k[1][2][1] or 0
                z = k[1][2][0] is not None and k[1][2][0] & (1 << 24)
                x = k[0] + ("%x" % n if k[1][0] == "lower_hex" else "%X" % n).rjust(w, "0" if z else " ")
            elif ch(v):
                x = chr(n)
            else:
                x = unq(show(v)) if strk(v) is not None else None
            got = None if x is None or got is None else got + x
        try:
            back = json.loads('"' + got + '"') if got is not None else None
        except ValueError:
            back = None
        nclass += 1
        R.check(back == chr(n), "esc-json", out[0][0].where if out else b.relfile, f"character {n} is read back from what is written", repr(got))
    R.floor(nclass, 131, "characters")


def grpc(R, F):
    CE = "coordinator::errors::CoordinatorError"
    C = Cond(F, spreads=True)
    enc = R.body("coordinator::errors::encode_grpc_response")
    r = P(enc.id, 1)
    fwd = discr(F, CE, "RaftForwardToLeader")
    codes_ = {}
    layout = None
    for cd, t in C.ret_cases(enc):
        if not cd:
            continue
        br = [x for x in walk(t) if x[0] == "agg" and x[1].endswith("BatchBytesResponse")]
        R.need(len(br) == 1, f"encode_grpc_response returns {show(t)[:80]}")
        code, data = getf(br[0], "code"), getf(br[0], "data")
        for cj in cd:
            ok = any(l[0] == ("disc", r) and ("0" in l[1]) == l[2] for l in cj)
            fw = any(l[0] == ("disc", ("err", r)) and l[2] and l[1] == frozenset([fwd]) for l in cj)
            case = "ok" if ok else "forward" if fw else "fail"
            codes_.setdefault(case, set()).add(show(code))
            if ok:
                R.check(data == ("ok", r), "grpc-data", enc.relfile, "the data is sent as it is", show(data)[:80])
            elif fw:
                while data[0] == "call" and re.search(r"(String::into_bytes|(From|Into)(<.*>)?>?::(from|into))$", data[1]):
                    data = data[2][0]
                layout = fmt_parts(data)
                R.check(layout is not None, "grpc-fwd", enc.relfile, "the ids are sent", show(data)[:80])
            else:
                R.check(has(data, lambda x: x == ("err", r)), "grpc-err", enc.relfile, "the error is sent", show(data)[:80])
    R.check(set(codes_) == {"ok", "forward", "fail"} and all(len(v) == 1 for v in codes_.values()), "grpc-cases", enc.relfile, "success, forwarding and failure are told apart", f"{codes_}")
    vals = {}
    for k, v in codes_.items():
        for x in v:
            vals[k] = x
    nums = {k: constval(F, x) for k, x in vals.items()}
    R.check(len(set(nums.values())) == len(nums) and None not in nums.values(), "grpc-distinct", enc.relfile, "by different codes", f"{nums}")
    dec = R.body("coordinator::errors::decode_grpc_response")
    st = P(dec.id, 1)
    cf = getf(st, "code")
    for cd, t in C.ret_cases(dec):
        if not cd:
            continue
        for cj in cd:
            poss = []
            for case, val in vals.items():
                good = True
                for l in cj:
                    if l[0][0] == "bin" and l[0][1] == "Eq" and cf in l[0][2:4]:
                        o = [x for x in l[0][2:4] if x != cf][0]
                        good = good and ((constval(F, show(o)) == nums[case]) == (("1" in l[1]) == l[2]))
                    elif l[0] == cf:
                        good = good and ((str(nums[case]) in l[1]) == l[2])
                if good:
                    poss.append(case)
            for case in poss:
                if case == "ok":
                    R.check(t[0] == "agg" and t[1].endswith("::Ok") and t[2][0] == getf(st, "data"), "grpc-back", dec.relfile, "the data comes back", show(t)[:100])
                elif case == "fail":
                    R.check(is_err(t) and not has(t, lambda x: x[0] == "agg" and x[1].endswith("RaftForwardToLeader")) and has(t, lambda x: x == getf(st, "data")), "grpc-back", dec.relfile, "a failure comes back as an error with its text", show(t)[:100])
                else:
                    ag = [x for x in walk(t) if x[0] == "agg" and x[1].endswith("RaftForwardToLeader")]
                    if not R.check(is_err(t) and len(ag) == 1 and layout is not None, "grpc-back", dec.relfile, "a new leader comes back as one", show(t)[:100]):
                        continue
                    order = [p[1][1].rsplit(".", 1)[1] for p in layout if not isinstance(p, str) and p[1][0] == "fld"]
                    sep = "".join(p for p in layout if isinstance(p, str))
                    R.check(len(order) == 2 and layout[1:2] == [sep] and sep and not sep.isdigit() and all(p[0] == "display" for p in layout if not isinstance(p, str)), "grpc-fwd", enc.relfile, "the ids are separated", f"{[p if isinstance(p, str) else p[0] for p in layout]}")
                    for i, nm in enumerate(order):
                        v = getf(ag[0], nm)
                        ix = [konst(x[2]) for x in walk(v) if x[0] == "idx"]
                        sp = {unq(show(x[2][1])) for x in walk(v) if x[0] == "call" and re.search(r"str::split\w*$", x[1])}
                        src = has(v, lambda x: x == getf(st, "data")) and has(v, lambda x: x[0] == "call" and x[1].endswith("::parse") or x[0] == "agg" and closure_id(x) and any((c.fid or "").endswith("::parse") for c in F.get(closure_id(x)).calls()))
                        R.check(src and (ix == [i] and sp == {sep} or not ix and has(v, lambda x: x[0] == "call" and re.search(r"split_once|Option(<.*>)?::and_then$|Iterator>?::(next|nth)$", x[1]))), "grpc-ids", dec.relfile, f"{nm} is read where it was written", show(v)[:160])


def constval(F, s):
    m = re.fullmatch(r"(-?\d+)(_\w+)?", s)
    if m:
        return int(m.group(1))
    ids = [i for i in F.ids() if i.endswith("::" + s)]
    for i in ids:
        b = F.get(i)
        if b is not None:
            ts = {show(t) for cd, t in Cond(F).ret_cases(b) if cd}
            if len(ts) == 1:
                k = re.fullmatch(r"(-?\d+)(_\w+)?", ts.pop())
                if k:
                    return int(k.group(1))
    return None


def status(R, F):
    C = Cond(F, no_inline=r"::error_code$|ErrorResponse::new$")
    b = R.body("<tonic::status::Status as core::convert::From<tskv::error::TskvError>>::from")
    v = P(b.id, 1)
    sent = 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        js = [x for x in walk(t) if x[0] == "call" and re.search(r"serde_json::.*to_(string|vec)\w*$|ErrorResponse.*to_string$", x[1])]
        good = [x for x in js if x[2][0][0] == "call" and x[2][0][1].endswith("ErrorResponse::new") and x[2][0][2][0][0] == "call" and x[2][0][2][0][1].endswith("TskvError::error_code") and x[2][0][2][0][2][0] == v]
        fails = all(any(l[0][0] == "disc" and has(l[0], lambda x: x in js or x[0] == "call" and "serde_json" in x[1]) and ("1" in l[1]) == l[2] for l in cj) for cj in cd)
        if t[0] == "call" and t[1].endswith("Status::internal") and good and has(t[2][0], lambda x: x[0] == "ok"):
            sent += 1
        else:
            R.check(fails, "st-send", b.relfile, "an engine error is sent with its code and message", f"{show(t)[:120]} if {show_dnf(cd)[:80]}")
    R.floor(sent, 1, "errors sent as a status")
    b = R.body("<tskv::error::TskvError as core::convert::From<tonic::status::Status>>::from")
    s = P(b.id, 1)
    want = None
    for i in F.items:
        if i.endswith("tonic::Code") or i.endswith("status::Code"):
            want = discr(F, i, "Internal")
    got = 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        er = has(t, lambda x: x[0] == "ok" and x[1][0] == "call" and "serde_json::" in x[1][1] and "from_s" in x[1][1] and has(x[1][2][0], lambda y: y[0] == "call" and y[1].endswith("Status::message") and y[2][0] == s)) and has(t, lambda x: "ErrorResponse" in str(x[1]) if len(x) > 1 else False)
        for cj in cd:
            parsed = any(l[0][0] == "disc" and has(l[0], lambda y: y[0] == "call" and "serde_json::" in y[1]) and ("0" in l[1]) == l[2] for l in cj)
            if parsed or er:
                internal = any(l[2] and l[1] == frozenset([want or "13"]) and has(l[0], lambda y: y[0] == "call" and y[1].endswith("Status::code") and y[2][0] == s) for l in cj)
                R.check(er, "st-parse", b.relfile, "what was parsed is the error", show(t)[:120])
                R.check(internal, "st-parse", b.relfile, "from an internal status", show_dnf(frozenset([cj]))[:160])
                got += 1
    R.floor(got, 1, "errors parsed from a status")
