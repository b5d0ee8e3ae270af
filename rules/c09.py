"""A setting means the same whether it is left out, written in the file, given by the environment, or read back."""
import re
from va.cond import Cond, TRUE, konst, show_dnf, precedes
from va.terms import walk, show, alts, getf
from va.lib import *

PKGS = ["config", "utils", "derive_traits", "derive_macros"]
CRATES = ["config", "utils", "derive_traits"]
RULE = """For every struct reachable by fields from tskv::Config and meta::Opt: (1) what visit_map of its Deserialize puts into a field that
is absent is the term Default::default() gives it; (2) no field is renamed, skipped, flattened or coded differently in the two directions;
(3) field_keys() gives the name of every field, each with the keys of its own type below it, joined by a dot, and no two keys give the
same variable name once dots are underscores. (4) env_keys maps prefix + key to key; new() merges the variables over the file, looks a variable up
by its full name, and gives back what figment extracts. (5) the byte-number codec writes a text that was parsed back to the
number, or the bytes in full; the duration codec pairs humantime's formatter with its parser."""
FK = "derive_traits::keys::FieldKeys"


def P(f, n):
    return ("param", f, n)


def strk(t):
    m = re.match(r'^"(.*)"$', show(t), re.S)
    return m and m.group(1)


def sig(t):
    """a term without the places its calls are made at"""
    if isinstance(t, tuple):
        return ("call", t[1], sig(t[2])) if t[:1] == ("call",) else tuple(sig(x) for x in t)
    return t


def tyname(F, it, i):
    t = str(F.crates[it["crate"]].tys[i])
    x = inner(t)  # types of the crate itself are printed without its name
    return t.replace(x, it["crate"] + "::" + x) if it["crate"] + "::" + x in F.items else t


def inner(ty):
    while True:
        m = re.match(r"^(?:std::option::Option|core::option::Option|std::vec::Vec|alloc::vec::Vec)<(.*)>$", ty)
        if not m:
            return ty
        ty = m.group(1)


def run(R):
    F = R.F
    roots = [("config::tskv::Config", "CNOSDB_"), ("config::meta::Opt", "CNOSDB_META_")]
    seen, todo = [], [r for r, _ in roots]
    while todo:
        ty = todo.pop(0)
        if ty in seen:
            continue
        R.need(ty in F.items, ty)
        seen.append(ty)
        for f in F.items[ty]["variants"][0]["fields"]:
            x = inner(tyname(F, F.items[ty], f[1]))
            if x in F.items and F.items[x]["k"] == "struct":
                todo.append(x)
    R.floor(len(seen), 15, "config sections")
    n = 0
    for ty in seen:
        n += defaults(R, F, ty)
        attrs(R, F, ty)
        keys(R, F, ty)
    R.floor(n, 60, "settings with a default")
    for ty, pre in roots:
        names = {}
        for k in tree(F, ty):
            v = k.replace(".", "_")
            R.check(v not in names, "env-unique", ty, f"{pre}{v} names one setting", f"{k} and {names.get(v)}")
            names[v] = k
        R.floor(len(names), 10, f"variables of {ty}")
        env(R, F, ty, pre)
    codecs(R, F)


def tree(F, ty):
    out = []
    for f in F.items[ty]["variants"][0]["fields"]:
        x = inner(tyname(F, F.items[ty], f[1]))
        if x in F.items and F.items[x]["k"] == "struct":
            out += [f"{f[0].upper()}.{k}" for k in tree(F, x)]
        else:
            out.append(f[0].upper())
    return out


def defaults(R, F, ty):
    C = Cond(F, no_inline=r"Default>::default$")
    sh = ty.rsplit("::", 1)[1]
    d = F.get(f"<{ty} as core::default::Default>::default")
    vm = F.get(f"<<{ty} as serde::de::Deserialize>::deserialize::__Visitor as serde::de::Visitor>::visit_map")
    R.check(vm is not None, "d-derive", ty, f"{sh} is read by a derived Deserialize")
    if vm is None or d is None:
        return 0
    ds = [t for cd, t in C.ret_cases(d) if cd]
    R.need(len(ds) == 1 and ds[0][0] == "agg", f"Default of {ty} not understood")
    n, got = 0, 0
    for cd, t in C.ret_cases(vm):
        if not cd or is_err(t) or t[0] != "agg" or not t[1].endswith("::Ok"):
            continue
        got += 1
        for f in F.items[ty]["variants"][0]["fields"]:
            nm = f[0]
            want = getf(ds[0], nm)
            absent = []
            for x in alts(getf(t[2][0], nm)):
                if x[0] == "never":
                    continue
                if has(x, lambda y: y[0] == "call" and y[1].endswith("::next_value")):
                    continue
                absent.append(x)
            for x in absent:
                n += 1
                if has(x, lambda y: y[0] == "call" and y[1].endswith("missing_field")):
                    opt = "option::Option<" in tyname(F, F.items[ty], f[1])
                    R.check(opt and (want[0] == "agg" and want[1].endswith("::None") or want[0] == "call" and "option::Option" in want[1]), "d-same", d.relfile, f"{sh}.{nm} left out is its default", f"required, but defaults to {show(want)[:60]}")
                else:
                    same = sig(x) == sig(want) or x[0] == "fld" and x[1] == nm and sig(x[2]) == sig(ds[0])
                    R.check(same, "d-same", d.relfile, f"{sh}.{nm} left out is its default", f"{show(x)[:80]} in a file without it, {show(want)[:80]} without a file")
            R.check(bool(absent), "d-has", d.relfile, f"{sh}.{nm} can be left out", "no default")
    R.check(got >= 1, "d-derive", ty, f"{sh} is read")
    return n


BAD = re.compile(r"\b(skip\w*|rename\w*|alias|flatten|serialize_with|deserialize_with|getter|from|into|try_from|remote|untagged|bound)\b")


def attrs(R, F, ty):
    it = F.items[ty]
    sh = ty.rsplit("::", 1)[1]
    for a in it.get("attrs") or []:
        if "serde" in str(a):
            R.check(not BAD.search(re.sub(r'"[^"]*"', "", str(a))), "a-both", ty, f"{sh} is written as it is read", str(a)[:80])
    for f in it["variants"][0]["fields"]:
        for a in f[2]:
            if "serde" in str(a):
                R.check(not BAD.search(re.sub(r'"[^"]*"', "", str(a))), "a-both", ty, f"{sh}.{f[0]} is written as it is read", str(a)[:80])
    R.check(F.get(f"<{ty} as serde::ser::Serialize>::serialize") is not None, "a-both", ty, f"{sh} is written")
    b = F.get(f"<{ty} as serde::ser::Serialize>::serialize")
    if b is not None:
        C = Cond(F)
        nm = []
        for c, a, cd in own_sites(C, b, lambda c: c.name.endswith("::serialize_field")):
            nm.append(strk(a[1]))
            src = [x for x in walk(a[2]) if x[0] == "fld" and x[2] == P(b.id, 1)]
            R.check(len({x[1] for x in src}) == 1 and src[0][1] == strk(a[1]), "a-name", c.where, f"{sh}: each field under its own name", f"{strk(a[1])} <- {show(a[2])[:60]}")
        R.check(sorted(x or "" for x in nm) == sorted(f[0] for f in it["variants"][0]["fields"]), "a-all", b.relfile, f"{sh}: every field is written", f"{nm}")


def keys(R, F, ty):
    b = F.get(f"<{ty} as {FK}>::field_keys")
    sh = ty.rsplit("::", 1)[1]
    if not R.check(b is not None, "k-has", ty, f"{sh} has field keys"):
        return
    C = Cond(F, no_inline=r"field_keys$")
    fs = {f[0]: inner(tyname(F, F.items[ty], f[1])) for f in F.items[ty]["variants"][0]["fields"]}
    tys = {f[0]: tyname(F, F.items[ty], f[1]) for f in F.items[ty]["variants"][0]["fields"]}
    owner = lambda x: re.match(r"^<(.*) as ", x[1]) if x[0] == "call" and x[1].endswith("field_keys") else None
    done = {}
    for g in F.family(b.id):
        for c, a, cd in own_sites(C, g, lambda c: re.search(r"(Vec|Extend)(<.*>)?::(push|insert|extend\w*|append)$", c.name)):
            txt = a[-1]
            inn = next((closure_id(x) for x in walk(txt) if closure_id(x)), None)
            if c.name.endswith("::extend") and inn and txt[0] == "call" and txt[1].endswith("Iterator::map") and F.get(inn):
                txts = [t for cd2, t in C.ret_cases(F.get(inn)) if cd2]
                txt = txts[0] if len(txts) == 1 else txt
            up = [x for x in walk(txt) if x[0] == "call" and re.search(r"to_(ascii_)?uppercase$", x[1])]
            nm = strk(up[0][2][0]) if up else None
            if not R.check(nm in fs and c.name.endswith(("::push", "::extend")), "k-name", c.where, "a key is the name of a field", show(txt)[:80]):
                continue
            p = fmt_parts(txt)
            if txt == up[0]:  # the name alone
                kind = "leaf"
                em = [l for cj in cd for l in cj]
                R.check(len(cd) == 1 and len(em) == 1 and em[0][0][0] == "call" and em[0][0][1].endswith("is_empty") and ("1" in em[0][1]) == em[0][2], "k-leaf", c.where, "a field without inner keys is a key", show_dnf(cd)[:80])
                m = [owner(x) for l in em for x in walk(l[0]) if owner(x)]
            else:
                kind = "nest"
                R.check(p is not None and len(p) == 3 and p[1] == "." and not isinstance(p[0], str) and p[0][1] == up[0] and not isinstance(p[2], str) and p[2][1][0] == "ok" and owner(p[2][1][1]), "k-nest", c.where, "a nested key is the field's name, a dot, and the inner key", show(txt)[:120])
                m = [owner(x) for x in walk(txt) if owner(x)]
            done.setdefault(nm, []).append(kind)
            R.check(len(m) == 1 and (inner(norm(m[0].group(1))) == norm(fs[nm]) or re.match(r"^(\w+::)*" + m[0].group(1).rsplit("::", 1)[-1] + "<", tys[nm])), "k-type", c.where, f"{sh}.{nm} has the keys of its type below it", f"{[x.group(1) for x in m]} / {fs[nm]}")
    for nm in fs:
        R.check(set(done.get(nm, [])) == {"leaf", "nest"}, "k-all", b.relfile, f"{sh}.{nm} has its key", f"{done.get(nm)}")


def norm(t):
    return re.sub(r"\b(std|alloc|core)::(\w+::)*", "", t)


def env(R, F, ty, pre):
    C = Cond(F, no_inline=r"env_keys$|field_keys$")
    b = R.body(ty + "::env_keys")
    pairs = []
    for g in F.family(b.id):
        pairs += [(g.relfile, t[2]) for cd, t in C.ret_cases(g) if cd and t[0] == "agg" and len(t[2]) == 2]
        pairs += [(c.where, a[1:]) for c, a, cd in own_sites(C, g, lambda c: re.search(r"Map(<.*>)?::insert$", c.name))]
    for where, (nm, k) in pairs:
        p = fmt_parts(nm)
        rep = p and not isinstance(p[-1], str) and p[-1][1]
        R.check(bool(p) and p[0] == pre and len(p) == 2 and rep[0] == "call" and rep[1].endswith("replace") and rep[2][0] == k and [unquote(show(x)) for x in rep[2][1:]] == [".", "_"], "e-name", where, "the variable is the prefix and the key with underscores", f"{[x if isinstance(x, str) else show(x[1])[:80] for x in p or []]}")
        R.check(k[0] == "param" and "closure" in k[1] or k[0] in ("ok", "elem") and k[1][0] == "call" and k[1][1] == f"<{ty} as {FK}>::field_keys" or has(k, lambda x: x[0] == "call" and x[1] == f"<{ty} as {FK}>::field_keys") and k[0] != "call", "e-key", where, "and stands for the key", show(k)[:60])
    made = len(pairs)
    R.floor(made, 1, "env name closure")
    R.check(any(f"<{ty} as {FK}>::field_keys" in (c.fid, c.res) for c in b.calls()) and not any(re.search(r"::(filter|filter_map|skip\w*|take\w*|step_by)$", c.name) for c in b.calls()), "e-all", b.relfile, "every key has its variable")
    # new
    b = R.body(ty + "::new")
    fig = lambda t: t[0] == "call" and t[1].endswith("Figment::merge")
    okc = 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        if is_err(t) and not has(t, lambda x: x[0] == "call" and x[1].endswith("Figment::extract")):
            for cj in cd:
                miss = any(l[0][0] == "call" and re.search(r"::(exists|is_file|try_exists)$", l[0][1]) and ("1" in l[1]) != l[2] for l in cj)
                R.check(miss, "n-err", b.relfile, "refused only if the named file is not there", show_dnf(frozenset([cj]))[:120])
            continue
        ex = [x for x in walk(t) if x[0] == "call" and x[1].endswith("Figment::extract")]
        if not R.check(len(ex) == 1 and (t == ex[0] or t[0] in ("ok", "err", "agg")), "n-extract", b.relfile, "what is extracted is the configuration", show(t)[:80]):
            continue
        okc += 1
        m = ex[0][2][0]
        envp = lambda x: x[0] == "call" and x[1].endswith("Env::prefixed")
        if R.check(fig(m) and has(m[2][1], envp) and not has(m[2][0], envp), "n-env", b.relfile, "variables come last and so win over the file", show(m)[:140]):
            pf = [strk(x[2][0]) for x in walk(m[2][1]) if envp(x)]
            R.check(pf == [pre], "n-prefix", b.relfile, "under their prefix", f"{pf}")
            fl = [x for x in walk(m[2][0]) if fig(x)]
            R.check(any(has(x[2][1], lambda y: y[0] == "call" and y[1].endswith("::file") and has(y, lambda z: z == ("ok", P(b.id, 1)))) for x in fl), "n-file", b.relfile, "over the file that was named", show(m[2][0])[:120])
    R.floor(okc, 1, "configurations built")
    found = 0
    for g in [x for x in F.bodies("config") if x.id.startswith(ty + "::") and "{closure" in x.id]:
        gets = own_sites(C, g, lambda c: re.search(r"BTreeMap(<.*>)?::get$|HashMap(<.*>)?::get$", c.fid or c.name))
        if not gets:
            continue
        found += 1
        key = P(g.id, 2)
        for c, a, cd in gets:
            p = fmt_parts(a[1])
            R.check(bool(p) and p[0] == pre and len(p) == 2 and p[1][1] == key, "m-look", c.where, "a variable is looked up by its full name", f"{[x if isinstance(x, str) else show(x[1])[:40] for x in p or []]}")
        hit = lambda x: x[0] == "call" and re.search(r"Map(<.*>)?::get$", x[1])
        for cd, t in C.ret_cases(g):
            for x in alts(t):
                if not cd:
                    continue
                R.check(has(x, lambda y: y[0] == "ok" and hit(y[1])) or has(x, lambda y: y == key) and not has(x, hit), "m-key", g.relfile, "and stands for its key, an unknown one for itself", show(x)[:100])
        R.check(any(has(t, lambda y: y[0] == "ok" and hit(y[1])) for cd, t in C.ret_cases(g) if cd), "m-key", g.relfile, "a known one stands for its key")
    R.floor(found, 1, "variable lookups")


def unquote(s):
    return s[1:-1] if len(s) >= 2 and s[0] in "'\"" else s


def codecs(R, F):
    CB = "utils::byte_nums::CnosByteNumber::"
    C = Cond(F, no_inline=r"CnosByteNumber::\w+$")
    b = R.body("config::codec::bytes_num::serialize")
    v = P(b.id, 1)
    s = own_sites(C, b, lambda c: re.search(r"::serialize_\w+$", c.name))
    R.check(len(s) == 1, "c-write", b.relfile, "one text is written")
    for c, a, cd in s:
        plain = c.name.endswith("serialize_u64") and a[1] == v
        R.check(plain or c.name.endswith("serialize_str") and a[1][0] == "call" and a[1][1].endswith("format_bytes") and a[1][2][0] == v, "c-write", c.where, "the number's text is written", show(a[1])[:80])
    b = R.body("config::codec::bytes_num::deserialize")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for x in alts(t):
            p = [y for y in walk(x) if y[0] == "call" and y[1].endswith("parse_bytes")]
            R.check(len(p) == 1 and x in (p[0], ("ok", p[0])) or x[0] == "agg" and p and x[2] == (("ok", p[0]),), "c-read", b.relfile, "what is parsed is read", show(x)[:80])
            R.check(bool(p) and has(p[0][2][0], lambda y: y[0] == "ok" and y[1][0] == "call" and "deserialize" in y[1][1]), "c-read", b.relfile, "from the text", show(x)[:80])
    b = R.body(CB + "format_bytes")
    n = P(b.id, 1)
    m = 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        m += 1
        p = fmt_parts(t)
        if p is not None:
            arg = [x for x in p if not isinstance(x, str)]
            R.check(len(arg) == 1 and arg[0] is p[0] and arg[0][0] == "display" and arg[0][1] == n and "".join(x for x in p if isinstance(x, str)).strip() in ("", "B"), "c-full", b.relfile, "the bytes in full", f"{[x if isinstance(x, str) else x[0] for x in p]}")
            continue
        isp = lambda x: x[0] == "call" and x[1].endswith("parse_bytes") and x[2][0] == t
        for cj in cd:
            R.check(rels(cj, lambda x: x[0] == "ok" and isp(x[1]), n) <= {"="} and any(l[0][0] == "disc" and isp(l[0][1]) and ("0" in l[1]) == l[2] for l in cj), "c-exact", b.relfile, "a text in another unit only if it is parsed back to the number", f"{show(t)[:80]} if {show_dnf(frozenset([cj]))[:160]}")
    R.floor(m, 1, "texts of a byte number")
    b = R.body(CB + "parse_bytes")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        R.check(has(t, lambda x: x[0] == "call" and x[1].endswith("Byte::parse_str") and has(x[2][0], lambda y: y == P(b.id, 1))) and has(t, lambda x: True), "c-parse", b.relfile, "the text is parsed as bytes", show(t)[:80])
    cl = [F.get(i) if isinstance(i, str) else i for i in F.family(b.id)]
    for c, a, cd in [y for g in cl if g is not None for y in own_sites(C, g, lambda c: c.name.endswith("Byte::parse_str"))]:
        R.check(show(a[1]) in ("true", "1"), "c-case", c.where, "in either case", show(a[1]))
    outs = [c.name for g in cl if g is not None for c in g.calls() if re.search(r"Byte::as_\w+$", c.name)]
    R.check(outs == ["byte_unit::byte::Byte::as_u64"] or [x.rsplit("::", 1)[1] for x in outs] == ["as_u64"], "c-u64", b.relfile, "all of them", f"{outs}")
    keep = own_sites(C, b, lambda c: re.search(r"::(retain|replace|trim\w*|chars|filter)$", c.name))
    for c, a, cd in keep:
        if c.name.endswith("::retain"):
            g = F.get(closure_id(a[1]))
            ok = g is not None and all(set(re.findall(r"'(.)'|\b(95)\b", show(t) + show_dnf(cd))) <= {("_", ""), ("", "95")} for cd, t in C.ret_cases(g))
            R.check(ok, "c-sep", c.where, "only separators are removed")
    b = R.body("config::codec::duration::serialize")
    s = own_sites(Cond(F), b, lambda c: re.search(r"::serialize_\w+$", c.name))
    R.check(len(s) == 1 and has(s[0][1][1], lambda x: x[0] == "call" and x[1] == "humantime::duration::format_duration" and x[2][0] == P(b.id, 1)), "c-dur", b.relfile, "a duration is written by humantime", show(s[0][1][1])[:80] if s else "")
    b = R.body("config::codec::duration::deserialize")
    for cd, t in Cond(F).ret_cases(b):
        if not cd or is_err(t):
            continue
        p = [y for y in walk(t) if y[0] == "call" and y[1] == "humantime::duration::parse_duration"]
        R.check(len(p) == 1 and t in (p[0], ("ok", p[0])) and has(p[0][2][0], lambda y: y[0] == "call" and "deserialize" in y[1]), "c-dur", b.relfile, "and read by humantime", show(t)[:80])
