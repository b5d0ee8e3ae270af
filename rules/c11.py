"""HTTP body encodings: decode inverts encode, per variant."""
import re
from va.cond import Cond, TRUE, konst, show_dnf, dominated
from va.terms import walk, show
from va.lib import *
from va.results import dropped

PKGS = ["http_protocol"]
CRATES = ["http_protocol"]
RULE = """For every encoding variant, under the path condition selecting that variant: (1) encode calls compressors and decode
decompressors of exactly one codec family, and it is the same family and framing in both; Identity calls none and returns its
input.  (2) The codec is fed the whole input (no slice other than the full range) and nothing else.  (3) What is returned is the
codec's output sink; a sink that outlives the call (thread-local) is cleared on every path before the codec writes to it.
(4) No Result of a call is dropped, and write-side codecs are finished.  (5) The header name of each variant is the protocol's, the
names are distinct, the header value is built from the same name, and parsing picks the variant with the equal name."""

E = "http_protocol::encoding::Encoding::"
FAM = [("Gzip", "gzip", r"flate2::gz::\w+::Gz(Encoder|Decoder)|flate2::\w+::(Multi)?Gz(Encoder|Decoder)"), ("Deflate", "deflate", r"flate2::deflate::\w+::Deflate(Encoder|Decoder)|flate2::\w+::Deflate(Encoder|Decoder)"),
       ("Zlib", None, r"flate2::zlib|Zlib(Encoder|Decoder)"), ("Brotli", "br", r"brotli"), ("Zstd", "zstd", r"zstd"),
       ("Snappy", "snappy", r"snap::(read|write)::Frame(Encoder|Decoder)"), ("SnapRaw", None, r"snap::(raw|compress|decompress)::"),
       ("LZ4", "lz4", r"lz4_flex::frame"), ("LZ4Block", None, r"lz4_flex::block")]
ENC = re.compile(r"Encoder|[cC]ompress(?!ion)|copy_encode|encode_all")
DEC = re.compile(r"Decoder|[dD]ecompress|copy_decode|decode_all")
CTOR = re.compile(r"(Encoder|Decoder|Writer|Compressor\w*|Decompressor\w*)(<.*>)?::(new|with_\w+|auto_finish)$|::(copy_encode|copy_decode|encode_all|decode_all|bulk::\w+)$|Brotli(Compress|Decompress)\w*$")
FEED = re.compile(r"\bWrite::(write_all|write)$|io::(\w+::)*copy$|\bRead::(read_to_end|read_to_string)$")
PART = re.compile(r"Read::take$|::(truncate|split_off|split_to|split_at|split_first|drain|resize|set_len|limit|pop|remove|skip|get|first_chunk|chunks|with_capacity_limit|take_while)$")
CLEAR = re.compile(r"Vec(<.*>)?::(clear)$")


def family(s):
    r = [n for n, _, rx in FAM if re.search(rx, s)]
    return r


def run(R):
    F = R.F
    C = Cond(F)
    variants = ["Gzip", "Deflate", "Brotli", "Zstd", "Snappy", "LZ4", "Identity"]
    it = F.items.get("http_protocol::encoding::Encoding")
    R.need(it is not None, "enum Encoding not found")
    vs = [v["name"] for v in it["variants"]]
    R.check(set(variants) <= set(vs), "variants", "common/http_protocol/src/encoding.rs", "the documented encodings exist", f"variants {vs}")
    fams = {}
    for op in ("encode", "decode"):
        b = R.body(E + op)
        slf, inp = ("param", b.id, 1), ("param", b.id, 2)
        sites = C.sites(b, lambda c: not F.targets(c))

        def of(cd, i):
            return all(any(l[0] == ("disc", slf) and ((str(i) in l[1]) == l[2]) for l in cj) or not any(l[0] == ("disc", slf) for l in cj) for cj in cd) and bool(cd)
        for i, v in enumerate(vs):
            mine = [(c, a, cd) for c, a, cd in sites if compatible_with(cd, slf, i)]
            fam = {}
            for c, a, cd in mine:
                txt = (c.res if c.res and c.res != "dyn" else "") + " " + (c.fid or "") + " " + (c.self_type() or "") + " " + " ".join(c.type_args()[:1])
                if CTOR.search(c.fid or "") or CTOR.search(c.name) or FEED.search(c.fid or ""):
                    for n in family(txt):
                        d = "enc" if ENC.search(txt) and not DEC.search(txt) else "dec" if DEC.search(txt) else "?"
                        fam.setdefault(n, set()).add(d)
            fams[(op, v)] = fam
            want = "enc" if op == "encode" else "dec"
            if v == "Identity":
                R.check(not fam, f"{op}:Identity", b.relfile, "identity applies no codec", f"{fam}")
                continue
            if v not in variants:
                R.check(len(fam) == 1, f"{op}:{v}", b.relfile, "one codec per encoding", f"{fam}")
            else:
                R.check(set(fam) == {v} and fam[v] <= {want}, f"{op}:{v}", b.relfile, f"{op} of {v} uses the {v} codec in the right direction", f"{v}: {fam}")
            # (2) full input
            fed = [(c, a) for c, a, cd in mine if mentions_input(a, inp)]
            feed = [(c, a) for c, a in fed if FEED.search(c.fid or "") or CTOR.search(c.fid or "") or CTOR.search(c.name)]
            R.check(bool(feed), f"{op}-input:{v}", b.relfile, "the codec is fed the input")
            for c, a in feed:
                for x in a:
                    for y in walk(x):
                        if y[0] == "idx" and mentions(y[1], inp):
                            R.check(whole(y[2]), f"{op}-whole:{v}", c.where, "the whole input is fed", f"fed {show(y)[:100]}")
                        if y[0] == "call" and re.search(r"::(take|split_at|split_off|slice|truncate|get)$", y[1]) and any(mentions(z, inp) for z in y[2]):
                            R.bad(f"{op}-whole:{v}", c.where, f"only a part of the input is fed: {show(y)[:100]}")
                if re.search(r"\bWrite::write$", c.fid or ""):
                    R.bad(f"{op}-write:{v}", c.where, "a single write may take only a part of the input")
            # nothing along the way keeps only a part of input or output
            for c, a, cd in mine:
                part = PART.search(c.fid or "") or any(y[0] == "idx" and not whole(y[2]) for x in a for y in walk(x))
                R.check(not part, f"{op}-part:{v}", c.where, "no partial slice, limit or truncation between input, codec and result", f"{c.name} keeps only a part")
            # (3) clear before codec
            codec = [(c, a, cd) for c, a, cd in mine if CTOR.search(c.fid or "") or CTOR.search(c.name) or FEED.search(c.fid or "")]
            for c, a, cd in codec:
                if any(has(x, is_static) for x in a) or uses_static(C, c):
                    cl = [y for y in c.body.calls() if CLEAR.search(y.fid or "")]
                    R.check(dominated(c.body, c.bb, [y.bb for y in cl]), f"{op}-clear:{v}", c.where, "the shared buffer is cleared before the codec runs",
                            "the codec writes to a buffer that may hold an earlier body")
                    dirty = [y for y in c.body.calls() if re.search(r"Vec(<.*>)?::(extend\w*|push|append|insert|resize)$", y.fid or "")]
                    R.check(not dirty, f"{op}-dirty:{v}", c.where, "nothing but the codec writes to the shared buffer", f"{[y.where for y in dirty]}")
            # (4) finish for write-side codecs
            for c, a, cd in mine:
                if re.search(r"\bWrite::write_all$", c.fid or "") and family(c.name + " " + (c.self_type() or "") + " ".join(c.type_args())):
                    fin = [y for y in c.body.calls() if re.search(r"::(finish|try_finish|into_inner)$", y.fid or y.name)]
                    R.check(bool(fin) and any(reach(c.body, c.bb, y.bb) for y in fin), f"{op}-finish:{v}", c.where, "the stream is finished after the last write")
        for fb in F.family(b.id):
            for c in dropped(fb):
                R.bad(f"{op}-dropped:{(c.fid or '').rsplit('::', 1)[-1]}", c.where, f"the result of {c.name} is dropped")
        R.ok(f"{op}-results", b.relfile, "every Result is propagated")
        for cd, t in C.ret_cases(b):
            if compatible_with(cd, slf, vs.index("Identity")) and not any(compatible_with(cd, slf, j) for j in range(len(vs)) if vs[j] != "Identity"):
                R.check(mentions(t, inp) and not has(t, lambda x: x[0] == "call"), f"{op}-identity", b.relfile, "identity returns its input", show(t)[:100])
    # (5) names
    b = R.body(E + "as_str")
    names = {}
    for cd, t in C.ret_cases(b):
        for i, v in enumerate(vs):
            if compatible_with(cd, ("param", b.id, 1), i):
                names.setdefault(v, set()).add(konst(t))
    doc = {n: s for n, s, _ in FAM if s} | {"Identity": "identity"}
    for v in vs:
        R.check(len(names.get(v, ())) == 1 and (v not in doc or names[v] == {doc[v]}), f"name:{v}", b.relfile, f"{v} is named {doc.get(v)}", f"{v} is named {names.get(v)}")
    allv = [x for s in names.values() for x in s]
    R.check(len(set(allv)) == len(allv), "names-distinct", b.relfile, "no two encodings share a name", f"{allv}")
    h = R.body(E + "to_header_value")
    hs = C.sites(h, lambda c: re.search(r"HeaderValue::(from_str|from_static|from_bytes|try_from)$|TryFrom.*::try_from$", c.fid or c.name))
    got = {}
    for c, a, cd in hs:
        for c2, t in C.cases(c.body, c.args[0], (c.bb, len(c.body.blocks[c.bb]["s"]))) if c.body.id == h.id else [(TRUE, a[0])]:
            cc = C.conj(cd, c2)
            for i, v in enumerate(vs):
                if cc and compatible_with(cc, ("param", h.id, 1), i):
                    if t[0] == "call" and t[1] == E + "as_str":
                        got.setdefault(v, set()).update(names.get(v, ()))
                    else:
                        for x in ([t] if t[0] != "phi" else list(t[1])):
                            got.setdefault(v, set()).add(konst(x))
    for v in vs:
        R.check(got.get(v) == names.get(v), f"header:{v}", h.relfile, "the header value is the encoding's name", f"{v}: {got.get(v)}")
    f = R.body(E + "from_str_opt")
    rs = C.ret_cases(f)
    good = False
    find = [c for fb in F.family(f.id) for c in fb.calls() if re.search(r"Iterator::find$", c.fid or "")]
    if find and all(t[0] == "call" and t[1].endswith("::find") for _, t in rs):
        cl = closure_id(C.T.arg(find[0], 1))
        dnf = closure_true(C, cl) if cl else None
        good = bool(dnf) and len(dnf) == 1 and len(next(iter(dnf))) == 1 and all(eq_name(l, f) for l in lits(dnf)) and has(C.T.arg(find[0], 0), lambda x: x[0] == "agg" and x[1].rsplit("::", 2)[-2:] == ["EncodingIter", "EncodingIter"] or x[0] == "agg" and x[1].endswith("::EncodingIter") or x[0] == "call" and re.search(r"Encoding(Iter)?( as .*)?>?::iter$|IntoEnumIterator.*::iter$|::iterator$", x[1]))
        if not good:
            R.bad("parse", f.relfile, f"from_str_opt accepts {show_dnf(dnf) if dnf else '?'}")
    else:
        # a match on the string
        seen = {}
        for cd, t in C.full_cases(f):
            from va.cond import variant_index
            if variant_index(t) == "1":
                v = t[2][0][1].rsplit("::", 1)[-1] if t[2] and t[2][0][0] == "agg" else None
                ks = {konst(z) for l in lits(cd) if l[2] and l[0][0] == "bin" and l[0][1] == "Eq" for z in l[0][2:4]} - {None}
                seen.setdefault(v, set()).update(ks)
        loop = [(cd, t) for cd, t in rs if t[0] == "agg" and t[1].endswith("::Some")]
        good = all(seen.get(v) == names.get(v) for v in vs) or \
            bool(loop) and all(forced(cd, lambda *l: eq_name(l, f) and mentions(l[0], t[2][0])) and has(t[2][0], lambda x: x[0] == "agg" and x[1].endswith("EncodingIter")) for cd, t in loop)
        R.check(good, "parse", f.relfile, "each name parses to its encoding", f"{seen}")
    if good:
        R.ok("parse", f.relfile, "a name parses to the encoding with that name, other names to none")


def eq_name(l, f):
    t, vs, p = l
    if not (t[0] == "bin" and t[1] == "Eq" and ("1" in vs) == p):
        return False
    s = ("param", f.id, 1)
    return any(x == s and has(y, lambda z: z[0] == "call" and z[1] == E + "as_str") for x, y in ((t[2], t[3]), (t[3], t[2])))


def compatible_with(cd, slf, i):
    for cj in cd:
        good = True
        for t, vals, p in cj:
            if t == ("disc", slf) and (str(i) in vals) != p:
                good = False
        if good:
            return True
    return False


def mentions_input(args, inp):
    return any(mentions(x, inp) for x in args)


def whole(t):
    """a range over everything"""
    return "RangeFull" in show(t) or (t[0] == "agg" and "RangeFrom" in t[1] and konst(t[2][0]) == 0)


def is_static(t):
    return t[0] == "k" and "LocalKey" in str(t[1]) + str(t[2])


def uses_static(C, c):
    """the body is a closure run by LocalKey::with"""
    x = c.body
    while x is not None and "{closure#" in x.id.rsplit("::", 1)[-1]:
        u = C.T.closure_use(x)
        if u and re.search(r"LocalKey.*::with\w*$", u[0].fid or ""):
            return True
        x = C.F.get(x.id.rsplit("::{", 1)[0])
    return False


def reach(body, a, b):
    seen, st = set(), list(body.succs(a))
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(body.succs(x))
    return False
