"""Bloom filter: no false negatives."""
import re
from va.cond import Cond, TRUE, konst, show_dnf, dominated
from va.terms import walk, show
from va.lib import *

PKGS = ["utils"]
CRATES = ["utils"]
RULE = """(1) The bits insert sets and the bits maybe_contains tests are the same terms over (filter state, data, hasher): same hasher
list built fresh in the call, the same writes to the hasher before its hash is taken, the same byte index and bit mask.
(2) insert sets that bit by or-ing it into the byte, for every hasher; maybe_contains answers false only when a tested bit is zero.
(3) Nothing else changes the bit array or the mask, and no source of per-call state (random hasher, static, clock) feeds them.
(4) In both constructions the mask is one less than the number of bits, the number of bits being eight times the array's
length, and restoring from bytes whose length is a power of two keeps the length."""
B = "utils::bloom_filter::BloomFilter::"
WRITE = re.compile(r"\bHasher(<.*>)?>?::write\w*$|Hash(<.*>)?>?::hash(_slice)?$")
FIN = re.compile(r"\bHasher(<.*>)?>?::finish$")
IXM = re.compile(r"IndexMut(<.*>)?>?::index_mut$|get_unchecked_mut$|::get_mut$")
STATE = re.compile(r"RandomState|thread_rng|rand::|Instant|SystemTime|LocalKey|OnceCell|Lazy|atomic")


def bits_set(R, C, b):
    """(byte index term, bit term, bb) of every b[i] |= m reachable (with what it calls) from body b"""
    out = []

    def local(x):
        r = []
        for bb, i, dst, v in deref_stores(C, x):
            if dst[0] == "idx":
                r.append(((x, bb, i), bb, lambda dst=dst, v=v: [dst, v]))
        return r
    return C.events(b, local)


def through(x):
    """a hasher behind a reference or a box is that hasher"""
    if isinstance(x, frozenset):
        return frozenset(through(y) for y in x)
    if not isinstance(x, tuple):
        return x
    if x and x[0] == "call" and re.search(r"^<(&mut H|alloc::boxed::Box(<.*>)?) as core::hash::Hasher>::", x[1]):
        return ("call", "core::hash::Hasher::" + x[1].rsplit("::", 1)[1], tuple(through(y) for y in x[2])) + tuple(x[3:])
    return tuple(through(y) for y in x)


def run(R):
    F = R.F
    C = Cond(F, no_inline=r"^utils::bloom_filter::BloomFilter::hashers$")
    ins, con = R.body(B + "insert"), R.body(B + "maybe_contains")
    subs = [(("param", ins.id, 1), ("self",)), (("param", ins.id, 2), ("data",)), (("param", con.id, 1), ("self",)), (("param", con.id, 2), ("data",))]
    cn = lambda t: through(canon(t, subs, unsigned=True))
    arr = ("fld", "b", ("self",))
    sets = []
    for p, (dst, v), cd, _ in bits_set(R, C, ins):
        dst, v = cn(dst), cn(v)
        if dst[1] != arr:
            continue
        good = v[0] == "bin" and v[1] == "BitOr" and dst in (v[2], v[3])
        R.check(good, "insert-or", f"{p[0].relfile}", "a bit is set by or-ing it into its byte", f"{show(dst)[:80]} = {show(v)[:160]}")
        if good:
            sets.append((dst[2], v[3] if v[2] == dst else v[2]))
        R.check(all(is_loop(l) for l in lits(cd)), "insert-always", ins.relfile, "a bit is set for every hasher", f"only if {show_dnf(cd)[:200]}")
    R.check(bool(sets), "insert-sets", ins.relfile, "insert sets bits")
    tests = []
    for cd, t in C.full_cases(con):
        k = konst(t)
        if k is True:
            continue
        if k is False:
            for cj in cd:
                zs = [z for z in (bit_zero(cn(l[0]), l, arr) for l in cj) if z]
                R.check(bool(zs), "contains-false", con.relfile, "absent is answered only when a tested bit is zero", f"false if {show_dnf(frozenset([cj]))[:300]}")
                tests.extend(zs)
        else:
            # `all(|..| bit set)` form
            z = all_form(C, t, con, cn, arr)
            R.check(bool(z), "contains-answer", con.relfile, "the answer is whether all bits are set", show(t)[:160])
            tests.extend(z or [])
    R.check(bool(tests), "contains-tests", con.relfile, "maybe_contains tests bits")
    R.check(set(tests) <= set(sets), "same-bits", con.relfile, "every tested bit is one that insert sets", f"tested {[(show(i)[:160], show(m)[:60]) for i, m in set(tests) - set(sets)]}, set {[(show(i)[:160], show(m)[:60]) for i, m in set(sets)]}")
    for i, m in sets:
        R.check(mentions(i, ("data",)) or has(i, lambda x: x[0] == "call"), "bit-of-data", ins.relfile, "the bit depends on the data", show(i)[:100])
        for x in list(walk(i)) + list(walk(m)):
            s = x[1] if x[0] == "call" else (str(x[1]) + str(x[2])) if x[0] == "k" else ""
            R.check(not STATE.search(s) and not (x[0] == "k" and s.startswith("const alloc")), "pure-bit", ins.relfile, "no per-call state feeds the bit", s[:100])
    # the hash is taken after the same writes
    seq = {}
    for nm, b in (("insert", ins), ("contains", con)):
        w = C.sites(b, lambda c: WRITE.search(c.name) or WRITE.search(c.fid or ""))
        f = C.sites(b, lambda c: FIN.search(c.name) or FIN.search(c.fid or ""))
        seq[nm] = sorted((str(canon_arg(cn, a)), c.fid.rsplit("::", 1)[-1]) for c, a, cd in w)
        R.check(bool(w) and bool(f) and all(any(y.body.id == c.body.id and dominated(c.body, c.bb, [y.bb]) for y, _, _ in w) for c, _, _ in f), f"hash-after-write:{nm}", b.relfile, "the hash is taken after the data was written")
        for c, a, cd in w:
            R.check(all(is_loop(l) for l in lits(cd)) and any(mentions(cn(x), ("data",)) for x in a[1:] or a), f"hash-data:{nm}", c.where, "every hasher gets the data", show_dnf(cd)[:160])
            h = cn(a[0])
            R.check(has(h, lambda x: x[0] == "call"), f"hash-fresh:{nm}", c.where, "the hasher is made in this call", show(h)[:100])
    R.check(seq["insert"] == seq["contains"], "hash-same", con.relfile, "both write the same to the hasher", f"{seq}")
    hb = R.body(B + "hashers") if F.has(B + "hashers") else None
    if hb is not None:
        for fb in F.family(hb.id):
            for c in fb.calls():
                R.check(not STATE.search(c.name), "hashers-pure", c.where, "hashers start from a fixed state", c.name)
            for bb in fb.reachable():
                for s in fb.blocks[bb]["s"]:
                    if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and STATE.search(str(s[2][1][1]) + str(fb.tys[s[2][1][2]])):
                        R.bad("hashers-pure", fb.relfile, "hashers come from shared state")
    # (3) other writers
    n = 0
    for x in F.bodies("utils", pat=r"^utils::bloom_filter::|^<utils::bloom_filter::"):
        if "::test" in x.id:
            continue
        n += 1
        own = F.owner(x.id)
        if own.startswith("<") or own in (B + "new", B + "with_data"):
            continue
        for p, _, _ in C.writes(x, "b|mask", closures=False):
            R.bad(f"writer:{own}", x.relfile, f"{own} replaces {p[3]}")
        if own != B + "insert":
            called_only_by_insert = {F.owner(c.body.id) for c in F.callers().get(own, [])} == {B + "insert"}
            for c in x.calls():
                if (IXM.search(c.name) or re.search(r"Vec(<.*>)?::(clear|truncate|resize|push|pop|swap|fill|remove|drain|split_off)$|\[T\]::(fill|swap|reverse|rotate_\w+|copy_from_slice|sort\w*)$", c.fid or "")) and C.T.args(c) and mentions(C.T.arg(c, 0), ("fld", "b", ("param", own, 1))):
                    R.check(called_only_by_insert, f"writer:{own}", c.where, "only insert changes the bits", f"{own} changes the bits through {c.name}")
    for c in ins.calls():
        if re.search(r"Vec(<.*>)?::(clear|truncate|resize|push|pop|fill|remove|drain|split_off)$|\[T\]::(fill|swap|reverse|rotate_\w+|copy_from_slice|sort\w*)$", c.fid or ""):
            R.check(not mentions(C.T.arg(c, 0), ("fld", "b", ("param", ins.id, 1))), "insert-only-or", c.where, "insert only or-s bits in", c.name)
    R.floor(n, 8, "bloom filter functions")
    # (4) constructions
    from va.terms import getf
    K = Cond(F, no_inline=r"BloomFilter::pow2$")
    b = R.body(B + "new")
    for cd, t in K.ret_cases(b):
        bb, mm = getf(t, "b"), getf(t, "mask")
        ln = vec_len(bb)
        bits = minus1(mm)
        R.check(ln is not None and bits is not None and times8(strip(ln), strip(bits)), "new-size", b.relfile, "as many bits as eight times the array's length, the mask one less", f"array {show(bb)[:120]}, mask {show(mm)[:120]}")
        R.check(any(x[0] == "call" and re.search(r"pow2$|next_power_of_two$", x[1]) for x in walk(mm)), "new-pow2", b.relfile, "the number of bits is a power of two", show(mm)[:120])
    if F.has(B + "pow2"):
        pb = R.body(B + "pow2")
        R.check(pow2_only(F, pb), "pow2-steps", pb.relfile, "the number of bits starts at a power of two and is only multiplied by powers of two", "pow2 may return another number")
    b = R.body(B + "with_data")
    data = ("param", b.id, 1)
    for cd, t in K.ret_cases(b):
        bb, mm = getf(t, "b"), getf(t, "mask")
        bits = minus1(mm)
        R.check(bb == data or mentions(bb, data), "restore-bytes", b.relfile, "the array starts with the given bytes", show(bb)[:100])
        L = eight_of(strip(bits)) if bits is not None else None
        R.check(L is not None, "restore-mask", b.relfile, "the mask is eight times the length less one", show(mm)[:160])
        if L is None:
            continue
        for l in ([L] if L[0] != "phi" else list(L[1])):
            l = strip(l)
            keep = islen(l, data) or l[0] == "call" and l[1].endswith("next_power_of_two") and islen(strip(l[2][0]), data) or \
                l[0] == "call" and l[1] == B + "pow2" and islen(strip(l[2][0]), data) and pow2_from_one(C, F)
            R.check(keep, "restore-length", b.relfile, "a power-of-two length is kept, so the bits are looked up where they were set",
                    f"the restored length is {show(l)[:120]}, which is not the given length for every power of two")
        rs = K.sites(b, lambda c: re.search(r"Vec(<.*>)?::(resize|resize_with|truncate|extend\w*)$", c.fid or ""))
        for c, a, cd2 in rs:
            R.check(c.fid.endswith("resize") and strip(a[1]) == L and konst(a[2]) == 0 and all(len_ne(l, data, L) for l in lits(cd2)), "restore-resize", c.where, "the array is extended with zeros to that length",
                    f"{c.name}({', '.join(show(x)[:60] for x in a[1:])}) if {show_dnf(cd2)[:120]}")
        R.check(bool(rs) or islen(L, data), "restore-extended", b.relfile, "the array has the length the mask was made for")


def canon_arg(cn, a):
    return tuple(cn(x) for x in a[1:])


def is_loop(l):
    t = l[0]
    return t[0] == "disc" and (l[1] & {"0", "1"})


def bit_zero(ct, l, arr):
    """(index, mask) when the literal says that the bit is zero"""
    t, vs, p = ct, l[1], l[2]
    if t[0] == "bin" and t[1] == "Eq" and ("1" in vs) == p:
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if konst(y) == 0 and x[0] == "bin" and x[1] == "BitAnd":
                for u, m in ((x[2], x[3]), (x[3], x[2])):
                    if u[0] == "idx" and u[1] == arr:
                        return (u[2], m)
    if t[0] == "bin" and t[1] == "BitAnd" and ("0" in vs) == p:
        for u, m in ((t[2], t[3]), (t[3], t[2])):
            if u[0] == "idx" and u[1] == arr:
                return (u[2], m)
    if t[0] == "bin" and t[1] == "Lt" and ("1" in vs) != p and konst(t[2]) == 0:
        return bit_zero(("bin", "Eq", t[3], t[2]), (None, frozenset(["1"]), True), arr)
    if t[0] == "bin" and t[1] == "Eq" and ("1" in vs) != p:
        # (b & m) == m is false
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x[0] == "bin" and x[1] == "BitAnd" and y in (x[2], x[3]):
                u = x[2] if y == x[3] else x[3]
                if u[0] == "idx" and u[1] == arr:
                    return (u[2], y)
    return None


def all_form(C, t, con, cn, arr):
    neg = False
    while t[0] == "un" and t[1] == "Not":
        t, neg = t[2], not neg
    if t[0] != "call" or not re.search(r"::(all|any)$", t[1]):
        return None
    if t[1].endswith("::any") != neg:
        return None
    cl = closure_id(t[2][1])
    if cl is None:
        return None
    b = C.F.get(cl)
    out = []
    for cd, v in C.ret_cases(b):
        want = [True] if neg else [False]
        z = C.conj(cd, C.norm(v, ["1"], want[0]))
        for cj in z:
            zs = [z for z in (bit_zero(cn(l[0]), l, arr) for l in cj) if z]
            if not zs:
                return None
            out.extend(zs)
    return out


def strip(t):
    while t[0] == "cast" and re.match(r"^[ui](64|size)$", t[1]):
        t = t[2]
    return t


def islen(t, data):
    t = strip(t)
    return t[0] == "call" and t[1].endswith("::len") and t[2][0] == data


def minus1(t):
    t = strip(t)
    if t[0] == "bin" and t[1] == "Sub" and konst(t[3]) == 1:
        return t[2]
    return None


def eight_of(t):
    if t[0] == "bin":
        if t[1] == "Shl" and konst(t[3]) == 3:
            return strip(t[2])
        if t[1] == "Mul":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if konst(y) == 8:
                    return strip(x)
    return None


def times8(ln, bits):
    """bits == 8 * ln"""
    e = eight_of(bits)
    if e is not None and e == ln:
        return True
    if ln[0] == "bin" and (ln[1] == "Shr" and konst(ln[3]) == 3 or ln[1] == "Div" and konst(ln[3]) == 8):
        return strip(ln[2]) == bits
    return False


def vec_len(t):
    if t[0] == "call" and re.search(r"from_elem$", t[1]) and konst(t[2][0]) == 0:
        return t[2][1]
    return None


def len_ne(l, data, L):
    t, vs, p = l
    return t[0] == "bin" and t[1] in ("Eq", "Lt") and any(islen(x, data) for x in t[2:4]) and any(strip(x) == L for x in t[2:4])


def pow2_from_one(C, F):
    b = F.get(B + "pow2")
    return any(konst(t) == 1 for cd, t in C.ret_cases(b)) if b else False


ARITH = ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor")


def pow2_only(F, b):
    """every value that reaches the result is a power of two: constants, products and shifts of such values, next_power_of_two"""
    import re as _re
    from va.core import place
    seen = {}

    def k2(o):
        if o[0] != "k":
            return False
        m = _re.match(r"^(?:const )?(\d[\d_]*?)(?:_?[iu]\d+|_?[iu]size)?$", str(o[1]).strip())
        v = int(m.group(1).replace("_", "")) if m else 0
        return v > 0 and v & (v - 1) == 0

    def op(o):
        if o[0] == "k":
            return k2(o)
        l, p = place(o[1])
        return loc(l)

    def family_steps():
        for x in F.family(b.id):
            if x.id == b.id:
                continue
            for bb in x.reachable():
                for s in x.blocks[bb]["s"]:
                    if s[0] == "=" and s[2][0] == "bin":
                        n = s[2][1].replace("WithOverflow", "").replace("Unchecked", "")
                        if n in ARITH and not (n == "Shl" and (k2(s[2][2]) or s[2][2][0] != "k") or n == "Mul" and (k2(s[2][2]) or k2(s[2][3]))):
                            return False
        return True

    def loc(l):
        if l in seen:
            return seen[l]
        seen[l] = True          # coinductive: a loop keeps the property
        ds = b.defs().get(l, [])
        r = bool(ds)
        for bb, i, pr, kind, v in ds:
            if kind == "=":
                k = v[0]
                if k in ("use", "rep"):
                    r &= op(v[1])
                elif k == "cast":
                    r &= op(v[2])
                elif k == "ref":
                    r &= loc(place(v[2])[0])
                elif k == "agg":
                    r &= all(op(o) for o in v[2])
                elif k == "bin":
                    n = v[1].replace("WithOverflow", "").replace("Unchecked", "")
                    r &= n == "Mul" and op(v[2]) and op(v[3]) or n == "Shl" and op(v[2])
                else:
                    r = False
            else:
                c = b.call_at(bb)
                f = c.fid or ""
                if f.endswith("next_power_of_two"):
                    continue
                if _re.search(r"::(max|min|checked_mul|wrapping_mul|saturating_mul|Mul::mul)$", f):
                    r &= all(op(a) for a in c.args)
                elif _re.search(r"::(pow|checked_pow|checked_shl|wrapping_shl)$", f):
                    r &= op(c.args[0])
                elif _re.search(r"::(unwrap|expect|unwrap_or_default|branch|clone|from|into)$", f):
                    r &= op(c.args[0])
                elif _re.search(r"iter::|Iterator", f + c.name):
                    r &= family_steps()
                else:
                    r = False
        seen[l] = r
        return r
    return loc(0)
