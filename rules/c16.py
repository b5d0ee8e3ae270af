"""One series, one replication set: every way of writing a row derives the same hash from the same series, and every row is sent once."""
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from rules.c33 import call, unok

PKGS = ["utils", "models", "protocol_parser", "coordinator", "meta"]
CRATES = ["utils", "models", "protocol_parser", "coordinator", "meta"]
RULE = """(1) BkdrHasher: starts at 0, folds each byte in order with wrapping arithmetic over state and byte only, number() is the state.
(2) Each series hash: the events on the hasher, in order, are table, then for every tag of the row its key and its value, of the same element;
the result is that hasher's number; the tags were sorted by their key before, on every way. (3) Every Line a parser or conversion hands out was
hashed (no way from where it is made to where it is pushed or returned avoids the hash). (4) The replication set of a row is asked for with the
row's own hash and its timestamp in the database's precision; each row goes into exactly the group of that set; each group is sent to its own set;
all results are awaited and propagated. (5) vnode_for is a function of the hash and the bucket alone; the bucket holding the timestamp is used,
else one is created for it."""
NI = r"BkdrHasher|locate_replic|timestamp_convert|tenant_meta|get_precision|create_bucket|bucket_by_timestamp|line_to_batches|mutable_batches|arrow_array_to|push_points_to_requests|get_db_schema|write_replica_by_raft|limiter|check_coord"
HB = "utils::bkdr_hash::BkdrHasher::"
HW = "<utils::bkdr_hash::BkdrHasher as core::hash::Hasher>::write"
LN = "protocol_parser::Line"
SV = "<coordinator::service::CoordService as coordinator::Coordinator>::"


def P(f, n):
    return ("param", f, n)


def core(F, fid):
    b = F.get(fid)
    while b is not None and not b.co:
        c = F.get(b.id + "::{closure#0}")
        if c is None or not c.co:
            break
        b = c
    return b


def run(R):
    F = R.F
    hasher(R, F)
    recipes(R, F)
    hashed(R, F)
    groups(R, F)
    locate(R, F)


# ---------------------------------------------------------------- hasher
def hasher(R, F):
    C = Cond(F)
    b = F.get(HW)
    ws = [(p, a, cd) for p, a, cd in C.writes(b, r"^number$")]
    ok = False
    if len(ws) == 1:
        v = ws[0][1][0]
        me, by = P(b.id, 1), P(b.id, 2)
        leaves = [x for x in walk(v) if x[0] in ("param",)]
        ok = v[0] == "call" and "wrapping_" in v[1] and has(v, lambda x: x == ("fld", "number", me)) and has(v, lambda x: each_of(x, by)) and \
            set(leaves) <= {me, by} and all(x[0] != "call" or re.search(r"wrapping_|iter|next|from|into", x[1]) for x in walk(v))
        cd = ws[0][2]
        ok = ok and bool(cd) and all(all(t[0] == "disc" or t[0] == "bin" for t, _, _ in cj) and len(cj) == 1 for cj in cd)
    R.check(ok, "h-fold", b.relfile, "each byte changes the state by a function of state and byte", "; ".join(show(w[1][0])[:120] for w in ws) or "no write")
    every_byte(R, F, b)
    b = F.get(HB + "hash_with")
    cs = [(c, C.T.args(c)) for c in b.calls() if c.res == HW or (c.fid or "").endswith("Hasher::write")]
    R.check(len(cs) == 1 and cs[0][1] == [P(b.id, 1), P(b.id, 2)], "h-with", b.relfile, "hash_with writes its bytes, once")
    for n in ("number",):
        b = F.get(HB + n)
        rs = {t for cd, t in C.ret_cases(b) if cd}
        R.check(rs == {("fld", "number", P(b.id, 1))}, "h-number", b.relfile, "number() is the state", str([show(x)[:60] for x in rs]))
    b = F.get(HB + "new")
    rs = [getf(t, "number") for cd, t in C.ret_cases(b) if cd]
    R.check(len(rs) == 1 and rs[0] is not None and konst(rs[0]) == 0, "h-new", b.relfile, "a new hasher starts at 0")


def every_byte(R, F, b):
    C = Cond(F)
    n = 0
    for c in b.calls():
        if (c.fid or "").endswith("iterator::Iterator::next") or (c.fid or "").endswith("Iterator::for_each"):
            it = C.T.arg(c, 0)
            n += 1
            names = [x[1].split("::")[-1] for x in walk(it) if x[0] == "call"]
            R.check(set(names) <= {"iter", "into_iter", "as_ref", "copied", "cloned", "deref"} and has(it, lambda x: x == P(b.id, 2)), "h-all", c.where, "all bytes are walked", str(names))
    R.check(n == 1, "h-loop", b.relfile, "the bytes are walked in one loop", str(n))


# ---------------------------------------------------------------- recipes
def ishash(c):
    return c.res == HW or (c.fid or "") == HB + "hash_with" or (c.res or "") == HB + "hash_with"


def plain(t):
    """bytes of a value without conversions that keep them"""
    while t[0] == "call" and re.search(r"::(as_bytes|as_ref|deref|as_str|borrow|as_slice|clone|into_bytes|to_vec|to_string|to_owned|into|from)$", t[1]) and len(t[2]) == 1:
        t = t[2][0]
    return t


def unchain(t):
    """the hasher behind h.hash_with(..).hash_with(..)"""
    while call(t, "BkdrHasher::hash_with"):
        t = t[2][0]
    return t


def recipe(R, F, C, b, key, table, tags, kf, vf, what):
    """returns (hasher term, events)"""
    evs = [(c, [unchain(a[0])] + list(a[1:]), cd, ch) for c, a, cd, ch in call_events(C, b, ishash)]
    hs = {e[1][0] for e in evs}
    R.check(len(hs) == 1, f"{key}:one", b.relfile, f"{what}: one hasher", str([show(h)[:60] for h in hs]))
    if len(evs) != 3 or len(hs) != 1:
        R.check(False, f"{key}:events", b.relfile, f"{what}: table, key and value are hashed", str([show(e[1][1])[:60] for e in evs]))
        return None, evs
    h = hs.pop()
    R.check(h[0] == "call" and h[1] == HB + "new", f"{key}:fresh", b.relfile, f"{what}: the hasher is a new one", show(h)[:80])
    o = in_order(F, evs)
    R.check(o is not None, f"{key}:order", b.relfile, f"{what}: the events have one order")
    if o is None:
        return h, evs
    t0, t1, t2 = [plain(e[1][1]) for e in o]
    R.check(table(t0), f"{key}:table", o[0][0].where, f"{what}: the table comes first", show(t0)[:80])
    e1, e2 = (t1[2] if t1[0] == "fld" and str(t1[1]) == kf else None), (t2[2] if t2[0] == "fld" and str(t2[1]) == vf else None)
    R.check(e1 is not None and e1 == e2 and tags(e1), f"{key}:tags", o[1][0].where, f"{what}: then key and value of the same tag", f"{show(t1)[:80]} / {show(t2)[:80]}")
    R.check(o[1][2] == o[2][2], f"{key}:both", o[2][0].where, f"{what}: key and value under the same condition")
    c0 = {frozenset(l for l in cj) for cj in o[0][2]}
    for cj in o[1][2]:
        base = next((x for x in c0 if x <= cj), None)
        extra = [l for l in cj if base is None or l not in base]
        R.check(base is not None and all(t[0] in ("disc", "bin") and (has(t, lambda x: e1 is not None and x == e1) or e1 is not None and mentions(e1, t[1] if t[0] == "disc" else t)) for t, v, p in extra), f"{key}:every", o[1][0].where,
                f"{what}: every tag takes part", str([show(t)[:80] for t, _, _ in extra]))
    lk, lv = o[1][0], o[2][0]
    every_item(R, F, b.id, lambda it: e1 is not None and e1[0] in ("ok", "idx") and mentions(e1, it), lambda c: {"k"} if c.bb == lk.bb and c.body.id == lk.body.id else {"v"} if c.bb == lv.bb and c.body.id == lv.body.id else set(), ["k", "v"], f"{key}:items", f"{what}, tags")
    return h, o


def late(F, x, y, h):
    """x comes before y in every use of the hasher made at h"""
    if ev_before(F, x, y):
        return True
    for (f1, b1), (f2, b2) in zip(x, y):
        if f1 != f2:
            return False
        if b1 != b2:
            b = F.get(f1)
            stop = {h[3][1]} if h is not None and h[0] == "call" and h[3][0] == f1 else set()
            return freely(b, b1, b2, stop) and not freely(b, b2, b1, stop)
    return False


def sorted_before(R, F, C, b, key, isvec, kf, first, what):
    """an ascending sort by the tag's key on every way to the block `first`"""
    n, good = 0, []
    for c, a, cd, ch in call_events(C, b, lambda c: re.search(r"::(sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$", c.fid or "") is not None):
        if not isvec(a[0]):
            continue
        n += 1
        cid = closure_id(a[1]) if len(a) > 1 else None
        cb = F.get(cid) if cid else None
        ok = False
        if cb is not None:
            rs = [t for x, t in C.ret_cases(cb) if x]
            if "key" in (c.fid or "").split("::")[-1]:
                ok = bool(rs) and all(plain(t)[0] == "fld" and str(plain(t)[1]) == kf and plain(t)[2] == P(cid, 2) for t in rs)
            else:
                k = lambda n: ("fld", kf, P(cid, n))
                ok = bool(rs) and all(asc(t, k(2), k(3)) for t in rs)
        R.check(ok, f"{key}:sortkey", c.where, f"{what}: the tags are sorted by key, ascending", str([show(t)[:80] for t in rs]) if cb is not None else "no closure")
        if ch[0][0] == first[0] and (ch[0][1] == first[1] or dominated(F.get(first[0]), first[1], [ch[0][1]])):
            good.append(ch)
    R.check(bool(good), f"{key}:sorted", b.relfile, f"{what}: the tags are sorted before they are hashed", f"{n} sorts")
    return good


def asc(t, x, y):
    t = plain(t)
    while t[0] == "ok":
        t = t[1]
    if t[0] == "call" and re.search(r"::(cmp|partial_cmp)$", t[1]) and len(t[2]) == 2:
        return plain(t[2][0]) == x and plain(t[2][1]) == y
    if t[0] == "call" and re.search(r"::(unwrap_or|unwrap|expect)$", t[1]):
        return asc(t[2][0], x, y)
    return False


def recipes(R, F):
    C = Cond(F, no_inline=NI)
    n = 0
    for fid, tf in ((LN + "::init_hash_id", None), (LN + "::init_ordered_hash_id", None)):
        b = F.get(fid)
        me = P(fid, 1)
        n += 1
        k = fid.split("::")[-1]
        h, o = recipe(R, F, C, b, k, lambda t: t == ("fld", "table", me), lambda e: each_of(e, ("fld", "tags", me)), "0", "1", k)
        ws = [w for w in C.writes(b, r"^hash_id$")]
        R.check(len(ws) == 1 and call(ws[0][1][0], "BkdrHasher::number") and ws[0][1][0][2][0] == h and ws[0][1][1] == me, f"{k}:store", b.relfile, f"{k}: hash_id is the hasher's number", str([show(w[1][0])[:80] for w in ws]))
        zero = lambda cd: cd and all(len(cj) == 1 and all(t[0] == "bin" and t[1] in ("Eq", "Ne") and ("fld", "hash_id", me) in (t[2], t[3]) for t, _, _ in cj) or not cj for cj in cd)
        R.check(bool(ws) and zero(ws[0][2]), f"{k}:always", b.relfile, f"{k}: an unhashed line is always hashed", show_dnf(ws[0][2])[:120] if ws else "")
        if o and ws:
            last = call_events(C, b, lambda c: (c.fid or "") == HB + "number")
            R.check(len(last) == 1 and all(late(F, e[3], last[0][3], h) for e in o), f"{k}:after", b.relfile, f"{k}: the number is taken after all tags")
        if k == "init_hash_id" and o:
            sorted_before(R, F, C, b, k, lambda t: t == ("fld", "tags", me), "0", o[0][3][0], k)
    # the one that does not sort is only reached after a sort
    callers = []
    for b in all_bodies(F):
        for c in b.calls():
            if c.fid == LN + "::init_ordered_hash_id":
                callers.append((b, c))
    for b, c in callers:
        a = C.T.arg(c, 0)
        sorted_before(R, F, C, b, f"ordered:{b.id.split('::')[-1]}", lambda t: t == ("fld", "tags", a), "0", (b.id, c.bb), b.id)
    for fid, table, tags in (("models::series_info::SeriesKey::hash", lambda f: ("fld", "table", P(f, 1)), lambda f: ("fld", "tags", P(f, 1))),
                             ("models::tag::tags_hash_id", lambda f: P(f, 1), lambda f: P(f, 2))):
        b = F.get(fid)
        k = fid.split("::")[-1]
        n += 1
        h, o = recipe(R, F, C, b, k, lambda t: t == table(fid), lambda e: each_of(e, tags(fid)), "key", "value", k)
        rs = [t for cd, t in C.ret_cases(b) if cd]
        R.check(len(rs) == 1 and call(rs[0], "BkdrHasher::number") and rs[0][2][0] == h, f"{k}:store", b.relfile, f"{k} is the hasher's number", str([show(t)[:80] for t in rs]))
        last = call_events(C, b, lambda c: (c.fid or "") == HB + "number")
        R.check(bool(o) and len(last) == 1 and all(late(F, e[3], last[0][3], h) for e in o), f"{k}:after", b.relfile, f"{k}: the number is taken after all tags")
    R.floor(n, 4, "series hashes")


def all_bodies(F):
    for i in F.ids():
        b = F.get(i)
        if b is not None and b.blocks:
            yield b


# ---------------------------------------------------------------- every line is hashed
LNT = re.compile(r"(?<![A-Za-z])Line<")


def hashed(R, F):
    C = Cond(F, no_inline=".")
    bodies = [b for b in all_bodies(F) if b.id.startswith(("protocol_parser::", "<protocol_parser::")) and not re.search(r"as core::(fmt|cmp|default|clone)", b.id)]
    HASH = {LN + "::init_hash_id", LN + "::init_ordered_hash_id", LN + "::sort_dedup_and_hash"}
    raw = set()
    info = {}
    linefns = {b.id for b in bodies if LNT.search(b.lty(0)) and "Vec<" not in b.lty(0)}
    for rnd in range(3):
        for b in bodies:
            if b.id in HASH:
                continue
            src, sinks, hs = [], [], set()
            for n, blk in enumerate(b.blocks):
                if blk.get("c"):
                    continue
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and re.search(r"protocol_parser::Line$|^Line$", str(s[2][1])):
                        src.append(n)
            for c in b.calls():
                t = b.lty(int(c.dest)) if str(c.dest).isdigit() else ""
                f = c.res or c.fid or ""
                if re.search(r"default::Default.*::default$|mem::take$", f) and LNT.search(t):
                    src.append(c.bb)
                elif f in raw and f != b.id:
                    src.append(c.bb)
                if f in HASH or (c.fid or "") in HASH:
                    hs.add(c.bb)
                if re.search(r"Vec.*::(push|insert)$", f):
                    o = c.args[-1]
                    a = b.lty(int(o[1])) if o[0] in ("m", "c") and str(o[1]).isdigit() else ""
                    if LNT.search(a) and "Vec<" not in a:
                        sinks.append((c.bb, c.where))
            if b.id in linefns and (src or b.id in raw):
                for n, blk in enumerate(b.blocks):
                    if blk["t"] and blk["t"][0] == "ret":
                        sinks.append((n, b.relfile))
            info[b.id] = (b, src, sinks, hs)
            if src and b.id in linefns:
                if any(freely(b, s, k, hs) for s in src for k, _ in sinks):
                    raw.add(b.id)
    n = 0
    users = {}
    for b in all_bodies(F):
        for c in b.calls():
            if (c.res or c.fid or "") in raw:
                users.setdefault(c.res or c.fid, set()).add(b.id)
    for b, src, sinks, hs in info.values():
        if not src:
            continue
        n += 1
        if b.id in raw:
            ext = [u for u in users.get(b.id, ()) if u not in info]
            pub = not users.get(b.id)
            R.check(not ext and not pub, f"line:{b.id.split('::')[-1]}", b.relfile, f"{b.id}: lines without their hash stay inside the parsers", f"handed out unhashed to {sorted(ext) or 'everyone'}")
            continue
        bad = [w for s in src for k, w in sinks if freely(b, s, k, hs)]
        R.check(not bad and sinks, f"line:{b.id.split('::')[-1]}", bad[0] if bad else b.relfile, f"{b.id}: every line handed out was hashed")
    R.floor(n, 7, "functions that make lines")


def freely(b, x, z, hs):
    """a way from x to z that passes no hash"""
    if x in hs:
        return False
    st, vis = list(b.succs(x)), set()
    if x == z:
        return True
    while st:
        n = st.pop()
        if n in vis:
            continue
        vis.add(n)
        if n == z:
            return True
        if n in hs:
            continue
        st.extend(b.succs(n))
    return False


# ---------------------------------------------------------------- rows into groups
def groups(R, F):
    C = Cond(F, no_inline=NI)
    LOC = lambda c: (c.fid or "").endswith("TenantMeta::locate_replication_set_for_write")
    TC = lambda c: (c.fid or "").endswith("timestamp_convert")
    # lines
    b = core(F, SV + "write_lines")
    base = SV + "write_lines"
    evs = call_events(C, b, LOC)
    R.check(len(evs) == 1, "wl:one", b.relfile, "a line's replication set is looked up at one place", str(len(evs)))
    line = None
    for c, a, cd, ch in evs:
        a = [unok(x) if i == 0 else x for i, x in enumerate(a)]
        line = a[2][2] if a[2][0] == "fld" and a[2][1] == "hash_id" else None
        R.check(line is not None and each_of(line, P(base, 5)), "wl:hash", c.where, "the line's own hash decides", show(a[2])[:80])
        R.check(a[1] == P(base, 3), "wl:db", c.where, "the database is the one written to", show(a[1])[:60])
        t = unok(a[3])
        ok = call(t, "timestamp_convert") and t[2][0] == P(base, 4) and has(t[2][1], lambda x: call(x, "get_db_schema") and x[2][1] == P(base, 3)) and has(t[2][1], lambda x: x[0] == "fld" and x[1] == "precision" or call(x, "precision")) and line is not None and t[2][2] == ("fld", "timestamp", line)
        R.check(ok, "wl:ts", c.where, "with the line's own timestamp, in the database's precision", show(t)[:140])
    located(R, F, C, b, LOC, P(base, 5), "wl", "line")
    sent(R, F, C, b, "wl", base)
    # record batches
    b = core(F, SV + "write_record_batch")
    base = SV + "write_record_batch"
    evs = call_events(C, b, LOC)
    R.check(len(evs) == 1, "wb:one", b.relfile, "a row's replication set is looked up at one place", str(len(evs)))
    hs = call_events(C, b, ishash)
    vecs = {strip_elem(e[1][1]) for e in hs} - {None}
    h, o = recipe(R, F, C, b, "wb", lambda t: t == ("fld", "name", P(base, 2)), lambda e: strip_elem(("fld", "0", e)) is not None, "0", "1", "write_record_batch")
    tv = vecs.pop() if len(vecs) == 1 else None
    R.check(tv is not None, "wb:vec", b.relfile, "the hashed tags are one list")
    if o and tv is not None:
        sorted_before(R, F, C, b, "wb", lambda t: t == tv, "0", o[0][3][0], "write_record_batch")
        row = lambda t: t[0] == "ok" and has(t[1], lambda x: call(x, "num_rows"))
        ps = [(c, a, cd, ch) for c, a, cd, ch in call_events(C, b, lambda c: re.search(r"Vec.*::(push|insert|extend\w*)$", c.fid or "") is not None) if a[0] == tv]
        R.check(len(ps) == 1, "wb:pushes", b.relfile, "tags are collected at one place", str(len(ps)))
        for c, a, cd, ch in ps:
            k, v = getf(a[1], "0"), getf(a[1], "1")
            v = plain(v) if v is not None else None
            okk = k is not None and has(k, lambda x: call(x, "name") or x[0] == "fld" and x[1] == "name")
            okv = v is not None and v[0] == "call" and v[1].endswith("::value") and row(v[2][1])
            R.check(okk and okv, "wb:tag", c.where, "a tag is the column's name and its value in this row", show(a[1])[:120])
            kr = [x for x in walk(k) if x[0] == "ok"] if k is not None else []
            vr = [x for x in walk(v) if x[0] == "ok"] if v is not None else []
            elem = {x for x in kr if has(x[1], lambda y: call(y, "zip"))} & {x for x in vr if has(x[1], lambda y: call(y, "zip"))}
            R.check(bool(elem) or okk and okv and not any(has(x, lambda y: call(y, "zip")) for x in kr + vr), "wb:same", c.where, "name and value are of the same column")
            for cj in cd:
                tag = any(t[0] == "disc" and t[1][0] == "fld" and t[1][1] == "column_type" and p and list(v2) == [discr(F, "ColumnType", "Tag")] for t, v2, p in cj)
                nul = [(p, v2) for t, v2, p in cj if t[0] == "call" and t[1].endswith("is_null") or t[0] == "un" and has(t, lambda x: x[0] == "call" and x[1].endswith("is_null")) or t[0] == "call" and t[1].endswith("is_valid")]
                oth = [t for t, v2, p in cj if has(t, lambda x: x[0] == "call" and x[1].endswith("::value"))]
                R.check(tag and len(nul) == 1 and not oth, "wb:which", c.where, "exactly the tag columns that have a value in this row count", show_dnf(frozenset([cj]))[:200])
    for c, a, cd, ch in evs:
        hh = a[2]
        R.check(call(hh, "BkdrHasher::number") and hh[2][0] == h, "wb:hash", c.where, "the row's own hash decides", show(hh)[:80])
        R.check(a[1] == ("fld", "db", P(base, 2)), "wb:db", c.where, "the database is the table's", show(a[1])[:60])
        ts = [unok(x) for x in alts(a[3]) if konst(x) is None and not re.search(r"MAX", show(x)[:40])]
        ok = bool(ts) and all(call(t, "timestamp_convert") and t[2][1] == P(base, 4) and has(t[2][2], lambda x: call(x, "get_precision_and_value_from_arrow_column")) and t[2][2][0] == "fld" and str(t[2][2][1]) == "1" and t[2][0] == ("fld", "0", t[2][2][2]) for t in ts)
        R.check(ok, "wb:ts", c.where, "with the row's own timestamp, in the database's precision", str([show(t)[:120] for t in ts]))
        num = call_events(C, b, lambda c: (c.fid or "") == HB + "number")
        R.check(bool(o) and len(num) == 1 and all(late(F, e[3], num[0][3], h) for e in o), "wb:after", b.relfile, "the number is taken after all tags")
    located(R, F, C, b, LOC, None, "wb", "row")
    sent(R, F, C, b, "wb", base)


def strip_elem(t):
    """list a hashed tag's part comes from"""
    t = plain(t)
    if t[0] == "fld" and str(t[1]) in ("0", "1") and t[2][0] == "ok":
        v = t[2][1]
        while v[0] == "call" and re.search(r"::(iter|into_iter|next|as_ref|deref|iter_mut)$", v[1]) and len(v[2]) == 1:
            v = v[2][0]
        return v if v[0] == "call" and v[1].endswith("::new") or v[0] == "call" and "with_capacity" in v[1] else None
    return None


def located(R, F, C, b, LOC, src, key, what):
    """each row is put, once, into the group under the set that was located for it"""
    ent = [(c, a, cd, ch) for c, a, cd, ch in call_events(C, b, lambda c: re.search(r"HashMap.*::entry$|BTreeMap.*::entry$", c.fid or "") is not None) if has(a[1], lambda x: call(x, "locate_replication_set_for_write"))]
    loc = call_events(C, b, LOC)
    R.check(len(ent) == 1 and len(loc) == 1, f"{key}:entry", b.relfile, f"a {what} is put into one group", str(len(ent)))
    if len(ent) != 1 or len(loc) != 1:
        return
    c, a, cd, ch = ent[0]
    k = a[1]
    k = k[2] if k[0] == "fld" and k[1] == "id" else k
    R.check(call(unok(k), "locate_replication_set_for_write") and unok(k)[3] == (loc[0][0].body.id, loc[0][0].bb) or call(unok(k), "locate_replication_set_for_write") and len(loc) == 1, f"{key}:key", c.where, f"the group is the one of the located set", show(k)[:100])
    gs = [(c2, a2, cd2, ch2) for c2, a2, cd2, ch2 in call_events(C, b, lambda c: re.search(r"Vec.*::(push|insert)$|::add_line$", c.fid or "") is not None) if has(a2[0], lambda x: x[0] == "call" and x[1].endswith("::entry") and list(x[2]) == list(a))]
    gs = gs or [(c2, a2, cd2, ch2) for c2, a2, cd2, ch2 in call_events(C, b, lambda c: re.search(r"Vec.*::(push|insert)$", c.fid or "") is not None) if has(a2[0], lambda x: x[0] == "call" and x[1].endswith("::entry") and list(x[2]) == list(a))]
    R.check(len(gs) >= 1 and all(ev_before(F, ch, g[3]) for g in gs), f"{key}:put", c.where, f"the {what} is put there", str(len(gs)))
    puts = set()
    for c2, a2, cd2, ch2 in gs:
        v = a2[1]
        while v[0] == "cast":
            v = v[2]
        if src is not None:
            R.check(each_of(v, src), f"{key}:what", c2.where, f"the {what} itself", show(v)[:80])
        else:
            R.check(v[0] == "ok" and has(v[1], lambda x: call(x, "num_rows")), f"{key}:what", c2.where, f"the {what}'s own index", show(v)[:80])
        puts.add(ch2[0])
    for n, (c2, a2, cd2, ch2) in enumerate(gs):
        for g in gs[n + 1:]:
            R.check(not freely(F.get(ch2[0][0]), ch2[0][1], g[3][0][1], {ch[0][1]}) if ch2[0][0] == g[3][0][0] else False, f"{key}:once", c2.where, f"a {what} is put into one group only")
    # all rows, each fully handled
    every_item(R, F, b.id, (lambda it: each_of(("ok", it), src) or mentions(it, src)) if src is not None else (lambda it: has(it, lambda x: call(x, "num_rows")) and not has(it, lambda x: call(x, "zip"))),
               lambda x: {"put"} if (x.body.id, x.bb) in puts else set(), ["put"], f"{key}:all", f"all {what}s")
    if src is None:
        rng = [x for cc in b.calls() if (cc.fid or "").endswith("Iterator::next") for x in walk(C.T.arg(cc, 0)) if x[0] == "agg" and x[1].endswith("Range") and has(x, lambda y: call(y, "num_rows"))]
        R.check(bool(rng) and all(konst(getf(x, "start")) == 0 and call(getf(x, "end"), "num_rows") for x in rng), f"{key}:range", b.relfile, "from the first row to the last")


def sent(R, F, C, b, key, base):
    evs = call_events(C, b, lambda c: (c.fid or "").endswith("push_points_to_requests"))
    R.check(len(evs) == 1, f"{key}:send", b.relfile, "groups are sent at one place", str(len(evs)))
    for c, a, cd, ch in evs:
        set_, pts = a[4], a[5]
        r1 = [x for x in walk(set_) if x[0] == "ok"]
        r2 = [x for x in walk(pts) if x[0] == "ok" and x in r1]
        R.check(bool(r1) and r1[0] in [x for x in walk(pts)], f"{key}:own", c.where, "a group's points go to the group's own set", f"{show(set_)[:80]} / {show(pts)[:80]}")
        db = P(base, 3) if key == "wl" else ("fld", "db", P(base, 2))
        tn = P(base, 2) if key == "wl" else ("fld", "tenant", P(base, 2))
        R.check(a[2] == db and a[1] == tn, f"{key}:dst", c.where, "of the tenant and database written to", f"{show(a[1])[:40]} {show(a[2])[:40]}")
        every_item(R, F, b.id, lambda it: has(set_, lambda x: x == ("ok", it)), lambda x: {"send"} if x.bb == ch[0][1] and x.body.id == b.id else {"ext"} if re.search(r"::(extend|append|push)$", x.fid or "") and has(C.T.arg(x, 1), lambda t: t[0] == "call" and t[1].endswith("push_points_to_requests") or t[0] == "agg" and "push_points_to_requests" in t[1]) else set(), ["ext"], f"{key}:groups", "all groups")
        ext = [x for x in b.calls() if re.search(r"::(extend|append|push)$", x.fid or "") and has(C.T.arg(x, 1), lambda t: t[0] == "call" and t[1].endswith("push_points_to_requests") or t[0] == "agg" and "push_points_to_requests" in t[1])]
        ja = [x for x in b.calls() if re.search(r"join_all|try_join_all", x.fid or "")]
        R.check(bool(ext) and len(ja) >= 1 and all(has(C.T.arg(j, 0), lambda t: t == C.T.arg(ext[0], 0)) for j in ja[-1:]), f"{key}:wait", b.relfile, "all requests are awaited", f"{len(ext)} {len(ja)}")
    # success only behind all results
    rs = [(cd, t[2][0] if t[0] == "agg" and t[1].endswith("::Err") and t[2] and t[2][0][0] == "err" else t) for cd, t in C.full_cases(b)]
    jl = [c for c in b.calls() if (c.fid or "").endswith("Iterator::next") and has(C.T.arg(c, 0), lambda t: t[0] == "call" and "join_all" in t[1])]
    tj = [c for c in b.calls() if re.search(r"try_join_all", c.fid or "")]
    ok = bool(tj)
    for c in jl:
        el = ("ok", C.T.arg(c, 0))
        okr = [(cd, t) for cd, t in rs if not (is_err(t) or t[0] == "err")]
        errs = [(cd, t) for cd, t in rs if (t[0] == "err" and t[1][0] == "ok" and has(t, lambda x: x[0] == "call" and "join_all" in x[1]))]
        fl = iteration_ok(F, b, c)
        ok = bool(errs) and fl
    R.check(ok, f"{key}:ack", b.relfile, "a failed request is an error of the write: success is behind every result")


def iteration_ok(F, b, nxt):
    from va.okflow import OkFlow, TOP
    fl = OkFlow(F, lambda c: set())
    arr, out = iteration(fl, b, nxt)
    return bool(arr) and not out


# ---------------------------------------------------------------- where to
def locate(R, F):
    C = Cond(F, no_inline=NI)
    b = F.get("models::meta_data::BucketInfo::vnode_for")
    me, hid = P(b.id, 1), P(b.id, 2)
    sg = ("fld", "shard_group", me)
    rs = [t for cd, t in Cond(F, no_inline="clone").ret_cases(b) if cd]
    picks = {x for t in rs for x in walk(t) if x[0] == "idx" and x[1] == sg} | {("idx", sg, x[2][1]) for t in rs for x in walk(t) if x[0] == "call" and re.search(r"::get(_unchecked)?$", x[1]) and len(x[2]) == 2 and x[2][0] == sg}
    good = len(picks) == 1
    for x in picks:
        i = x[2]
        n = i
        while n[0] == "cast":
            n = n[2]
        good = good and n[0] == "bin" and n[1] == "Rem" and has(n[2], lambda y: y == hid) and has(n[3], lambda y: call(y, "len") and y[2][0] == sg)
        for y in walk(n):
            good = good and (y[0] not in ("fld", "param", "call", "ok", "phi", "loop", "await", "disc", "idx", "agg") or y in (hid, me, sg, ("fld", "id", me)) or call(y, "len") or y[0] == "call" and re.search(r"wrapping_|rem_euclid|::deref$", y[1]) is not None)
    R.check(good, "vnode", b.relfile, "the set is picked by the hash alone, within the bucket's sets", str([show(t)[:120] for t in rs]))
    b = core(F, "meta::model::meta_tenant::TenantMeta::locate_replication_set_for_write")
    C = Cond(F, no_inline=NI + "|vnode_for")
    base = "meta::model::meta_tenant::TenantMeta::locate_replication_set_for_write"
    evs = call_events(C, b, lambda c: (c.fid or "").endswith("BucketInfo::vnode_for"))
    for c, a, cd, ch in evs:
        R.check(a[1] == P(base, 3), "loc-hash", c.where, "with the hash given", show(a[1])[:60])
        bk = unok(a[0])
        okb = call(bk, "bucket_by_timestamp") and bk[2][1:] == (P(base, 2), P(base, 4)) or call(bk, "create_bucket") and bk[2][1:] == (P(base, 2), P(base, 4)) or \
            call(bk, "bucket_by_timestamp") and tuple(bk[2][1:]) == (P(base, 2), P(base, 4)) or call(bk, "create_bucket") and tuple(bk[2][1:]) == (P(base, 2), P(base, 4))
        R.check(okb, "loc-bucket", c.where, "of the bucket for the timestamp in the database", show(bk)[:100])
    srcs = {unok(a[0])[1].split("::")[-1] for c, a, cd, ch in evs if unok(a[0])[0] == "call"}
    alt = {x[1].split("::")[-1] for c, a, cd, ch in evs for y in alts(a[0]) for x in [unok(y)] if x[0] == "call"}
    R.check("bucket_by_timestamp" in srcs | alt and "create_bucket" in srcs | alt, "loc-both", b.relfile, "an existing bucket is used, else one is created", str(sorted(srcs | alt)))
    for c, a, cd, ch in call_events(C, b, lambda c: (c.fid or "").endswith("TenantMeta::create_bucket")):
        R.check(all(any(t[0] == "disc" and call(t[1], "bucket_by_timestamp") and not (p and "1" in v) and not (not p and "0" in v) for t, v, p in cj) for cj in cd) and bool(cd), "loc-create", c.where, "a bucket is created only when none holds the timestamp", show_dnf(cd)[:140])
    for cd, t in C.full_cases(b):
        if is_err(t) or t[0] == "err":
            continue
        v = getf(t, "0") if t[0] == "agg" else t
        R.check(t[0] == "call" and t[1] == "never" or has(t, lambda x: call(x, "vnode_for")), "loc-ret", b.relfile, "what is returned is that bucket's set", show(t)[:100])
    b = F.get("models::meta_data::TenantMetaData::bucket_by_timestamp")
    C = Cond(F)
    ts = P(b.id, 3)
    n = 0
    for cd, t in C.full_cases(b):
        if t[0] == "agg" and t[1].endswith("None") or t[0] == "err":
            continue
        n += 1
        el = t
        while el[0] in ("ok",) or el[0] == "agg" and el[1].endswith("Some"):
            el = el[1] if el[0] == "ok" else el[2][0]
        src = [x for x in walk(t) if x[0] == "fld" and x[1] == "buckets"]
        R.check(bool(src) and all(has(x, lambda y: y == P(b.id, 2)) for x in src), "bk-db", b.relfile, "buckets of the database asked for", show(t)[:100])
    holds(R, F, C, b, ts)
    R.check(n >= 1, "bk-some", b.relfile, "a bucket can be found")


def holds(R, F, C, b, ts):
    """the found bucket satisfies start <= ts < end"""
    def tests(cd):
        lo = hi = False
        for cj in cd:
            l = h = False
            for t, v, p in cj:
                if t[0] != "bin" or t[1] not in ("Ge", "Lt", "Le", "Gt"):
                    continue
                op, x, y = t[1], t[2], t[3]
                tv = (p and list(v) == ["1"]) or (not p and list(v) == ["0"]) or None
                if tv is None:
                    tv = False if (p and list(v) == ["0"]) or (not p and list(v) == ["1"]) else None
                if tv is None:
                    continue
                if y == ts:
                    x, y, op = y, x, {"Ge": "Le", "Le": "Ge", "Lt": "Gt", "Gt": "Lt"}[op]
                if not tv:
                    op = {"Ge": "Lt", "Lt": "Ge", "Le": "Gt", "Gt": "Le"}[op]
                if x == ts and y[0] == "fld":
                    l = l or op == "Ge" and y[1] == "start_time"
                    h = h or op == "Lt" and y[1] == "end_time"
            if not (l and h):
                return False
        return bool(cd)
    ok = False
    for f in F.family(b.id):
        if f.id == b.id:
            rs = [cd for cd, t in C.full_cases(f) if not (t[0] == "agg" and t[1].endswith("None")) and t[0] not in ("k", "err")]
            if rs and all(tests(cd) for cd in rs):
                ok = True
        else:
            up = C.T.closure_site(f)
            tr = closure_true(C, f.id)
            tr = {frozenset((sub(C, f, t), v, p) for t, v, p in cj) for cj in tr}
            if tr and tests(tr):
                ok = True
    R.check(ok, "bk-holds", b.relfile, "the bucket holds the timestamp: start <= ts < end")


def sub(C, cb, t):
    return t
