"""WAL append and read: an acknowledged raft entry is in the log, and is found under its index."""
import re
from va.cond import Cond, TRUE, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L

PKGS = ["tskv"]
CRATES = ["tskv"]
RULE = """(1) RaftEntryStorage::append: in every pass of its loop over the entries (no way to the next one or to Ok around it) the entry is
written by write_record and, after that, its (index, position) is pushed to the entry index of the file of that id and (index,
entry) is put in the cache; the position and file id are the writer's size and id taken before the write; min and max follow.
(2) append_raft_entry writes [type][big-endian index][encode(entry, config.compress)], adds the written size to its size whenever
the write was OK, and returns Ok only with the write's and, when wal_sync is set, the sync's Ok. (3) WalRecordData::new takes type,
index and data at exactly those offsets; decode is deserialize of the codec's decode where encode is the codec's encode of
serialize, both with the codec of the given encoding; readers use the writer's encoding. (4) rolling opens id + 1 before the old
file is let go, opening continues the highest existing id. (5) entry(i) is the cached entry under i or the record at the position
indexed under i in a file whose range contains i; entries(a,b) is the whole range from the cache or every index of each file's part
of the range, in order; last_entry falls back to the files' highest index. Errors of reads are returned."""
W = "tskv::wal::"
ST = W + "wal_store::"
A = f"<{ST}RaftEntryStorage as replication::EntryStorage>::"
CO = "::{closure#0}"
NI = r"record_file::(writer::Writer|reader::Reader)::\w+$|VnodeWal::wal_reader$|VnodeWal::roll_wal_file$|CircularKVCache|encode_wal_raft_entry$|decode_wal_raft_entry$|WalRecordData::new$"


def P(fid, n):
    return ("param", fid, n)


def fid_is(t, suf):
    return t[0] == "call" and t[1].endswith(suf)


def okof(t):
    """the call whose success t is (through await), or None"""
    if t[0] == "ok":
        x = t[1]
        if x[0] == "await":
            x = x[1]
        return x
    return None


def ev(c):
    f = c.fid or ""
    out = set()
    if f.endswith("record_file::writer::Writer::write_record"):
        out.add("written")
    if f.endswith("CircularKVCache::put"):
        out.add("cached")
    if re.search(r"Vec(<.*>)?::push$", f) and "u64, u64" in str(c.body.lty(place(c.args[0][1])[0]) if c.args and c.args[0][0] in "cm" else ""):
        out.add("indexed")
    if re.search(r"box_assume_init_into_vec_unsafe$|slice::(<impl .*>::)?into_vec$", f) and "(u64, u64)" in str(c.body.lty(place(c.dest)[0])):
        out.add("indexed")
    return out


from va.core import place


def run(R):
    F = R.F
    C = Cond(F, no_inline=NI)
    append(R, F, C)
    layout(R, F, C)
    files(R, F, C)
    reads(R, F, C)


def append(R, F, C):
    fid = A + "append"
    b = R.body(fid + CO)
    rel = b.relfile
    me, ents = P(fid, 1), P(fid, 2)
    every_item(R, F, fid + CO, lambda t: mentions(t, ents), ev, ["written", "indexed", "cached"], "a", "append")
    for cd, t in C.ret_cases(b):
        if t[0] == "agg" and t[1].endswith("::Ok"):
            for cj in cd:
                bad = [l for l in cj if not (mentions(l[0], ents) and (l[0][0] == "disc" and l[0][1] == ents or re.search("is_empty|len", show(l[0]))) or has(l[0], lambda x: x[0] in ("err",)))]
                # Ok does not hang on anything but the loop being through
                R.check(not [l for l in bad if not (l[0][0] == "disc" and ("0" in l[1]) == l[2])], "a-ok", rel, "Ok once the loop is through", show_dnf(frozenset([cj]))[:200])
    item = lambda t: each_of(t, ents)
    logidx = lambda t: t[0] == "fld" and t[1] == "index" and t[2][0] == "fld" and t[2][1] == "log_id" and item(t[2][2])
    evs = call_events(C, b, lambda c: re.search(r"Writer::write_record$|CircularKVCache::\w+$|Vec(<.*>)?::push$", c.fid or ""))
    wr = [e for e in evs if e[0].fid.endswith("write_record")]
    R.check(len(wr) == 1, "a-write", rel, "one write per entry", f"{[e[0].where for e in wr]}")
    puts = [e for e in evs if "CircularKVCache" in e[0].fid and not re.search(r"::(len|is_empty|get|last|first|capacity)$", e[0].fid)]
    for e in puts:
        R.check(e[0].fid.endswith("::put") and logidx(e[1][1]) and item(e[1][2]), "a-cache", e[0].where, "the cache gets the entry under its index", f"{e[0].name} {[show(x)[:80] for x in e[1][1:]]}")
    R.floor(len(puts), 1, "cache updates of append")
    wal = getf(getf(me, "inner"), "wal")
    cur = getf(wal, "current_wal")

    def deepc(t):
        return C.deep(t)
    idx = [e for e in evs if re.search(r"Vec(<.*>)?::push$", e[0].fid) and e[1][1][0] == "agg" and len(e[1][1][2]) == 2]
    for e in idx:
        i, p = e[1][1][2]
        R.check(logidx(i), "a-index", e[0].where, "the index entry's key is the entry's log index", show(i)[:120])
        d = deepc(p)
        R.check(d == getf(cur, "size") or canon(d) == canon(getf(cur, "size")), "a-pos", e[0].where, "the position is the writer's size", f"position {show(d)[:160]}")
        if wr:
            R.check(ev_before(F, wr[0][3], e[3]), "a-after-write", e[0].where, "indexed after it is written")
        # it goes into the file's own meta
        base = e[1][0]
        fi = [x for x in walk(base) if x[0] == "call" and re.search(r"Iterator(<.*>)?>?::find$|::find$", x[1])]
        for x in fi:
            cl = closure_id(x[2][1])
            ok = False
            if cl and F.get(cl):
                D = closure_true(C, cl)
                capt = x[2][1][2]
                ok = bool(D) and all(any(l[0][0] == "bin" and l[0][1] == "Eq" and ("1" in l[1]) == l[2] and any(y[0] == "fld" and y[1] == "file_id" for y in walk(l[0])) for l in cj) for cj in D) and any(deepc(y) == getf(cur, "id") for y in capt)
            R.check(ok, "a-file", e[0].where, "indexed in the file it was written to", show(x)[:160])
    metas = [x for e in evs for a in e[1] for x in walk(a) if x[0] == "agg" and x[1].endswith("WalFileMeta")]
    R.floor(len(idx), 1, "entry index pushes")
    for m in set(metas):
        d = fields_of(F, m)
        R.check(deepc(d["file_id"]) == getf(cur, "id"), "a-newfile", rel, "a new file's meta has the id written to", show(deepc(d["file_id"]))[:100])
        ei = [x for x in walk(d["entry_index"]) if x[0] == "agg" and len(x[2]) == 2 and logidx(x[2][0])]
        for x in ei:
            p = deepc(x[2][1])
            R.check(p == getf(cur, "size") or canon(p) == canon(getf(cur, "size")), "a-pos", rel, "the position is the writer's size", f"position {show(p)[:160]}")
        for f in ("min_seq", "max_seq"):
            R.check(konst(d[f]) == 2 ** 64 - 1 or "MAX" in show(d[f]) or logidx(d[f]) and len(ei) == 1, "a-newfile", rel, "a new file's meta starts empty, or with the entry", show(d[f])[:60])
        r = okof(d["reader"])
        R.check(r is not None and fid_is(r, "VnodeWal::wal_reader") and deepc(r[2][1]) == getf(cur, "id"), "a-newfile-reader", rel, "its reader reads that file", show(d["reader"])[:120])
    # range bookkeeping
    ws = C.writes(b, "min_seq|max_seq")
    for (bd, bb, i, f), a, cd in ws:
        R.check(all(logidx(v) or v[0] == "call" and is_ord(v, v[2][0], v[2][1], f) and any(logidx(y) for y in v[2]) and any(y[0] == "fld" and y[1] == f or "MAX" in show(y) for y in v[2]) for v in alts(a[0])), f"a-{f}", bd.relfile, f"{f} takes the entry's index", show(a[0])[:100])
        cur_v = getf(a[1], f)

        def widen(cj):
            le, eq = L.facts_of(cj)
            for l in cj:
                t, vs, pos = l
                if t[0] == "bin" and t[1] == "Eq" and ("1" in vs) == pos and "MAX" in show(t) and (mentions(t, cur_v) or "WalFileMeta" in show(a[1])):
                    return True
                if t[0] == "bin" and t[1] in ("Lt", "Le") and mentions(t, a[0]):
                    lo, hi = (t[2], t[3])
                    return True
            return any(v[0] == "call" for v in alts(a[0]))
        R.check(all(widen(cj) for cj in cd), f"a-{f}-when", bd.relfile, f"{f} only widens", show_dnf(cd)[:200])
    mk = F.get(ST + "WalFileMeta::mark_entry")
    if mk is not None:
        range_rule(R, F, mk)


def fields_of(F, agg):
    """aggregate of a struct -> field name -> term"""
    from va.terms import getf as g
    return {f: g(agg, f) for f in ("file_id", "min_seq", "max_seq", "reader", "entry_index")}


def range_rule(R, F, b):
    """after mark_entry: min <= index <= max, previous range kept (the empty range is MAX)"""
    C = Cond(F)
    me, ix = P(b.id, 1), P(b.id, 2)
    for f, want in (("min_seq", -1), ("max_seq", 1)):
        cur = getf(me, f)
        ws = [(a, cd) for (bd, bb, i, n), a, cd in C.writes(b, f)]
        R.check(bool(ws), f"m-{f}", b.relfile, f"mark_entry maintains {f}")
        D = FALSE
        for a, cd in ws:
            R.check(all(v == ix or is_ord(v, cur, ix, f) for v in alts(a[0])), f"m-{f}", b.relfile, f"{f} becomes the index", show(a[0])[:80])
            D = C.disj(D, cd) if a[0] == ix else C.disj(D, cd)
        # the write happens whenever the range is empty or the index is outside of it
        lt = ("bin", "Lt", ix, cur) if want < 0 else ("bin", "Lt", cur, ix)
        if want < 0 and D == TRUE and ws and all(is_ord(a[0], cur, ix, f) for a, cd in ws):
            continue        # the empty range is the largest number
        if any(is_ord(v, cur, ix, f) for a, cd in ws for v in alts(a[0])) and D == TRUE:
            # the capped value is taken only when the range is not empty
            for bb in b.reachable():
                c = b.call_at(bb)
                if c is not None and re.search(r"Ord(>)?::(min|max)$", c.fid or c.name):
                    R.check(forced(C.rc(b, bb), lambda t, vs, pos: t[0] == "bin" and t[1] == "Eq" and "MAX" in show(t) and ("1" in vs) != pos), f"m-{f}-when", c.where, f"an empty range's {f} is not compared", show_dnf(C.rc(b, bb))[:120])
            continue
        got = set()
        for cj in D:
            for l in cj:
                if l[0] == lt and ("1" in l[1]) == l[2]:
                    got.add("outside")
                if l[0][0] == "bin" and l[0][1] == "Eq" and mentions(l[0], cur) and "MAX" in show(l[0]) and ("1" in l[1]) == l[2]:
                    got.add("empty")
        R.check(got == {"outside", "empty"} and len(D) <= 2, f"m-{f}-when", b.relfile, f"{f} moves exactly when the range is empty or the index is outside", show_dnf(D)[:200])


def is_ord(t, cur, ix, f):
    return t[0] == "call" and t[1].endswith("::min" if f == "min_seq" else "::max") and set(t[2]) == {cur, ix}


def layout(R, F, C):
    fid = W + "writer::WalWriter::append_raft_entry"
    b = R.body(fid + CO)
    rel = b.relfile
    me, en = P(fid, 1), P(fid, 2)
    s = call_events(C, b, lambda c: re.search(r"Writer::(write_record|sync)$", c.fid or "") and "record_file" in c.fid)
    wr = [e for e in s if e[0].fid.endswith("write_record")]
    sy = [e for e in s if e[0].fid.endswith("sync")]
    R.check(len(wr) == 1, "l-write", rel, "one record per entry")
    if not wr:
        return
    a = wr[0][1]
    R.check(a[0] == getf(me, "inner"), "l-writer", rel, "written to the file's writer")
    parts = a[3][2] if a[3][0] == "agg" else None
    if parts is None:
        x = a[3]
        while x[0] == "call" and x[2]:
            x = x[2][0]
        parts = x[2] if x[0] == "agg" else None
    R.check(parts is not None and len(parts) == 3, "l-parts", rel, "a record is type, index, data", show(a[3])[:160])
    enc = None
    if parts and len(parts) == 3:
        p0, p1, p2 = parts
        R.check(has(p0, lambda x: x[0] == "agg" and len(x[2]) == 1 and x[1] in ("[]", "array", "")) or has(p0, lambda x: x[0] == "cast" and x[1] == "u8"), "l-type", rel, "one byte of type", show(p0)[:80])
        i = be(p1)
        R.check(i == getf(getf(en, "log_id"), "index"), "l-index", rel, "then the log index, big-endian", show(p1)[:80])
        enc = okof(p2)
        R.check(enc is not None and fid_is(enc, "encode_wal_raft_entry") and enc[2][0] == en and enc[2][1] == getf(getf(me, "config"), "compress"), "l-data", rel, "then the encoded entry", show(p2)[:120])
    wok = lambda lt, lv, lp: lt[0] == "disc" and has(lt[1], lambda x: fid_is(x, "Writer::write_record")) and not has(lt[1], lambda x: x[0] == "ok" and has(x, lambda y: fid_is(y, "write_record"))) and ("0" in lv) == lp
    ws = C.events(b, lambda x: [((x, bb, i, "size"), bb, ev_) for (bb, i, ev_) in size_writes(C, x)])
    R.check(len(ws) == 1, "l-size", rel, "the size is advanced in one place", f"{len(ws)}")
    for p, v, cd, chain in ws:
        d = L.add(L.lin(v[0]), L.lin(getf(me, "size")), -1)
        w_ok = [x for x in walk(v[0]) if x[0] == "ok" and has(x, lambda y: fid_is(y, "write_record"))]
        R.check(v[1] == me and w_ok and d == L.lin(w_ok[0]), "l-size-by", rel, "the size grows by what was written", show(v[0])[:200])
        R.check(forced(cd, wok) and not extra_lits(cd, [wok], wr[0][2]), "l-size-when", rel, "the size grows whenever the write succeeded", show_dnf(cd)[:200])
        for e in sy:
            R.check(ev_before(F, chain, e[3]), "l-size-first", e[0].where, "the size counts the record before syncing can fail")
    sync_flag = getf(getf(me, "config"), "wal_sync")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        R.check(forced(cd, wok), "l-ok", rel, "Ok only when the record was written", show_dnf(cd)[:200])
        for cj in cd:
            off = any(l[0] == sync_flag and ("1" in l[1]) != l[2] for l in cj)
            synced = any(l[0][0] == "disc" and has(l[0], lambda x: fid_is(x, "Writer::sync")) and ("0" in l[1]) == l[2] for l in cj)
            R.check(off or synced, "l-sync", rel, "with wal_sync set, Ok only when the record was synced", show_dnf(frozenset([cj]))[:240])
    # the reading side
    rd = R.body(W + "reader::WalRecordData::new")
    K = Cond(F, no_inline=NI.replace("|WalRecordData::new$", ""))
    buf, pos, encd = P(rd.id, 1), P(rd.id, 2), P(rd.id, 3)
    n = 0
    for cd, t in K.ret_cases(rd):
        if not (t[0] == "agg" and t[1].endswith("::Ok")):
            continue
        n += 1
        v = t[2][0]
        f = {k: getf(v, k) for k in ("pos", "typ", "seq", "block")}
        R.check(f["pos"] == pos, "r-pos", rd.relfile, "a record's position is kept", show(f["pos"])[:80])
        sq = frombe(f["seq"])
        sl = slice_of(sq) if sq else None
        R.check(sl is not None and sl[0] == buf and konst(sl[1]) == 1 and konst(sl[2]) == 9, "r-index", rd.relfile, "the index is bytes 1 to 9, big-endian", show(f["seq"])[:100])
        R.check(f["typ"][0] == "idx" and f["typ"][1] == buf and konst(f["typ"][2]) == 0 or has(f["typ"], lambda x: x[0] == "idx" and x[1] == buf and konst(x[2]) == 0), "r-type", rd.relfile, "the type is byte 0", show(f["typ"])[:80])
        d = okof(f["block"])
        sl = slice_of(d[2][0]) if d and fid_is(d, "decode_wal_raft_entry") else None
        R.check(sl is not None and sl[0] == buf and konst(sl[1]) == 9 and sl[2] is None and d[2][1] == encd, "r-data", rd.relfile, "the entry is decoded from the bytes behind the header", show(f["block"])[:120])
    R.floor(n, 1, "WalRecordData::new successes")
    # codec
    e = R.body(W + "encode_wal_raft_entry")
    d = R.body(W + "decode_wal_raft_entry")
    K = Cond(F)
    n = 0
    for body, inner, outer, ser in ((e, "encode", None, "bincode::serialize"), (d, "decode", None, "bincode::deserialize")):
        call = None
        for c, a, cd in K.sites(body, lambda c: re.search(r"StringCodec(<.*>)?>?::(encode|decode)$", c.fid or c.name)):
            n += 1
            R.check(c.name.endswith("::" + inner) or (c.fid or "").endswith("::" + inner), f"k-{inner}", c.where, f"the codec's {inner} is used")
            g = [x for x in walk(a[0]) if x[0] == "call" and x[1].endswith("get_str_codec")]
            R.check(bool(g) and g[0][2][0] == P(body.id, 2), f"k-{inner}-kind", c.where, "the codec is that of the given encoding", show(a[0])[:100])
            if inner == "encode":
                R.check(has(a[1], lambda x: x[0] == "call" and x[1].startswith("bincode") and x[2] and x[2][0] == P(body.id, 1)), "k-ser", c.where, "the serialised entry is encoded", show(a[1])[:100])
            else:
                R.check(a[1] == P(body.id, 1) or (slice_of(a[1]) or (None,))[0] == P(body.id, 1), "k-in", c.where, "the given bytes are decoded", show(a[1])[:100])
            out = a[2]
            for cd2, t in K.full_cases(body):
                if is_err(t) or not cd2:
                    continue
                R.check(has(K.deep(t), lambda x: x == out) or mentions(t, out), f"k-{inner}-out", body.relfile, f"what the codec produced is the result", show(t)[:160])
        if inner == "decode":
            ss = K.sites(body, lambda c: re.search(r"bincode::deserialize", c.fid or c.name))
            R.check(len(ss) == 1, "k-de", body.relfile, "the decoded bytes are deserialised")
    R.floor(n, 2, "codec uses")
    # readers use the writer's encoding
    nr = W + "writer::WalWriter::new_reader"
    bb = R.body(nr + CO)
    for cd, t in K.ret_cases(bb):
        if t[0] == "agg" and t[1].endswith("::Ok"):
            R.check(getf(t[2][0], "compress") == getf(getf(P(nr, 1), "config"), "compress"), "k-reader", bb.relfile, "a reader of the current file uses the writer's encoding", show(t)[:120])
    wrd = W + "VnodeWal::wal_reader"
    bb = R.body(wrd + CO)
    K2 = Cond(F, no_inline=r"record_file::")
    n = 0
    for c, a, cd in K2.sites(bb, lambda c: (c.fid or "").endswith("WalReader::open")):
        n += 1
        R.check(a[1] == getf(getf(P(wrd, 1), "config"), "compress") and mentions(a[0], P(wrd, 2)), "k-reader-other", c.where, "a reader of another file uses the writer's encoding and that file's name", f"{[show(x)[:80] for x in a]}")
        cur_id = getf(getf(P(wrd, 1), "current_wal"), "id")
        R.check(forced(cd, lambda lt, lv, lp: lt[0] == "bin" and lt[1] == "Eq" and {lt[2], lt[3]} == {cur_id, P(wrd, 2)} and ("1" in lv) != lp), "k-reader-which", c.where, "another file is opened only for another id", show_dnf(cd)[:120])
    R.floor(n, 1, "WalReader::open in wal_reader")
    for nm, src in (("next_wal_entry", "read_record"), ("read_wal_record_data", "read_record_at")):
        f2 = W + "reader::WalReader::" + nm
        bb = R.body(f2 + CO)
        K3 = Cond(F, no_inline=NI)
        for c, a, cd in K3.sites(bb, lambda c: (c.fid or "").endswith("WalRecordData::new")):
            rec = next((x[2] for x in walk(a[0]) if x[0] == "fld" and x[1] == "data"), None)
            r = okof(rec) if rec else None
            R.check(r is not None and fid_is(r, "Reader::" + src) and a[2] == getf(P(f2, 1), "compress"), f"k-{nm}", c.where, "the record read is decoded with the reader's encoding", f"{[show(x)[:80] for x in a]}")
            R.check(a[1] == getf(rec, "pos") if nm == "next_wal_entry" else a[1] in (P(f2, 2), getf(rec, "pos")), f"k-{nm}-pos", c.where, "with the record's position", show(a[1])[:80])
            if nm == "read_wal_record_data" and r:
                R.check(r[2][1] == P(f2, 2), f"k-{nm}-at", c.where, "the record at the position asked for is read", show(r)[:100])
        for cd, t in K3.ret_cases(bb):
            if not cd or is_err(t):
                continue
            none = t[0] == "agg" and t[1].endswith("::Ok") and t[2][0][0] == "agg" and t[2][0][1].endswith("None")
            some = has(t, lambda x: x[0] == "ok" and okof(x) and fid_is(okof(x), "WalRecordData::new"))
            if none:
                eofv = has_eof(F, cd, src)
                R.check(eofv, f"k-{nm}-none", bb.relfile, "nothing is answered only at the end of the file", show_dnf(cd)[:200])
            else:
                R.check(some, f"k-{nm}-some", bb.relfile, "the decoded record is answered", show(t)[:120])


def has_eof(F, cd, src):
    """every conjunct tests the reader's error for one variant (Eof)"""
    return bool(cd) and all(any(l[0][0] == "disc" and has(l[0], lambda x: x[0] == "err" and has(x, lambda y: fid_is(y, "Reader::" + src))) and l[2] and len(l[1]) == 1 for l in cj) for cj in cd)


def extra_lits(cd, allowed, base):
    bl = set(lits(base))
    return [l for l in lits(cd) if l not in bl and not any(p(*l) for p in allowed)]


def size_writes(C, x):
    out = []
    for l, ds in x.defs().items():
        for (bb, idx, dp, kind, pay) in ds:
            q = [p for p in dp if p != "*"]
            if q and q[-1] == ".size" and "wal::writer::" in x.id:
                def e(l=l, bb=bb, idx=idx, q=q, kind=kind, pay=pay):
                    v = C.T.rv(x, pay, (bb, idx), 0, ()) if kind == "=" else C.T.call(x, bb, pay, 0, ())
                    return [v, C.T.local(x, l, tuple(q[:-1]), (bb, idx))]
                out.append((bb, idx, e))
    return out


def files(R, F, C):
    # write_raft_entry: id and position before the write
    fid = W + "VnodeWal::write_raft_entry"
    b = R.body(fid + CO)
    me = P(fid, 1)
    K = Cond(F, no_inline=NI + r"|append_raft_entry$")
    cur = getf(me, "current_wal")
    n = 0
    for cd, t in K.ret_cases(b):
        if not cd or is_err(t):
            continue
        n += 1
        v = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else None
        R.check(v is not None and v[0] == "agg" and tuple(v[2]) == (getf(cur, "id"), getf(cur, "size")), "f-where", b.relfile, "returns the writer's id and size", show(t)[:120])
        R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: fid_is(x, "append_raft_entry") ) and ("0" in lv) == lp), "f-ok", b.relfile, "Ok only when the entry was written", show_dnf(cd)[:200])
    R.floor(n, 1, "write_raft_entry successes")
    # order: reading id and size happens after rolling and before writing
    rolls = [c for c in b.calls() if (c.fid or "").endswith("roll_wal_file")]
    apps = [c for c in b.calls() if (c.fid or "").endswith("append_raft_entry")]
    reads = [c for c in b.calls() if re.search(r"VnodeWal::current_wal_(id|size)$|WalWriter::(id|size)$", c.fid or "")]
    from va.cond import precedes, dominated
    R.check(bool(apps) and all(precedes(b, r.bb, a.bb) and not precedes(b, a.bb, r.bb) for r in reads for a in apps) and len(reads) >= 2, "f-before-write", b.relfile, "id and size are taken before the write", f"{[r.where for r in reads]}")
    R.check(all(precedes(b, q.bb, r.bb) and not precedes(b, r.bb, q.bb) for r in reads for q in rolls), "f-after-roll", b.relfile, "id and size are taken after rolling")
    aa = [K.T.args(c) for c in apps]
    R.check(all(a[1] == P(fid, 2) and a[0] == cur for a in aa), "f-entry", b.relfile, "the given entry is written to the current file")
    # rolling
    fid = W + "VnodeWal::roll_wal_file"
    b = R.body(fid + CO)
    me = P(fid, 1)
    K = Cond(F, no_inline=r"record_file::|WalWriter::open$|open_writer$")
    cur = getf(me, "current_wal")
    op = K.sites(b, lambda c: (c.fid or "").endswith("WalWriter::open"))
    R.check(len(op) == 1, "f-roll-open", b.relfile, "rolling opens one file")
    for c, a, cd in op:
        d = L.add(L.lin(a[1]), L.lin(getf(cur, "id")), -1)
        R.check(d == {(): 1}, "f-roll-id", c.where, "the new file's id is the next one", show(a[1])[:100])
        R.check(has(a[2], lambda x: x == a[1]) and mentions(a[2], getf(me, "wal_dir")), "f-roll-name", c.where, "the new file is named by its id in the WAL directory", show(a[2])[:120])
    rep = K.sites(b, lambda c: re.search(r"mem::(replace|swap)", c.fid or ""))
    asg = K.writes(b, "current_wal")
    for c, a, cd in rep:
        x = okof(a[1])
        R.check(x is not None and fid_is(x, "WalWriter::open"), "f-roll-use", c.where, "the opened file becomes the current one", show(a[1])[:100])
    for p, a, cd in asg:
        x = okof(a[0])
        R.check(x is not None and fid_is(x, "WalWriter::open"), "f-roll-use", p[0].relfile, "the opened file becomes the current one", show(a[0])[:100])
    R.floor(len(rep) + len(asg), 1, "replacing the current WAL file")
    # opening
    fid = W + "VnodeWal::open_writer"
    b = R.body(fid + CO)
    op = K.sites(b, lambda c: (c.fid or "").endswith("WalWriter::open"))
    R.check(len(op) == 1, "f-open", b.relfile, "open_writer opens one file")
    for c, a, cd in op:
        vs = alts(a[1])
        one = [v for v in vs if konst(v) == 1]
        mx = [v for v in vs if has(v, lambda x: x[0] == "call" and x[1].endswith("get_max_sequence_file_name") and x[2][0] == P(fid, 2))]
        R.check(len(vs) == 2 and one and mx and L.lin(mx[0]) == {("t", mx[0]): 1} or len(vs) == 2 and one and mx and mx[0][0] in ("fld", "ok"), "f-open-id", c.where, "the highest existing file is continued, else file 1", show(a[1])[:160])
        R.check(mentions(a[2], a[1]) and mentions(a[2], P(fid, 2)), "f-open-name", c.where, "the file is named by its id in the directory", show(a[2])[:120])
    fid = W + "writer::WalWriter::open"
    b = R.body(fid + CO)
    K = Cond(F, no_inline=r"record_file::(writer::Writer|reader::Reader)::\w+$")
    for cd, t in K.ret_cases(b):
        if t[0] == "agg" and t[1].endswith("::Ok"):
            w = t[2][0]
            inner = getf(w, "inner")
            x = okof(inner)
            R.check(getf(w, "id") == P(fid, 2) and x is not None and fid_is(x, "Writer::open") and x[2][0] == P(fid, 3), "f-open-file", b.relfile, "the writer writes the file it is named for", show(w)[:120])
            sz = getf(w, "size")
            R.check(fid_is(sz, "Writer::file_size") and sz[2][0] == inner, "f-open-size", b.relfile, "the size starts as the file's size", show(sz)[:100])


def reads(R, F, C):
    # one entry
    fid = ST + "RaftEntryStorageInner::read_raft_entry"
    b = R.body(fid + CO)
    me, ix = P(fid, 1), P(fid, 2)
    K = Cond(F, no_inline=r"record_file::|CircularKVCache|read_wal_record_data$")
    cache = getf(me, "entry_cache")
    hit = lambda t: t[0] == "ok" and fid_is(t[1], "CircularKVCache::get") and t[1][2][0] == cache and t[1][2][1] == ix
    kinds = set()
    for cd, t in K.ret_cases(b):
        if not cd or is_err(t):
            continue
        if t[0] == "agg" and t[1].endswith("::Ok"):
            v = t[2][0]
            if v[0] == "agg" and v[1].endswith("Some"):
                R.check(hit(v[2][0]), "e-cache", b.relfile, "a cached entry is the one under the index", show(v)[:120])
                kinds.add("cache")
            else:
                nofile = forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and re.search(r"::find$", x[1])) and ("1" in lv) != lp) or looped(K, b, me, ix)
                R.check(v[0] == "agg" and v[1].endswith("None") and nofile, "e-none", b.relfile, "nothing is answered only when no file's range has the index", f"{show(v)[:60]} if {show_dnf(cd)[:160]}")
                kinds.add("none")
        else:
            kinds.add("file")
            x = t[1] if t[0] == "await" else t
            R.check(x[0] in ("agg", "call") and "get_entry_by_index" in str(x[1]) and ix in x[2], "e-file", b.relfile, "otherwise the file's index is asked", show(t)[:120])
    R.check({"cache", "file"} <= kinds, "e-ways", b.relfile, "entries come from the cache or a file", str(kinds))
    for c, a, cd in K.sites(b, lambda c: re.search(r"Iterator(<.*>)?>?::(find|position|filter)$", c.fid or "")):
        cl = closure_id(a[1])
        D = closure_true(K, cl) if cl and F.get(cl) else None
        R.check(bool(D) and len(D) == 1 and in_range(next(iter(D))), "e-range", c.where, "the file whose range contains the index", show_dnf(D)[:160] if D else "no closure")
    fid = ST + "WalFileMeta::get_entry_by_index"
    b = R.body(fid + CO)
    me, ix = P(fid, 1), P(fid, 2)
    rs = K.sites(b, lambda c: (c.fid or "").endswith("read_wal_record_data"))
    R.check(len(rs) == 1, "e-read", b.relfile, "the record is read from the file")
    for c, a, cd in rs:
        p = a[1]
        s = [x for x in walk(p) if x[0] == "call" and "binary_search" in x[1]]
        ok = p[0] == "fld" and p[1] == "1" and p[2][0] == "idx" and p[2][1] == getf(me, "entry_index") and s and s[0][2][0] == getf(me, "entry_index") and p[2][2] == ("ok", s[0])
        R.check(ok and a[0] == getf(me, "reader"), "e-pos", c.where, "at the position indexed under the index", show(p)[:160])
        for x in s:
            search_ok(R, F, K, x, ix, c.where)
    for cd, t in K.full_cases(b):
        if not cd or is_err(t):
            continue
        if t[0] == "agg" and t[1].endswith("::Ok") and t[2][0][0] == "agg" and t[2][0][1].endswith("None"):
            R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and ("0" in lv or "1" in lv) and has(lt, lambda x: x[0] == "call" and ("binary_search" in x[1] or x[1].endswith("read_wal_record_data")))), "e-miss", b.relfile, "nothing only when it is not indexed or not in the file", show_dnf(cd)[:160])
    ge = R.body(ST + "WalFileMeta::get_entry" + CO)
    for cd, t in K.ret_cases(ge):
        if t[0] == "agg" and t[1].endswith("::Ok") and t[2][0][0] == "agg" and t[2][0][1].endswith("Some"):
            v = t[2][0][2][0]
            R.check(v[0] == "fld" and v[1] == "block" and has(v, lambda x: fid_is(x, "read_wal_record_data")), "e-block", ge.relfile, "the record's entry is answered", show(v)[:100])
    # a range
    fid = ST + "RaftEntryStorageInner::entries_from_cache"
    b = R.body(fid)
    me, lo, hi = P(fid, 1), P(fid, 2), P(fid, 3)
    rng = lambda t: t[0] == "agg" and t[1].endswith("::Range") and tuple(t[2]) == (lo, hi)
    pushes = K.sites(b, lambda c: re.search(r"Vec(<.*>)?::push$", c.fid or ""))
    cl = [l for l in counted_loops(K, b) if (l.lo, l.hi) == (lo, hi)]
    isix = lambda t: t[0] == "ok" and rng(t[1]) or any(t == l.var for l in cl)
    mapped = collected(K, b, rng, getf(me, "entry_cache"))
    if mapped:
        R.check(True, "e-cached", b.relfile, "each index of the range is taken from the cache")
    for c, a, cd in pushes:
        g = [x for x in walk(a[1]) if fid_is(x, "CircularKVCache::get")]
        R.check(bool(g) and g[0][2][0] == getf(me, "entry_cache") and isix(g[0][2][1]) and a[1] == ("ok", g[0]), "e-cached", c.where, "each index of the range is taken from the cache", show(a[1])[:120])
    R.floor(len(pushes) + mapped, 1, "cache range pushes")
    for cd, t in K.ret_cases(b):
        if t[0] == "agg" and t[1].endswith("Some"):
            R.check(all(not [l for l in cj if has(l[0], lambda x: fid_is(x, "CircularKVCache::get")) and not (l[0][0] == "disc" and ("1" in l[1]) == l[2])] for cj in cd), "e-cached-all", b.relfile, "the cache answers only when every index was there", show_dnf(cd)[:160])
    full_range(R, F, K, fid, b, rng)
    fid = ST + "RaftEntryStorageInner::read_raft_entry_range"
    b = R.body(fid + CO)
    me, lo, hi = P(fid, 1), P(fid, 2), P(fid, 3)
    pushes = [e for e in call_events(K, b, lambda c: re.search(r"Vec(<.*>)?::push$", c.fid or "")) if "entries_from_cache" not in str(e[3])]
    R.floor(len(pushes), 1, "range pushes")
    for c, a, cd, ch in pushes:
        v = a[1]
        d = K.deep(v)
        x = [y for y in walk(v) if y[0] in ("agg", "call") and "get_entry_by_index" in str(y[1])]
        R.check(bool(x) and v[0] == "ok", "e-each", c.where, "each entry comes from the file's index", show(v)[:120])
        if x:
            i = x[0][2][1] if len(x[0][2]) > 1 else None
            r = i[1] if i and i[0] == "ok" else None
            good = False
            if r is None:
                lp = [l for l in counted_loops(K, c.body) if l.var == i]
                r = ("agg", "core::ops::Range", (lp[0].lo, lp[0].hi), ("start", "end")) if lp else None
            if r and r[0] == "agg" and r[1].endswith("::Range"):
                s0, s1 = C0deep(K, r[2][0]), C0deep(K, r[2][1])
                item = x[0][2][0]
                mn, mx = getf(item, "min_seq"), getf(item, "max_seq")
                mm = lambda t, nm, p, q: t[0] == "call" and t[1].endswith("::" + nm) and any(L.lin(a0) == L.lin(p) and L.lin(a1) == q for a0, a1 in (t[2], t[2][::-1]))
                good = mm(s0, "max", lo, L.lin(mn)) and mm(s1, "min", hi, L.add(L.lin(mx), {(): 1}))
                if not good and (s0, s1) == (lo, hi):
                    good = True
            R.check(good, "e-part", c.where, "each file gives its part of the range", show(r)[:200] if r else "no range")
    for cd, t in K.ret_cases(b):
        if not cd or is_err(t):
            continue
        v = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
        fromcache = has(v, lambda x: fid_is(x, "entries_from_cache")) or "CircularKVCache" in show(v)
        lst = v[0] == "call" and "Vec" in v[1]
        R.check(fromcache or lst, "e-list", b.relfile, "the range is answered from the cache or the files", show(v)[:100])
    cs = [a for c, a, cd in K.sites(b, lambda c: (c.fid or "").endswith("entries_from_cache"))]
    R.check(all(tuple(a[1:]) == (lo, hi) for a in cs), "e-cache-range", b.relfile, "the cache is asked for the same range")
    from va.okflow import OkFlow, TOP
    fl = OkFlow(F, lambda c: {"read"} if re.search(r"get_entry_by_index$|read_wal_record_data$", c.fid or "") else (), shallow=True)
    n = 0
    for c in b.calls():
        if (c.fid or "").endswith("Iterator::next") and K.T.arg(c, 0)[0] == "agg":
            n += 1
            arr, out = iteration(fl, b, c)
            R.check(bool(arr) and all(e is TOP or "read" in e for e in arr) and not out, "e-read-each", c.where, "every index of a file's part is read, read errors are returned")
    for c in counted_loops(K, b):
        n += 1
        arr, out = iteration(fl, b, c)
        # the walk over the files goes on behind the inner loop
        R.check(bool(arr) and all(e is TOP or "read" in e for e in arr), "e-read-each", b.relfile, "every index of a file's part is read, read errors are returned")
    R.floor(n, 1, "index loop of read_raft_entry_range")
    walked = False
    for c in b.calls():
        if (c.fid or "").endswith("Iterator::next"):
            t = K.T.arg(c, 0)
            if mentions(t, getf(me, "files_meta")) and t[0] != "agg":
                walked = True
                bad = [x for x in walk(t) if x[0] == "call" and re.search(r"::(rev|skip|take|filter|step_by|take_while|skip_while|filter_map)$", x[1])]
                R.check(not bad, "e-files", c.where, "the files are walked in order, all of them", show(t)[:120])
    R.check(walked, "e-files", b.relfile, "the files are walked")
    # last entry
    fid = ST + "RaftEntryStorageInner::wal_last_entry"
    b = R.body(fid + CO)
    me = P(fid, 1)
    K4 = Cond(F, no_inline=r"record_file::|CircularKVCache|read_raft_entry$|max_sequence$")
    kinds = set()
    for cd, t in K4.ret_cases(b):
        if not cd or is_err(t):
            continue
        if t[0] == "agg" and t[1].endswith("::Ok") and t[2][0][0] == "agg" and t[2][0][1].endswith("Some"):
            v = t[2][0][2][0]
            R.check(v[0] == "ok" and fid_is(v[1], "CircularKVCache::last"), "t-cache", b.relfile, "the last cached entry", show(v)[:80])
            kinds.add("cache")
        elif t[0] == "agg":
            R.check(forced(cd, lambda lt, lv, lp: has(lt, lambda x: fid_is(x, "max_sequence"))), "t-none", b.relfile, "nothing only when no file has an entry", show_dnf(cd)[:160])
        else:
            x = t[1] if t[0] == "await" else t
            R.check("read_raft_entry" in str(x[1]) and fid_is(x[2][1], "max_sequence"), "t-file", b.relfile, "else the entry of the files' highest index", show(t)[:120])
            kinds.add("file")
    R.check(kinds == {"cache", "file"}, "t-ways", b.relfile, "the last entry is found in the cache or the files", str(kinds))
    for nm, fn, fld in (("max_sequence", "last", "max_seq"), ("min_sequence", "first", "min_seq")):
        bb = R.body(ST + "RaftEntryStorageInner::" + nm)
        for cd, t in K.ret_cases(bb):
            R.check("MAX" in show(t) or konst(t) == 2 ** 64 - 1 or t[0] == "fld" and t[1] == fld and (has(t, lambda x: x[0] == "call" and x[1].endswith("::" + fn)) or fn == "first" and t[2] == ("ok", getf(P(bb.id, 1), "files_meta"))) and mentions(t, getf(P(bb.id, 1), "files_meta")), f"t-{nm}", bb.relfile, f"{nm} is that of the {fn} file", show(t)[:100])
    # storage operations reach these
    for nm, target, n in (("entry", "read_raft_entry", 1), ("entries", "read_raft_entry_range", 2), ("last_entry", "wal_last_entry", 0), ("sync", "Writer::sync", 0)):
        bb = R.body(A + nm + CO)
        K5 = Cond(F, no_inline=r"::(%s)$" % target.replace("Writer::", "Writer::"))
        ss = K5.sites(bb, lambda c: (c.fid or "").endswith(target))
        R.check(len(ss) == 1 and ss[0][2] == TRUE and tuple(ss[0][1][1:1 + n]) == tuple(P(A + nm, i + 2) for i in range(n)), f"s-{nm}", bb.relfile, f"{nm} passes its arguments on")
        for cd, t in K5.ret_cases(bb):
            if cd and not is_err(t):
                R.check(has(t, lambda x: fid_is(x, target) or x[0] == "agg" and target in x[1]) or forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: fid_is(x, target)) and ("0" in lv) == lp), f"s-{nm}-ok", bb.relfile, f"{nm} returns its result", show(t)[:100])


def in_range(cj):
    """the literals say exactly min_seq <= x <= max_seq"""
    lo = hi = False
    for t, vs, pos in cj:
        if t[0] == "bin" and t[1] in ("Lt", "Le"):
            truth = ("1" in vs) == pos
            x, y = (t[2], t[3]) if truth else (t[3], t[2])
            if (t[1] == "Lt") == truth:
                continue        # strict
            fx = x[1] if x[0] == "fld" else None
            fy = y[1] if y[0] == "fld" else None
            lo = lo or fx == "min_seq" and fy not in ("min_seq", "max_seq")
            hi = hi or fy == "max_seq" and fx not in ("min_seq", "max_seq")
    return lo and hi and len(cj) == 2


def looped(K, b, me, ix):
    """every file is asked exactly when its range has the index"""
    src = getf(me, "files_meta")
    s = K.sites(b, lambda c: (c.fid or "").endswith("get_entry_by_index"))
    if len(s) != 1:
        return False
    c, a, cd = s[0]
    if not (a[0][0] == "ok" and mentions(a[0], src) and not has(a[0], lambda x: x[0] == "call" and re.search(r"::(filter|take|skip|find|step_by|take_while|skip_while)$", x[1]))):
        return False
    rest = [frozenset(l for l in cj if mentions(l[0], a[0]) and l[0][0] != "disc") for cj in cd]
    return len(cd) == 1 and in_range(rest[0])


def C0deep(K, t):
    """components of an intersection() result"""
    return K.deep(t)


def search_ok(R, F, K, x, ix, where):
    """binary_search_by(|v| v.0.cmp(&ix)) / binary_search_by_key(&ix, |v| v.0)"""
    if x[1].endswith("binary_search_by"):
        cl = closure_id(x[2][1])
        cb = F.get(cl) if cl else None
        ok = False
        if cb:
            for cd, t in K.ret_cases(cb):
                ok = t[0] == "call" and t[1].endswith("::cmp") and t[2][0] == ("fld", "0", ("param", cl, 2)) and ix in x[2][1][2] and t[2][1] != t[2][0]
        R.check(ok, "e-search", where, "the index is searched by log index", show(x)[:120])
    elif x[1].endswith("binary_search_by_key"):
        R.check(x[2][1] == ix, "e-search", where, "the index is searched by log index", show(x)[:120])


def collected(K, b, rng, cache):
    """1 when the answer is (a..b).map(|i| cache.get(&i).cloned()).collect::<Option<Vec<_>>>()"""
    for cd, t in K.ret_cases(b):
        if t[0] == "call" and cd == TRUE and any(re.search(r"Iterator(<.*>)?>?::collect$", c.fid or c.name) for c in b.calls()):
            m = t
            if m[0] == "call" and m[1].endswith("::map") and rng(m[2][0]):
                v = K.T.ok(m)
                if v[0] == "call" and re.search(r"::(cloned|copied)$", v[1]):
                    v = v[2][0]
                if fid_is(v, "CircularKVCache::get") and v[2][0] == cache and v[2][1] == ("ok", m[2][0]):
                    return 1
    return 0


def full_range(R, F, K, fid, b, rng):
    """every pass pushes or leaves with None"""
    from va.okflow import OkFlow, TOP
    fl = OkFlow(F, lambda c: {"push"} if re.search(r"Vec(<.*>)?::push$", c.fid or "") else (), none_fails=True)
    n = collected(K, b, rng, getf(P(fid, 1), "entry_cache"))
    lo, hi = P(fid, 2), P(fid, 3)
    for c in list(b.calls()) + counted_loops(K, b):
        if isinstance(c, Counted) and (c.lo, c.hi) == (lo, hi) or not isinstance(c, Counted) and (c.fid or "").endswith("iterator::Iterator::next") and rng(K.T.arg(c, 0)):
            n += 1
            arr, out = iteration(fl, b, c)
            R.check(bool(arr) and all(e is TOP or "push" in e for e in arr), "e-cached-each", c.where, "every index of the range is put in the answer")
            R.check(not out, "e-cached-stop", c.where, "with an index missing the cache does not answer")
    R.floor(n, 1, "cache range loop")
