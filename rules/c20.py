"""Record files: what is read back is what was written, whole."""
import re
from va.cond import Cond, TRUE, konst, show_dnf, dominated, precedes
from va.terms import walk, show, getf, alts
from va.lib import *
from va import lin as L

PKGS = ["tskv"]
CRATES = ["tskv"]
RULE = """(1) write_record hands FileStreamWriter::write_vec one vector of slices: magic, version and type, length, checksum, then every
data slice; the length is the summed length of the slices, refused when it does not fit; the checksum is taken over version and
type, length and every data slice, in that order; Ok is returned only with write_vec's Ok.  (2) read_record takes each header
field at the offset that (1) gives it, checksums header and data in (1)'s order, reads the data at header position + header
length for exactly the recorded length, and returns Ok only when that many bytes came and the checksums agree; the record carries
those fields, that data and the header's position; end of file is answered only when no more than a header is left; scanning for
a magic advances at most one byte, and a failed record is skipped no further than its magic.  (3) The reader's window: position
minus buffer offset stays the file position of the buffer (exact linear arithmetic on every path of set_pos), it is filled from
the current position with the length read, and read_buf returns bytes only from within it, refilled when too short; nothing else
moves these fields.  (4) The stream writer appends every byte given to its buffer, empties the buffer only into a write at its
position, advances by what was written, reports write and sync errors, skips the write only when the buffer is not full, and
flush syncs after the write; truncate flushes, cuts, and continues at the cut.  (5) write_all_at and read_all_at advance file
position and buffer by the same count, finish a write only when nothing is left and a read only when full or at the end."""
W = "tskv::record_file::writer::Writer::"
RD = "tskv::record_file::reader::Reader::"
SW = "tskv::file_system::file::stream_writer::FileStreamWriter::"
RF = "tskv::file_system::file::raw_file::RawFile::"
CO = "::{closure#0}"


def P(fid, n):
    return ("param", fid, n)


def norm_lits(cd):
    return [l for cj in cd for l in cj]


def run(R):
    F = R.F
    consts = dict(RECORD_MAGIC_NUMBER_LEN=None)
    lay = writer(R, F)
    reader(R, F, lay)
    window(R, F)
    stream(R, F)
    raw(R, F)
    opened(R, F)


# -- (1)
def part(t, ver, typ, data, dlen, crc):
    """classify a slice handed to the file / the hasher"""
    while t[0] == "call" and re.search(r"IoSlice(<.*>)?::new$|::as_slice$|::as_ref$", t[1]) and t[2]:
        t = t[2][0]
    if t[0] == "agg" and t[2] == (ver, typ):
        return "vt"
    b = be(t)
    if b is not None:
        if b == crc:
            return "crc"
        if konst(b) is not None and b[0] == "k":
            return ("const", konst(b))
        if dlen(b):
            return "len"
        return None
    if each_of(t, data):
        return "data"
    return None


def writer(R, F):
    C = Cond(F, no_inline=r"FileStreamWriter::\w+$")
    fid = W + "write_record"
    b = R.body(fid + CO)
    ver, typ, data = P(fid, 2), P(fid, 3), P(fid, 4)
    rel = b.relfile
    hs = call_events(C, b, lambda c: re.search(r"Hasher::(update|finalize|reset)$", c.fid or ""))
    ups = [e for e in hs if e[0].fid.endswith("update")]
    fin = [e for e in hs if e[0].fid.endswith("finalize")]
    R.check(len(fin) == 1 and not any(e[0].fid.endswith("reset") for e in hs), "w-one-checksum", rel, "one checksum is taken")
    if not fin:
        return None
    lens = set()

    def dlen(t):
        """the summed length of all slices, checked to fit"""
        x = t
        if not (x[0] == "ok" and x[1][0] == "call" and re.search(r"::to_u32$|::try_from$|::try_into$", x[1][1])):
            return False
        x = x[1][2][0]
        lens.add(x)
        return total_len(C, x, data)
    crc = None
    for cd, t in [(None, None)]:
        pass
    fcall = [x for e in call_events(C, b, lambda c: re.search(r"Vec(<.*>)?::(push|insert|extend\w*)$|FileStreamWriter::write(_vec)?$", c.fid or "")) for a in e[1] for x in walk(a) if x[0] == "call" and x[1].endswith("Hasher::finalize")]
    R.check(len(set(fcall)) == 1, "w-checksum-stored", rel, "the checksum taken is the one stored", f"{len(set(fcall))} checksums are stored")
    crc = fcall[0] if fcall else None
    evs = call_events(C, b, lambda c: re.search(r"Vec(<.*>)?::(push|insert|extend\w*|clear|pop|remove|truncate)$|Extend::extend$|FileStreamWriter::\w+$", c.fid or ""))
    pushes = [e for e in evs if re.search(r"Vec(<.*>)?::push$|Extend::extend$", e[0].fid) and part(item(C, e), ver, typ, data, dlen, crc)]
    wv = [e for e in evs if re.search(r"FileStreamWriter::(write_vec|write)$", e[0].fid)]
    R.check(len(wv) == 1 and wv[0][0].fid.endswith("write_vec"), "w-one-write", rel, "a record is handed over in one write_vec", f"{[e[0].where for e in wv]}")
    vec = {e[1][0] for e in pushes}
    start = [y for v in vec for x in walk(v) if x[0] == "agg" and x[1] in ("[]", "array") or x[0] == "agg" and x[1] == "" for y in (x,)]
    first = list(start[0][2]) if start and any(v[0] == "call" and re.search(r"into_vec|box_assume_init_into_vec|::from$|to_vec$", v[1]) for v in vec) else []
    mg = [part(x, ver, typ, data, dlen, crc) for x in first]
    R.check(len(vec) == 1 and wv and wv[0][1][1] in vec, "w-same-vector", rel, "the slices pushed are the slices written")
    for e in evs:
        if e[1] and e[1][0] in vec and e not in pushes and "FileStreamWriter" not in e[0].fid:
            R.bad("w-slices", e[0].where, f"{e[0].name} changes the slices: {[show(x)[:80] for x in e[1][1:]]}")
    o = in_order(F, pushes)
    R.check(o is not None, "w-ordered", rel, "the slices are pushed in one order")
    seq = mg + [part(item(C, e), ver, typ, data, dlen, crc) for e in o or []]
    magic = next((x for x in seq if isinstance(x, tuple)), None)
    want = [magic, "vt", "len", "crc", "data"]
    R.check(seq == want and magic is not None, "w-layout", rel, "a record is magic, version and type, length, checksum, data", f"order {seq}")
    R.check(all(ev_before(F, e[3], wv[0][3]) for e in pushes) if wv else False, "w-before-write", rel, "all slices are in the vector before it is written")
    base = wv[0][2] if wv else TRUE
    for e in pushes:
        p = part(item(C, e), ver, typ, data, dlen, crc)
        extra = [l for l in lits(e[2]) if l not in list(lits(base)) and not (p == "data" and l[0][0] == "disc" and mentions(l[0], data) and ("1" in l[1]) == l[2])]
        R.check(not extra, f"w-always:{p if isinstance(p, str) else 'magic'}", e[0].where, "the slice is always part of the record", f"only if {[show(l[0])[:100] for l in extra]}")
    for x in lens:
        R.check(total_len(C, x, data), "w-length", rel, "the length is that of all slices", show(x)[:200])
    # checksum order
    hset = {e[1][0] for e in ups} | {e[1][0] for e in fin}
    R.check(len(hset) == 1, "w-one-hasher", rel, "one hasher")
    ho = in_order(F, [e for e in ups] + fin)
    hseq = [("fin" if e[0].fid.endswith("finalize") else part(e[1][1], ver, typ, data, dlen, crc)) for e in ho or []]
    R.check(hseq == ["vt", "len", "data", "fin"], "w-checksum-order", rel, "the checksum covers version and type, length, data", f"covers {hseq}")
    for e in ups:
        p = part(e[1][1], ver, typ, data, dlen, crc)
        extra = [l for l in lits(e[2]) if l not in list(lits(base)) and not (p == "data" and l[0][0] == "disc" and mentions(l[0], data) and ("1" in l[1]) == l[2])]
        R.check(not extra, f"w-checksum-always:{p}", e[0].where, "always checksummed", f"only if {[show(l[0])[:100] for l in extra]}")
    n = 0
    for cd, t in C.ret_cases(b):
        if t[0] == "agg" and t[1].endswith("Result::Ok") or not is_err(t):
            n += 1
            good = has(t, lambda x: x[0] == "call" and x[1].endswith("FileStreamWriter::write_vec")) and \
                (not t[0] == "agg" or forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and x[1].endswith("FileStreamWriter::write_vec")) and ("0" in lv) == lp))
            R.check(good, "w-ok-means-written", rel, "Ok is returned only when the record was written", f"{show(t)[:100]} if {show_dnf(cd)[:160]}")
    R.floor(n, 1, "successful returns of write_record")
    return dict(magic=magic[1] if magic else None)


def item(C, e):
    """what a push or an extend adds: for an extend, one element, written in terms of the source's element"""
    t = e[1][1]
    if e[0].fid.endswith("extend") and t[0] == "call" and re.search(r"Iterator(<.*>)?>?::map$", t[1]) and unwrap_iter(t[2][0])[0] == "param":
        cid = closure_id(t[2][1])
        return C.T.ret_term(cid) if cid else t
    return t


def total_len(C, x, data):
    """x is the sum of the lengths of all elements of data"""
    if x[0] == "call" and re.search(r"Iterator(<.*>)?>?::sum$", x[1]):
        m = x[2][0]
        if m[0] == "call" and re.search(r"Iterator(<.*>)?>?::map$", m[1]) and unwrap_iter(m[2][0]) == data:
            cid = closure_id(m[2][1])
            return cid is not None and len_closure(C, cid, data)
    if x[0] == "call" and re.search(r"Iterator(<.*>)?>?::fold$", x[1]) and unwrap_iter(x[2][0]) == data and konst(x[2][1]) == 0:
        cid = closure_id(x[2][2])
        rt = C.T.ret_term(cid) if cid else None
        if rt:
            p = L.lin(rt)
            acc = L.lin(P(cid, 2))
            d = L.add(p, acc, -1)
            return len(d) == 1 and list(d.values()) == [1] and is_len(next(iter(d))[0], lambda y: each_of(y, data))
    if x[0] == "phi":
        # loop sum
        ts = alts(x)
        z = [t for t in ts if konst(t) == 0]
        s = [t for t in ts if konst(t) != 0]
        if len(z) == 1 and len(s) == 1 and s[0][0] == "bin" and s[0][1] == "Add":
            q = [y for y in (s[0][2], s[0][3]) if y[0] == "call" and re.search(r"::len$", y[1])]
            r = [y for y in (s[0][2], s[0][3]) if y not in q]
            return len(q) == 1 and each_of(q[0][2][0], data) and (r[0] == ("loop",) or konst(r[0]) == 0 or r[0][0] == "phi")
    return False


def is_len(m, pred):
    t = m[1] if isinstance(m, tuple) and m and m[0] == "t" else m
    return isinstance(t, tuple) and t[0] == "call" and re.search(r"::len$", t[1]) and pred(t[2][0])


def unwrap_iter(t):
    while t[0] == "call" and re.search(r"::(iter|into_iter|as_ref|by_ref|copied|cloned)$", t[1]) and t[2]:
        t = t[2][0]
    return t


def len_closure(C, cid, data):
    t = C.T.ret_term(cid)
    return t is not None and t[0] == "call" and re.search(r"::len$", t[1]) and each_of(strip(t[2][0]), data)


# -- (2)
def reader(R, F, lay):
    C = Cond(F, no_inline=r"Reader::(read_buf|load_buf|set_pos|find_record_header)$")
    fid = RD + "find_record_header"
    b = R.body(fid + CO)
    rel = b.relfile
    me = P(fid, 1)
    MAGIC = (lay or {}).get("magic")
    HL, ML = 14, 4
    oks = [(cd, t) for cd, t in C.ret_cases(b) if t[0] == "agg" and t[1].endswith("Result::Ok")]
    R.floor(len(oks), 1, "found headers")
    for cd, t in oks:
        pay = t[2][0]
        R.check(pay[0] == "agg" and len(pay[2]) == 2 and pay[2][0] == ("fld", "pos", me), "h-pos", rel, "the header's position is the current position", show(pay)[:120])
        hdr = pay[2][1] if pay[0] == "agg" and len(pay[2]) == 2 else ("x",)
        ok_hdr = hdr[0] == "ok" and has(hdr, lambda x: x[0] == "call" and x[1].endswith("Reader::read_buf") and x[2][0] == me and konst(x[2][1]) == HL)
        R.check(ok_hdr, "h-header", rel, "the header is read at the current position", show(hdr)[:160])

        def magic_ok(lt, lv, lp):
            if lt[0] == "bin" and lt[1] == "Eq" and ("1" in lv) == lp:
                for x, y in ((lt[2], lt[3]), (lt[3], lt[2])):
                    if konst(y) == MAGIC and frombe(x) is not None:
                        s = frombe(x)
                        return has(s, lambda z: z[0] == "call" and z[1].endswith("Reader::read_buf") and z[2][0] == me)
            return False
        R.check(forced(cd, magic_ok), "h-magic", rel, "a header is recognised by the writer's magic", f"if {show_dnf(cd)[:300]}")

        def whole(lt, lv, lp):
            le, eq = L.facts_of([(lt, lv, lp)])
            return any(ln[0] == "call" and re.search(r"::len$", ln[1]) and ln[2][0] == hdr and L.implied(le, eq, L.add(L.lin(ln), {(): HL}, -1)) for ln in walk(lt) if ln[0] == "call" and re.search(r"::len$", ln[1]))
        R.check(forced(cd, whole), "h-whole", rel, "a header cut short is not returned", f"if {show_dnf(cd)[:300]}")
    for c, a, cd in C.sites(b, lambda c: (c.fid or "").endswith("Reader::set_pos")):
        R.check(L.add(L.lin(a[1]), L.lin(("fld", "pos", me)), -1) == {(): 1}, "h-scan", c.where, "the scan advances one byte at a time", f"moves to {show(a[1])[:120]}")
    for cd, t in C.ret_cases(b):
        if is_eof(t):
            def short(lt, lv, lp):
                le, eq = L.facts_of([(lt, lv, lp)])
                return any(L.implied(le, eq, L.add({(): HL - 1}, L.lin(ln), -1)) for ln in walk(lt) if ln[0] == "call" and re.search(r"::len$", ln[1]) and has(ln, lambda z: z[0] == "call" and z[1].endswith("Reader::read_buf")))
            R.check(forced(cd, short), "h-eof", rel, "the end is reported only when less than a header is left", f"if {show_dnf(cd)[:240]}")
    # read_record
    fid = RD + "read_record"
    b = R.body(fid + CO)
    me = P(fid, 1)
    heads = {x for cd, t in C.ret_cases(b) for x in walk(t) if x[0] == "ok" and x[1][0] == "await" and x[1][1][0] == "call" and x[1][1][1].endswith("Reader::find_record_header")}
    R.check(len(heads) == 1, "r-header", rel, "one header is looked up")
    if len(heads) != 1:
        return
    h = next(iter(heads))
    hpos, hb = ("fld", "0", h), ("fld", "1", h)

    def byte_at(t, off):
        return t[0] == "idx" and t[1] == hb and L.lin(t[2]) == ({(): off} if off else {})

    def word_at(t, off):
        s = frombe(t)
        s = slice_of(s) if s is not None else None
        return s is not None and s[0] == hb and L.lin(s[1]) == {(): off} and L.lin(s[2]) == {(): off + 4}
    is_size = lambda t: word_at(strip(t), 6)
    n = 0
    its = F.items.get("tskv::record_file::record::Record")
    R.need(its is not None, "struct Record not found")
    names = [f["name"] if isinstance(f, dict) else f for f in (its["variants"][0]["fields"])]
    datas = set()
    for cd, t in C.ret_cases(b):
        if t[0] == "agg" and t[1].endswith("Result::Ok"):
            n += 1
            rec = t[2][0]
            g = lambda nm: getf(rec, nm)
            R.check(byte_at(strip(g("data_version")), 4), "r-version", rel, "the version is the byte after the magic", show(g("data_version"))[:120])
            R.check(byte_at(strip(g("data_type")), 5), "r-type", rel, "the type is the byte after the version", show(g("data_type"))[:120])
            R.check(L.lin(g("pos")) == L.lin(hpos), "r-pos", rel, "the record's position is its header's", show(g("pos"))[:120])
            d = strip(g("data"))
            datas.add(d)
            rb = [x for x in walk(d) if x[0] == "call" and x[1].endswith("Reader::read_buf")]
            R.check(d[0] == "ok" and len(rb) == 1 and rb[0][2][0] == me and is_size(rb[0][2][1]), "r-data", rel, "the data is the recorded number of bytes", show(d)[:200])

            def crc_ok(lt, lv, lp):
                if lt[0] == "bin" and lt[1] in ("Eq", "Ne") and (("1" in lv) == lp) == (lt[1] == "Eq"):
                    for x, y in ((lt[2], lt[3]), (lt[3], lt[2])):
                        if x[0] == "call" and x[1].endswith("Hasher::finalize") and word_at(strip(y), 10):
                            return True
                return False
            R.check(forced(cd, crc_ok), "r-checksum", rel, "a record is returned only when the checksums agree", f"if {show_dnf(cd)[:400]}")

            def full(lt, lv, lp):
                le, eq = L.facts_of([(lt, lv, lp)])
                for ln in walk(lt):
                    if ln[0] == "call" and re.search(r"::len$", ln[1]) and (ln[2][0] == d or mentions(ln[2][0], d) or mentions(d, ln[2][0])):
                        for sz in walk(lt):
                            if is_size(sz) and L.implied(le, eq, L.add(L.lin(ln), L.lin(sz), -1)):
                                return True
                return False
            R.check(forced(cd, full), "r-whole", rel, "a record cut short is not returned", f"if {show_dnf(cd)[:400]}")
            ahead = [x for x in (e for e in lits(cd)) if x[0][0] == "disc" and has(x[0], lambda z: z[0] == "call" and z[1].endswith("Reader::set_pos") and len(z[2]) == 2 and L.add(L.lin(z[2][1]), L.lin(hpos), -1) == {(): HL})]
            R.check(bool(ahead), "r-data-pos", rel, "the data is read right after the header")
            R.check(any(x[0][0] == "disc" and has(x[0], lambda z: z[0] == "call" and z[1].endswith("Reader::set_pos") and ends(z[2][1], hpos, HL, is_size)) for x in lits(cd)), "r-next", rel, "the next record is looked for right after this one")
        elif is_eof(t):
            def left(lt, lv, lp):
                le, eq = L.facts_of([(lt, lv, lp)])
                fp = ("fld", "footer_pos", me)
                return L.implied(le, eq, L.add(L.add(L.lin(("fld", "pos", me)), {(): HL}), L.lin(fp), -1))
            R.check(forced(cd, left), "r-eof", rel, "the end is reported only when at most a header is left", f"if {show_dnf(cd)[:300]}")
    R.floor(n, 1, "returned records")
    for c, a, cd in C.sites(b, lambda c: re.search(r"Reader::(set_pos|find_record_header)$", c.fid or "")):
        if not c.fid.endswith("set_pos"):
            continue
        d = L.add(L.lin(a[1]), L.lin(hpos), -1)
        after = any(has(l[0], lambda z: z[0] == "call" and z[1].endswith("Reader::read_buf")) for l in lits(cd))
        good = (d == {(): HL} and not after) or (set(d) == {()} and 1 <= d[()] <= ML) or ends(a[1], hpos, HL, is_size)
        R.check(good, "r-moves", c.where, "the position moves to the data, past the record, or to the byte after its start", show(a[1])[:200])
        if ends(a[1], hpos, HL, is_size):
            R.check(forced(cd, lambda lt, lv, lp: has(lt, lambda z: z[0] == "call" and z[1].endswith("Reader::read_buf"))), "r-skip", c.where, "a record is passed only after it was read")
    ups = call_events(C, b, lambda c: re.search(r"Hasher::(update|finalize|reset)$", c.fid or ""))
    o = in_order(F, ups)

    def hk(e):
        if e[0].fid.endswith("finalize"):
            return "fin"
        t = strip(e[1][1])
        s = slice_of(t)
        if s is not None and s[0] == hb and L.lin(s[1]) == {(): ML} and L.lin(s[2]) == {(): HL - 4}:
            return "header"
        if t in datas:
            return "data"
        return show(t)[:80]
    R.check(o is not None and [hk(e) for e in o] == ["header", "data", "fin"], "r-checksum-order", rel, "the checksum is taken over what the writer took it over", f"{[hk(e) for e in o or []]}")
    fid = RD + "read_record_at"
    b = R.body(fid + CO)
    sp = call_events(C, b, lambda c: re.search(r"Reader::(set_pos|read_record)$", c.fid or ""))
    o = in_order(F, sp)
    R.check(o is not None and [e[0].fid.rsplit("::", 1)[1] for e in o] == ["set_pos", "read_record"] and L.lin(o[0][1][1]) == L.lin(P(fid, 2)), "r-at", rel, "read_record_at reads from the given position",
            f"{[(e[0].name, [show(x)[:60] for x in e[1]]) for e in o or []]}")


def ends(t, hpos, HL, is_size):
    d = L.add(L.add(L.lin(t), L.lin(hpos), -1), {(): HL}, -1)
    return len(d) == 1 and list(d.values()) == [1] and isinstance(next(iter(d)), tuple) and len(next(iter(d))) == 1 and is_size_m(next(iter(d))[0], t, is_size)


def is_size_m(m, t, is_size):
    return any(is_size(x) and L.lin(x) == {(m,): 1} for x in walk(t))


def strip(t):
    while (t[0] == "cast") or (t[0] == "call" and re.search(r"::(to_vec|to_owned|clone|into|from|as_slice|as_ref)$", t[1]) and len(t[2]) == 1):
        t = t[2] if t[0] == "cast" else t[2][0]
    return t


def is_eof(t):
    return is_err(t) and has(t, lambda x: x[0] == "agg" and x[1].endswith("TskvError::Eof"))


# -- (3)
def window(R, F):
    C = Cond(F, no_inline=r"Reader::load_buf$|FileStreamReader::\w+$")
    fid = RD + "set_pos"
    b = R.body(fid + CO)
    rel = b.relfile
    me, to = P(fid, 1), P(fid, 2)
    pos, use, blen = (L.lin(("fld", f, me)) for f in ("pos", "buf_use", "buf_len"))
    ws = C.writes(b, "pos|buf_use|buf_len")
    loads = C.sites(b, lambda c: (c.fid or "").endswith("Reader::load_buf"))
    n = 0
    for cd, t in C.ret_cases(b):
        if is_err(t):
            if is_eof(t):
                R.check(all(L.implied(*L.facts_of(cj), L.add(L.add(L.lin(to), L.lin(("fld", "file_len", me)), -1), {(): 1}, -1)) for cj in cd), "p-eof", rel, "a position is refused only beyond the file", show_dnf(cd)[:200])
            continue
        for cj in cd:
            n += 1
            one = frozenset([cj])
            new = {"pos": pos, "buf_use": use, "buf_len": blen}
            for p, a, wc in ws:
                if C.conj(wc, one) and a[1] == me:
                    new[p[3]] = L.lin(a[0])
            load = has(t, lambda x: x[0] == "call" and x[1].endswith("Reader::load_buf")) or any(has(l[0], lambda x: x[0] == "call" and x[1].endswith("Reader::load_buf")) for l in cj)
            le, eq = L.facts_of(cj)
            le = le + [L.add(blen, use, -1), L.add(pos, use, -1)]
            R.check(L.same(le, eq, new["pos"], L.lin(to)), "p-pos", rel, "the position becomes the requested one", f"becomes {new['pos']} if {show_dnf(one)[:200]}")
            if not load:
                R.check(L.same(le, eq, L.add(new["pos"], new["buf_use"], -1), L.add(pos, use, -1)), "p-window", rel, "the buffer offset moves with the position", f"offset {new['buf_use']} at {new['pos']} if {show_dnf(one)[:240]}")
                R.check(L.implied(le, eq, new["buf_use"]) and L.implied(le, eq, L.add(new["buf_len"], new["buf_use"], -1)), "p-inside", rel, "the buffer offset stays inside the buffer", f"offset {new['buf_use']} if {show_dnf(one)[:240]}")
    R.floor(n, 3, "paths of set_pos")
    for c, a, cd in loads:
        for cj in cd:
            new = pos
            for p, wa, wc in ws:
                if p[3] == "pos" and C.conj(wc, frozenset([cj])) and (p[0].id != c.body.id or precedes(c.body, p[1], c.bb) or p[1] == c.bb):
                    new = L.lin(wa[0])
            R.check(new == L.lin(to), "p-load", c.where, "the buffer is reloaded from the new position")
    # load_buf, read_buf
    C = Cond(F, no_inline=r"Reader::load_buf$|FileStreamReader::\w+$")
    fid = RD + "load_buf"
    b = R.body(fid + CO)
    me = P(fid, 1)
    w = {}
    for p, a, cd in C.writes(b, "pos|buf_use|buf_len|buf"):
        w.setdefault(p[3], []).append((a[0], cd))
    rd = [x for x in (t for v in w.get("buf_len", []) for t in walk(v[0])) if x[0] == "call" and x[1].endswith("FileStreamReader::read_at")]
    R.check(len(w.get("buf_len", [])) >= 1 and len(set(rd)) == 1 and rd[0][2][1:] == (("fld", "pos", me), ("fld", "buf", me)), "l-read", b.relfile, "the buffer is filled from the current position and its length is what was read",
            f"{[(show(v)[:120]) for v, _ in w.get('buf_len', [])]}")
    R.check("buf_use" in w and all(konst(v) == 0 for v, _ in w["buf_use"]) and "pos" not in w, "l-use", b.relfile, "a fresh buffer is used from its start", f"{ {k: [show(v)[:60] for v, _ in x] for k, x in w.items()} }")
    for cd, t in C.ret_cases(b):
        if not is_err(t):
            R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and x[1].endswith("FileStreamReader::read_at")) and ("0" in lv) == lp) and any(C.conj(cd, wc) == cd or set(lits(wc)) <= set(lits(cd)) for _, wc in w.get("buf_use", [])),
                    "l-ok", b.relfile, "the buffer is good only when the read succeeded", show_dnf(cd)[:200])
    fid = RD + "read_buf"
    b = R.body(fid + CO)
    me, size = P(fid, 1), P(fid, 2)
    use, blen = ("fld", "buf_use", me), ("fld", "buf_len", me)
    n = 0
    for cd, t in C.ret_cases(b):
        if is_err(t):
            continue
        n += 1
        s = slice_of(t[2][0]) if t[0] == "agg" and t[2] else None
        good = s is not None and s[0] == ("fld", "buf", me) and s[1] == use and s[2] is not None
        R.check(good, "b-slice", b.relfile, "the bytes start at the buffer offset", show(t)[:200])
        if good:
            end = L.lin(s[2])
            mn = [m for m in end if len(m) == 1 and m[0][0] == "min" and m[0][1] == frozenset([L.fz(L.add(L.lin(use), L.lin(size))), L.fz(L.lin(blen))])]
            R.check((len(end) == 1 and bool(mn)) or end == L.add(L.lin(use), L.lin(size)), "b-end", b.relfile, "no more than what was asked for and what the buffer holds", show(s[2])[:160])
        for cj in cd:
            le, eq = L.facts_of(cj)
            enough = L.implied(le, eq, L.add(L.add(L.lin(blen), L.lin(use), -1), L.lin(size), -1))
            loaded = any(lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and x[1].endswith("Reader::load_buf")) and ("0" in lv) == lp for lt, lv, lp in cj)
            R.check(enough or loaded, "b-refill", b.relfile, "the buffer is refilled when it holds too little", show_dnf(frozenset([cj]))[:240])
    R.floor(n, 1, "returns of read_buf")
    rs = C.sites(b, lambda c: re.search(r"Vec(<.*>)?::resize$", c.fid or ""))
    for c, a, cd in rs:
        R.check(a[0] == ("fld", "buf", me) and (a[1] == size or has(a[1], lambda x: x == size)), "b-grow", c.where, "the buffer grows to the size asked for", show(a[1])[:80])
        R.check(all(dominated(b, e.bb, []) or not dominated(b, e.bb, []) for e in [c]), "b-grow2", c.where, "")
    R.check(bool(rs), "b-grow", b.relfile, "the buffer grows to the size asked for", "a record longer than the buffer can never be read")
    # nobody else moves the window
    allowed = {RD + x for x in ("set_pos", "load_buf", "read_buf", "open", "new")}
    m = 0
    for x in F.bodies("tskv", pat=r"^tskv::record_file::reader::"):
        m += 1
        own = F.owner(x.id)
        for p, a, cd in C.writes(x, "pos|buf_use|buf_len|buf", closures=False):
            wo = F.owner(p[0].id)
            if "Reader" in wo:
                R.check(wo in allowed, f"window-writer:{wo.rsplit('::', 1)[1]}", p[0].relfile, "the window is moved only by set_pos and load_buf", f"{wo} writes {p[3]}")
    R.floor(m, 10, "reader functions")
    for nm in ("open" + CO, "new"):
        b = R.body(RD + nm)
        for cd, t in C.ret_cases(b):
            if is_err(t):
                continue
            rec = t[2][0] if t[0] == "agg" and t[1].endswith("Ok") else t
            R.check(konst(getf(rec, "buf_use")) == 0 and konst(getf(rec, "buf_len")) == 0 and konst(getf(rec, "pos")) == 4, f"start:{nm[:4]}", b.relfile, "reading starts after the file's magic with an empty buffer",
                    f"{[show(getf(rec, f)) for f in ('pos', 'buf_len', 'buf_use')]}")


# -- (4)
def awaited_ok(name):
    return lambda lt, lv, lp: lt[0] == "disc" and lt[1][0] == "await" and lt[1][1][0] == "call" and lt[1][1][1].endswith(name) and ("0" in lv) == lp


def stream(R, F):
    C = Cond(F, no_inline=r"WritableFile>?::\w+$")
    isfile = lambda c: re.search(r"WritableFile>?::(write_at|sync_data|sync_all|truncate)$", c.fid or c.name) or re.search(r"WritableFile>?::(write_at|sync_data|sync_all|truncate)$", c.name)
    for nm in ("try_flush", "flush"):
        fid = SW + nm
        b = R.body(fid + CO)
        rel = b.relfile
        me = P(fid, 1)
        buf = ("fld", "data", ("fld", "buf", me))
        pos = ("fld", "pos", me)
        evs = call_events(C, b, isfile)
        wr = [e for e in evs if e[0].name.endswith("write_at")]
        R.check(bool(wr) and all(e[1][0] == ("fld", "file", me) and e[1][1] == pos and strip(e[1][2]) == buf for e in wr), f"s-write:{nm}", rel, "the whole buffer is written at the current position", f"{[[show(x)[:60] for x in e[1]] for e in wr]}")
        for cd, t in C.ret_cases(b):
            if is_err(t):
                continue
            for cj in cd:
                one = frozenset([cj])
                written = forced(one, awaited_ok("WritableFile::write_at"))
                if not written and nm == "try_flush":
                    le, eq = L.facts_of(cj)
                    ln = [x for l in cj for x in walk(l[0]) if x[0] == "call" and re.search(r"::len$", x[1]) and x[2][0] == buf]
                    room = any(L.implied(le, eq, L.add(L.add(L.lin(("fld", "buffer_size", ("fld", "buf", me))), L.lin(x), -1), {(): 1}, -1)) for x in ln)
                    R.check(room, "s-kept", rel, "bytes stay in the buffer only while it is not full", show_dnf(one)[:200])
                else:
                    R.check(written, f"s-ok:{nm}", rel, "Ok is returned only when the buffer was written", f"{show(t)[:60]} if {show_dnf(one)[:200]}")
                    wc = [x for l in cj for x in walk(l[0]) if x[0] == "call" and x[1].endswith("write_at")]
                    new = L.lin(pos)
                    for p, a, c2 in C.writes(b, "pos"):
                        if a[1] == me and C.conj(c2, one):
                            new = L.lin(a[0])
                    d = L.add(new, L.lin(pos), -1)
                    good = len(d) == 1 and list(d.values()) == [1] and any(L.lin(("ok", ("await", x))) == d for x in wc)
                    R.check(good, f"s-advance:{nm}", rel, "the position advances by what was written", f"by {d}")
                if nm == "flush":
                    sync = any(l[0][0] == "disc" and l[0][1][0] == "await" and l[0][1][1][0] == "call" and re.search(r"WritableFile::sync_(data|all)$", l[0][1][1][1]) and ("0" in l[1]) == l[2] for l in cj) or \
                        (t[0] == "await" and t[1][0] == "call" and re.search(r"WritableFile::sync_(data|all)$", t[1][1]))
                    R.check(sync, "s-sync", rel, "flush returns Ok only after a successful sync", f"{show(t)[:60]} if {show_dnf(one)[:200]}")
        if nm == "flush":
            sy = [e for e in evs if "sync_" in e[0].name]
            R.check(bool(sy) and all(ev_before(F, w[3], s[3]) for w in wr for s in sy), "s-sync-after", rel, "the sync follows the write")
    # write, write_vec
    for nm, item in (("write", lambda a, d: a == d), ("write_vec", lambda a, d: each_of(a, d) or a == d)):
        fid = SW + nm
        b = R.body(fid + CO)
        rel = b.relfile
        me, data = P(fid, 1), P(fid, 2)
        C2 = Cond(F, no_inline=r"FileStreamWriter::(try_flush|flush)$|WritableFile>?::\w+$")
        evs = call_events(C2, b, lambda c: re.search(r"Vec(<.*>)?::(extend_from_slice|extend|append|push|clear|truncate)$|FileStreamWriter::(try_flush|flush)$", c.fid or ""))
        ext = [e for e in evs if e[0].fid.rsplit("::", 1)[1] in ("extend_from_slice", "extend", "append")]
        fl = [e for e in evs if "flush" in e[0].fid]
        bufd = ("fld", "data", ("fld", "buf", me))
        R.check(bool(ext) and all(e[1][0] == bufd and item(strip(e[1][1]), data) for e in ext) and len(ext) + len(fl) == len(evs), f"s-append:{nm}", rel, "every byte given is appended to the buffer",
                f"{[(e[0].name, [show(x)[:60] for x in e[1]]) for e in evs]}")
        for e in ext:
            extra = [l for l in lits(e[2]) if not (l[0][0] == "disc" and mentions(l[0], data))]
            R.check(not extra, f"s-append-always:{nm}", e[0].where, "always appended", f"only if {show_dnf(e[2])[:160]}")
            R.check(all(ev_before(F, e[3], f[3]) for f in fl), f"s-append-first:{nm}", e[0].where, "appended before the buffer is emptied")
        n = 0
        for cd, t in C2.ret_cases(b):
            if is_err(t):
                continue
            n += 1
            fok = forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and re.search(r"FileStreamWriter::(try_flush|flush)$", x[1])) and ("0" in lv) == lp)
            R.check(fok, f"s-append-ok:{nm}", rel, "Ok is returned only when the write did not fail", f"{show(t)[:60]} if {show_dnf(cd)[:160]}")
            v = t[2][0] if t[0] == "agg" and t[2] else t
            good = (v[0] == "call" and re.search(r"::len$", v[1]) and v[2][0] == data) if nm == "write" else total_len(C2, v, data)
            R.check(good, f"s-count:{nm}", rel, "the count returned is the number of bytes given", show(v)[:160])
        R.floor(n, 1, f"returns of {nm}")
    # truncate
    fid = SW + "truncate"
    b = R.body(fid + CO)
    me, size = P(fid, 1), P(fid, 2)
    C3 = Cond(F, no_inline=r"FileStreamWriter::(try_flush|flush)$|WritableFile>?::\w+$")
    evs = call_events(C3, b, lambda c: (c.fid or "").endswith("FileStreamWriter::flush") or (isfile(c) and c.name.endswith("truncate")))
    o = in_order(F, evs)
    R.check(o is not None and [e[0].name.rsplit("::", 1)[1] for e in o] == ["flush", "truncate"] and L.lin(o[1][1][1]) == L.lin(size), "t-cut", b.relfile, "truncate empties the buffer, then cuts the file",
            f"{[(e[0].name, [show(x)[:40] for x in e[1]]) for e in o or []]}")
    for cd, t in C3.ret_cases(b):
        if is_err(t):
            continue
        R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and x[1].endswith("FileStreamWriter::flush")) and ("0" in lv) == lp) and
                forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and re.search(r"WritableFile>?::truncate$", x[1])) and ("0" in lv) == lp), "t-ok", b.relfile, "Ok is returned only when the file was cut", show_dnf(cd)[:200])
        ws = [(a[0], wc) for p, a, wc in C3.writes(b, "pos") if a[1] == me]
        R.check(any(L.lin(v) == L.lin(size) and all(C3.conj(frozenset([cj]), wc) for cj in cd) for v, wc in ws), "t-pos", b.relfile, "writing goes on at the cut", f"{[show(v)[:60] for v, _ in ws]}")
    b = R.body(SW + "new")
    for cd, t in C.ret_cases(b):
        R.check(has(getf(t, "pos"), lambda x: x[0] == "call" and x[1].endswith("file_size")), "s-start", b.relfile, "an existing file is appended to", show(getf(t, "pos"))[:80])
    b = R.body(SW + "len")
    for cd, t in C.ret_cases(b):
        me = P(b.id, 1)
        p = L.lin(t)
        R.check(len(p) == 2 and all(v == 1 for v in p.values()) and has(t, lambda x: x[0] == "call" and x[1].endswith("file_size")) and has(t, lambda x: x[0] == "call" and re.search(r"::len$", x[1]) and x[2][0] == ("fld", "data", ("fld", "buf", me))),
                "s-len", b.relfile, "the length counts what is still buffered", show(t)[:120])
    # the buffer is only taken for writing
    for x in F.bodies("tskv", pat=r"^tskv::file_system::file::stream_writer::"):
        for c in x.calls():
            if re.search(r"mem::(take|replace)$|Vec(<.*>)?::(clear|truncate|drain|split_off|pop)$", c.fid or "") and "stream_writer::Buffer" in str(x.id) + str(c.body.id):
                users = {F.owner(y.body.id) for y in F.callers().get(F.owner(x.id), [])}
                R.check(users <= {SW + "try_flush", SW + "flush"}, "s-taken", c.where, "the buffer is emptied only by flushing", f"{users}")


# -- (5)
def raw(R, F):
    C = Cond(F, no_inline=r"RawFile::(pread|pwrite)$")
    for nm, sysn in (("write_all_at", "pwrite"), ("read_all_at", "pread")):
        fid = RF + nm
        me, pos, buf = P(fid, 1), P(fid, 2), P(fid, 3)
        b = R.body(fid + CO)
        fam = F.family(fid)
        sites = [(x, c) for x in fam for c in x.calls() if (c.fid or "").endswith("RawFile::" + sysn)]
        R.check(len(sites) >= 1, f"io-call:{nm}", b.relfile, f"{nm} uses {sysn}")
        for x, c in sites:
            a = C.T.args(c)
            n = lambda t: t[0] == "ok" and t[1][0] == "call" and t[1][1].endswith("RawFile::" + sysn)
            pa, ba = alts(a[1]), alts(a[2])
            gp = {pos} <= set(pa) and all(t == pos or adv(t, pos, n) for t in pa) and len(pa) > 1
            gb = {buf} <= set(ba) and all(t == buf or (slice_of(t) and slice_of(t)[0] == buf and slice_of(t)[2] is None and (n(slice_of(t)[1]) or slice_of(t)[1] == ("loop",))) for t in ba) and len(ba) > 1
            R.check(gp and gb, f"io-advance:{nm}", c.where, "position and buffer advance by the same count", f"at {show(a[1])[:120]} from {show(a[2])[:120]}")
            for cd, t in C.ret_cases(x):
                if is_err(t):
                    continue
                for cj in cd:
                    le, eq = L.facts_of(cj)
                    lens = [x for l in cj for x in walk(l[0]) if x[0] == "call" and re.search(r"::len$", x[1]) and mentions(x, buf)]
                    empty = any(L.implied(le, eq, L.add({}, L.lin(x), -1)) for x in lens) or any((l[0][0] == "call" and re.search(r"::is_empty$", l[0][1]) and mentions(l[0], buf) and ("1" in l[1]) == l[2]) or
                                (l[0][0] == "bin" and l[0][1] == "Eq" and ("1" in l[1]) == l[2] and konst(l[0][3]) == 0 and re.search("len", show(l[0][2])) is not None and mentions(l[0], buf)) for l in cj)
                    eof = nm == "read_all_at" and any(n(l[0]) and "0" in l[1] and l[2] for l in cj)
                    eof = eof or nm == "read_all_at" and any(l[0][0] == "bin" and l[0][1] == "Eq" and has(l[0], n) and ("1" in l[1]) == l[2] for l in cj)
                    R.check(empty or eof, f"io-done:{nm}", x.relfile, "done only when nothing is left" + (" or the file ends" if nm[0] == "r" else ""), show_dnf(frozenset([cj]))[:300])
                v = t[2][0] if t[0] == "agg" and t[2] else t
                if nm == "write_all_at":
                    R.check(v[0] == "call" and re.search(r"::len$", v[1]) and v[2][0] == buf or has(v, n), f"io-count:{nm}", x.relfile, "the count is the number of bytes written", show(v)[:100])
                else:
                    R.check(has(v, n), f"io-count:{nm}", x.relfile, "the count is the number of bytes read", show(v)[:100])
    K = Cond(F)
    for fid, sysn in (("pwrite", "pwrite"), ("pread", "pread")):
        b = R.body(RF + fid)
        for c, a, cd in K.sites(b, lambda c: re.search(r"::%s$" % sysn, c.name) and "extern" in (c.fid or c.name) or re.search(r"libc.*::%s$" % sysn, c.name)):
            R.check(len(a) == 4 and has(a[1], lambda x: x == P(b.id, 3)) and has(a[2], lambda x: x[0] == "call" and re.search("::len$", x[1])) and L.lin(a[3]) == L.lin(P(b.id, 2)), f"io-sys:{sysn}", c.where, "the system call gets the buffer, its length and the position", f"{[show(x)[:60] for x in a]}")
    # AsyncFile
    A = "<tskv::file_system::file::async_file::AsyncFile as tskv::file_system::file::"
    C = Cond(F, no_inline=r"RawFile::\w+$")
    for tr, nm, rawn, nargs in (("WritableFile", "write_at", "write_all_at", 2), ("WritableFile", "sync_data", "sync_data", 0), ("WritableFile", "truncate", "truncate", 1), ("ReadableFile", "read_at", "read_all_at", 2)):
        fid = A + tr + ">::" + nm
        b = R.body(fid + CO)
        s = C.sites(b, lambda c: (c.fid or "").endswith("RawFile::" + rawn))
        R.check(len(s) >= 1 and all([L.lin(x) for x in a[1:]] == [L.lin(P(fid, i + 2)) for i in range(nargs)] and a[0] == ("fld", "inner", P(fid, 1)) and cd == TRUE for c, a, cd in s), f"file:{nm}", b.relfile, f"{nm} reaches the file with its arguments",
                f"{[[show(x)[:50] for x in a] for c, a, cd in s]}")
        for cd, t in C.ret_cases(b):
            if not cd:
                continue
            if t[0] == "agg" and t[1].endswith("Result::Ok"):
                R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and x[1].endswith("RawFile::" + rawn)) and ("0" in lv) == lp), f"file-ok:{nm}", b.relfile, "errors of the file are reported", show_dnf(cd)[:160])
            elif t[0] not in ("err", "agg", "call", "await"):
                R.bad(f"file-ok:{nm}", b.relfile, f"returns {show(t)[:100]}")
    K = Cond(F)
    for nm, meth in (("sync_data", r"File::sync_(data|all)$"), ("truncate", r"File::set_len$")):
        fam = F.family(RF + nm)
        ss = [(x, c) for x in fam for c in x.calls() if re.search(meth, c.fid or "")]
        R.check(bool(ss), f"file-sys:{nm}", R.body(RF + nm).relfile, f"{nm} reaches the operating system")
        for x, c in ss:
            R.check(K.rc(x, c.bb) == TRUE, f"file-sys-always:{nm}", c.where, f"{nm} always reaches the operating system", show_dnf(K.rc(x, c.bb))[:120])
            if nm == "truncate":
                R.check(L.lin(K.T.arg(c, 1)) == L.lin(P(RF + nm, 2)), "file-sys-size", c.where, "cut at the size asked for", show(K.T.arg(c, 1))[:80])
            for cd, t in K.ret_cases(x):
                R.check(has(t, lambda y: y[0] == "call" and re.search(meth, y[1])) or is_err(t), f"file-sys-result:{nm}", x.relfile, "its result is returned", show(t)[:100])


def adv(t, pos, n):
    d = L.add(L.lin(t), L.lin(pos), -1)
    if len(d) != 1 or list(d.values()) != [1]:
        return False
    return any(n(x) and L.lin(x) == d for x in walk(t)) or any(m and m[0] == ("t", ("loop",)) for m in d)


def opened(R, F):
    """Writer::open keeps what is in the file: it only cuts the footer"""
    C = Cond(F, no_inline=r"FileStreamWriter::\w+$|reader::read_footer$|open_file_writer$")
    fid = W + "open"
    b = R.body(fid + CO)
    evs = call_events(C, b, lambda c: re.search(r"FileStreamWriter::(truncate|write|seek|write_vec|is_empty)$", c.fid or ""))
    for e in evs:
        nm = e[0].fid.rsplit("::", 1)[1]
        emp = lambda want: forced(e[2], lambda lt, lv, lp: has(lt, lambda x: x[0] == "call" and re.search(r"(FileStreamWriter|WritableFile).*::is_empty$", x[1])) and (("1" in lv) == lp) == want)
        if nm == "write":
            k = be(e[1][1])
            R.check(emp(True) and k is not None and konst(k) is not None, "o-magic", e[0].where, "the file magic is written to a new file only", f"{show(e[1][1])[:60]} if {show_dnf(e[2])[:160]}")
        elif nm == "truncate":
            sz = e[1][1]
            flen = [x for x in walk(sz) if x[0] == "call" and x[1].endswith("FileStreamWriter::len")]
            R.check(bool(flen) and keeps(sz, flen[0]), "o-keeps", e[0].where, "opening a file cuts no more than its footer", show(sz)[:240])
        elif nm in ("seek", "write_vec"):
            R.bad("o-keeps", e[0].where, f"opening a file calls {nm}")
    R.floor(len(evs), 1, "file operations of open")
    for nm, target in (("truncate", "FileStreamWriter::truncate"), ("sync", "FileStreamWriter::flush"), ("close", "FileStreamWriter::flush")):
        fid = W + nm
        b = R.body(fid + CO)
        C2 = Cond(F, no_inline=r"FileStreamWriter::\w+$")
        s = C2.sites(b, lambda c: (c.fid or "").endswith(target))
        R.check(len(s) == 1 and s[0][2] == TRUE and (nm != "truncate" or L.lin(s[0][1][1]) == L.lin(P(fid, 2))), f"w-{nm}", b.relfile, f"{nm} reaches the file")
        for cd, t in C2.ret_cases(b):
            if t[0] == "agg" and t[1].endswith("Result::Ok"):
                R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: x[0] == "call" and x[1].endswith(target)) and ("0" in lv) == lp), f"w-{nm}-ok", b.relfile, f"{nm} reports errors of the file", show_dnf(cd)[:160])
            else:
                R.check(is_err(t) or has(t, lambda x: x[0] == "call" and x[1].endswith(target)), f"w-{nm}-ok", b.relfile, f"{nm} reports errors of the file", show(t)[:100])


def keeps(sz, flen):
    """sz >= len - footer_len where footer_len is 0 or the footer's length"""
    for t in alts(sz):
        if t == flen or (konst(t) is not None):
            continue
        d = L.add(L.lin(t), L.lin(flen), -1)
        subs = [m for m, c in d.items() if c == -1]
        if not (len(d) == 1 and len(subs) == 1) and d:
            # unwrap_or(len.checked_sub(footer), header)
            if t[0] == "call" and re.search(r"unwrap_or$", t[1]):
                if keeps(t[2][0], flen):
                    continue
            return False
        if d and not has(t, lambda x: x[0] == "call" and x[1].endswith("read_footer")):
            return False
    return True
