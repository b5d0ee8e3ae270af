"""WAL truncation and purge: exactly the entries asked for are gone, the rest stay findable."""
import re
from va.cond import Cond, TRUE, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L
from rules.c21 import P, fid_is, okof, W, ST, CO, A

PKGS = ["tskv"]
CRATES = ["tskv"]
RULE = """(1) WalFileMeta::del_before(i) changes a file's part of the index only when it is non-empty and starts below i: it then starts at
i, and exactly the index entries below i are drained; del_after(i) only when non-empty and reaching i: it then ends at i - 1, the index
entries from i on are drained, and the position of the first of them is returned (0 when there is none).
(2) mark_delete_before(s) walks the files from the first: a file that ends below s is deleted, one that starts below s is cut by
del_before(s); only a file that starts at s or above ends the walk. mark_delete_after(s) walks them from the last: a file that starts at s
or above is deleted, one that reaches s is cut by del_after(s) and, at the returned position, in its file, after which its reader is
opened anew; only a file that starts below s ends the walk. Both cut the cache at s, keep in the index exactly the files not
deleted, and remove exactly the deleted ones' files. (3) truncate_wal_file cuts and syncs the file of the given id (the current writer
when it is that one); WalWriter::truncate cuts unless the file is not longer, and follows with its size; rollback_wal_writer removes
each given id's file and continues with open_writer. (4) the storage passes the given index on; every error is returned."""
INN = ST + "RaftEntryStorageInner::"
META = ST + "WalFileMeta::"
FLIP = {"<": ">", ">": "<", "=": "="}


def run(R):
    F = R.F
    meta(R, F)
    for name in ("mark_delete_before", "mark_delete_after"):
        marks(R, F, name)
    sequences(R, F)
    files(R, F)
    outer(R, F)


def maxed(t):
    return konst(t) == (1 << 64) - 1 or t[0] == "const" and "MAX" in show(t) or show(t) == "MAX"


def meta(R, F):
    for name, edge in (("del_before", "min_seq"), ("del_after", "max_seq")):
        fid = META + name
        b = R.body(fid)
        me, ix = P(fid, 1), P(fid, 2)
        C = Cond(F)
        sq, ei = getf(me, edge), getf(me, "entry_index")
        bs = lambda t: t[0] == "call" and re.search(r"::binary_search_by(_key)?$|::partition_point$", t[1]) and t[2][0] == ei

        def isidx(t):
            al = alts(t)
            return al and all(x[0] in ("ok", "err") and bs(x[1]) for x in al) and {x[0] for x in al} == {"ok", "err"} or t[0] == "call" and bs(t) and t[1].endswith("partition_point") or \
                t[0] == "call" and re.search(r"unwrap_or_else$", t[1]) and bs(t[2][0]) and ident(C, F, t[2][1])
        closer = lambda cj: rels(cj, sq, ix) <= (set("<") if name == "del_before" else set(">="))
        nonempty = lambda cj: "=" not in rels(cj, lambda t: t in (getf(me, "min_seq"), getf(me, "max_seq")), maxed)
        zero = lambda cj: rels(cj, ix, lambda t: konst(t) == 0) == {"="}
        # the search compares the index's key
        for c, a, cd in C.sites(b, lambda c: re.search(r"::binary_search_by(_key)?$|::partition_point$", c.fid or c.name)):
            cl = closure_id(a[1]) if not c.name.endswith("_key") else closure_id(a[2])
            t = None
            for w, rt in C.ret_cases(F.get(cl)) if cl and F.get(cl) else ():
                t = rt
            key = lambda x: x[0] == "fld" and x[1] == "0" and x[2] == P(cl, 2)
            cap = lambda x: x == ix or mentions(x, ix) or x[0] == "fld" and x[2] == P(cl, 1)
            okc = t is not None and (t[0] == "call" and re.search(r"Ord>?::cmp$|::cmp$", t[1]) and key(t[2][0]) and cap(t[2][1])
                                     or c.name.endswith("partition_point") and t[0] == "bin" and (t[1] == "Lt" and key(t[2]) and cap(t[3]) or t[1] == "Gt" and key(t[3]) and cap(t[2]))
                                     or c.name.endswith("_key") and key(t))
            R.check(okc, "m-search", c.where, "the index is searched by its key", show(t)[:120] if t else "")
        ws = [w for w in C.writes(b, r"^(min_seq|max_seq)$")]
        seen = {}
        for p, a, cd in ws:
            for cj in cd:
                R.check(closer(cj) and nonempty(cj), "m-when", b.relfile, f"{name} changes only a non-empty file's range that reaches across the given index", show_dnf(frozenset([cj]))[:200])
                v = a[0]
                if name == "del_before":
                    R.check(p[3] == "min_seq" and v == ix, "m-min", b.relfile, "the first index becomes the given one", f"{p[3]} = {show(v)[:60]}")
                elif zero(cj):
                    R.check(maxed(v), "m-empty", b.relfile, "nothing is left when cutting at 0", f"{p[3]} = {show(v)[:60]}")
                    seen[p[3]] = 1
                else:
                    R.check(p[3] == "max_seq" and L.lin(v) == L.add(L.lin(ix), {(): 1}, -1), "m-max", b.relfile, "the last index becomes the one before the given", f"{p[3]} = {show(v)[:60]}")
        R.floor(len(ws), 1, f"range updates of {name}")
        dr = call_events(C, b, lambda c: re.search(r"Vec(<.*>)?::(drain|truncate|clear|retain|split_off|pop|remove|push)$", c.fid or ""))
        cut = []
        for c, a, cd, ch in dr:
            m = c.fid.rsplit("::", 1)[1]
            R.check(a[0] == ei, "m-drain", c.where, "the index is cut", show(a[0])[:60])
            for cj in cd:
                R.check(closer(cj) and nonempty(cj), "m-when", c.where, f"{name} cuts only a non-empty file's index that reaches across the given index", show_dnf(frozenset([cj]))[:200])
                if m == "clear":
                    R.check(name == "del_after" and zero(cj), "m-drain", c.where, "the whole index goes only when cutting at 0")
                    continue
                cut.append(cj)
                if m == "drain" and name == "del_before":
                    r = a[1]
                    lo0, hi = not r[1].endswith("Range") or konst(getf(r, "start")) == 0, getf(r, "end")
                    R.check(r[0] == "agg" and re.search("Range(To)?$", r[1]) and lo0 and isidx(hi), "m-drain", c.where, "exactly the entries below the given index are dropped", show(r)[:200])
                elif name == "del_after" and (m == "drain" or m == "truncate" or m == "split_off"):
                    r = a[1]
                    lo = getf(r, "start") if m == "drain" else r
                    R.check((m != "drain" or r[0] == "agg" and re.search("RangeFrom$", r[1])) and isidx(lo), "m-drain", c.where, "exactly the entries from the given index on are dropped", show(r)[:200])
                else:
                    R.bad("m-drain", c.where, f"the index is changed by {m}")
        R.check(bool(cut), "m-drain", b.relfile, f"{name} cuts the index")
        # every other return leaves nothing to do
        for cd, t in C.ret_cases(b):
            for cj in cd:
                nothing = not (closer(cj) and nonempty(cj))
                if nothing:
                    r1 = rels(cj, sq, ix)
                    e1 = rels(cj, lambda t: t in (getf(me, "min_seq"), getf(me, "max_seq")), maxed)
                    R.check(r1 <= (set(">=") if name == "del_before" else set("<")) or e1 == {"="}, "m-skip", b.relfile, "nothing is done only when the range does not reach across the index", show_dnf(frozenset([cj]))[:160])
                    R.check(name == "del_before" or konst(t) == 0, "m-ret", b.relfile, "no position when nothing is cut", show(t)[:80])
                elif name == "del_after":
                    got = lambda l: l[0][0] == "disc" and l[0][1][0] == "call" and re.search(r"::get(_mut)?$", l[0][1][1]) and l[0][1][2][0] == ei and isidx(l[0][1][2][1])
                    inb = [l for l in cj if l[0][0] == "bin" and l[0][1] in ("Lt", "Gt", "Le", "Ge") and any(isidx(x) for x in l[0][2:4])]
                    has_pos = rels(cj, isidx, lambda x: x[0] in ("call", "len") and "len" in show(x)[:12] and mentions(x, ei)) == {"<"} or any(got(l) and ("1" in l[1]) == l[2] for l in cj)
                    inb = inb or [l for l in cj if got(l)]
                    if zero(cj) or inb and not has_pos:
                        R.check(konst(t) == 0, "m-ret", b.relfile, "no position when no entry is cut", show(t)[:80])
                    else:
                        ok = has_pos and t[0] == "fld" and t[1] == "1" and t[2][0] == "idx" and t[2][1] == ei and isidx(t[2][2])
                        ok = ok or konst(t) == 0 and not inb and any(konst(t2) is None for c2, t2 in C.ret_cases(b) if c2)  # pos = 0 before the bounds test
                        ok = ok or t[0] == "call" and re.search("map_or$|unwrap_or$|unwrap_or_default$", t[1]) and any(x[0] == "call" and x[1].endswith("::get") and x[2][0] == ei and isidx(x[2][1]) for x in walk(t))
                        R.check(ok, "m-ret", b.relfile, "the position of the first entry cut is returned", show(t)[:160])


def ident(C, F, cl):
    c = closure_id(cl)
    if c and F.get(c):
        return [t for _, t in C.ret_cases(F.get(c))] == [P(c, 2)]
    return cl[0] == "fn" and "identity" in show(cl)


def marks(R, F, name):
    fid = INN + name
    b = R.body(fid + CO)
    rel = b.relfile
    me, seq = P(fid, 1), P(fid, 2)
    C = Cond(F, no_inline=r"record_file::|VnodeWal::\w+$|CircularKVCache|WalFileMeta::\w+$|make_wal_file|RaftEntryStorageInner::\w+_sequence$")
    fm, cache, wal = getf(me, "files_meta"), getf(me, "entry_cache"), getf(me, "wal")
    item = lambda t: each_of(t, fm)
    mn = lambda t: t[0] == "fld" and t[1] == "min_seq" and item(t[2])
    mx = lambda t: t[0] == "fld" and t[1] == "max_seq" and item(t[2])
    fileid = lambda t: t[0] == "fld" and t[1] == "file_id" and item(t[2])
    before = name == "mark_delete_before"
    whole = mx if before else mn           # the file's edge that decides whether it goes as a whole
    part = mn if before else mx
    gone = set("<") if before else set(">=")
    keepr = set("<>=") - gone
    # early return
    first = lambda t: fid_is(t, "::min_sequence") or fid_is(t, "::max_sequence")
    me_seq = lambda t: first(t) and t[2][0] == me and t[1].endswith("min_sequence" if before else "max_sequence")
    nothing = lambda cj: rels(cj, me_seq, seq) <= (set(">=") if before else set("<")) or not before and rels(cj, me_seq, maxed) == {"="} or any(l[0][0] == "call" and l[0][1].endswith("is_empty") and l[0][2][0] == fm and ("1" in l[1]) == l[2] for l in cj)
    # the list of files to remove
    evs = own_sites(C, b, lambda c: re.search(r"Vec(<.*>)?::(push|insert|extend\w*)$", c.fid or ""))
    dl = None
    for c, a, cd in evs:
        dl = a[0]
        R.check(fileid(a[1]), "d-id", c.where, "the file's own id is noted for removal", show(a[1])[:100])
        for cj in cd:
            # an entry range is min <= max: all is gone when the far edge is; the near edge's literal may stand beside it
            R.check(rels(cj, whole, seq) == gone and rels(cj, part, seq) in (set("<=>"), gone), "d-whole", c.where, "a file goes as a whole exactly when all its entries do", show_dnf(frozenset([cj]))[:200])
            rest = [l for l in cj if not (rels({l}, whole, seq) < set("<=>") or rels({l}, part, seq) < set("<=>") or l[0][0] == "disc" and mentions(l[0], fm) or mentions(l[0], me) and first_lit(l, me_seq, maxed))]
            R.check(not rest, "d-whole-else", c.where, "and under no other condition", show_dnf(frozenset([frozenset(rest)]))[:160])
    if not evs:
        for c, a, cd in own_sites(C, b, lambda c: (c.fid or "").endswith("rollback_wal_writer")):
            m = a[1]
            f = m[2][0] if m[0] == "call" and m[1].endswith("::map") else ("?",)
            if f[0] == "call" and f[1].endswith("::filter") and f[2][0] == fm and closure_id(f[2][1]) and closure_id(m[2][1]):
                dl = m
                idt = C.T.apply_closure(m[2][1], [("ok", fm)])
                R.check(idt is not None and fileid(idt), "d-id", c.where, "the file's own id is noted for removal", show(idt or ("?",))[:100])
                D = C.by_closure(f[2][1], ("ok", fm), True)
                R.check(bool(D) and all(rels(cj, whole, seq) == gone and len(cj) == 1 for cj in D), "d-whole", c.where, "a file goes as a whole exactly when all its entries do", show_dnf(D)[:200] if D else "?")
                evs = [c]
    R.check(len(evs) == 1, "d-list", rel, "files to remove are noted in one place", f"{len(evs)}")
    # the cut
    cutn = "del_before" if before else "del_after"
    cuts = own_sites(C, b, lambda c: re.search(r"WalFileMeta::del_\w+$", c.fid or ""))
    R.check(len(cuts) == 1, "d-cut", rel, "files are cut in one place", f"{len(cuts)}")
    for c, a, cd in cuts:
        R.check(c.fid.endswith("::" + cutn) and item(a[0]) and a[1] == seq, "d-cut", c.where, "the file is cut at the given index", f"{c.name} {[show(x)[:80] for x in a]}")
        for cj in cd:
            r1, r2 = rels(cj, whole, seq), rels(cj, part, seq)
            R.check(r1 == keepr and r2 in (set("<=>"), set("<"), set("<=")) if before else r1 == keepr and r2 in (set("<=>"), set(">=")), "d-cut-when", c.where, "a file that stays in part is cut", show_dnf(frozenset([cj]))[:200])
    # reversed walk for del_after
    nxt = [c for c in b.calls() if re.search(r"Iterator>?::next$", c.name) and mentions(C.T.arg(c, 0), fm)]
    nxt = nxt or [c for c in b.calls() if re.search(r"Iterator>?::(next|next_back)$", c.name)]
    R.check(len(nxt) == 1, "d-walk", rel, "the files are walked once", f"{len(nxt)}")
    for c in nxt:
        it = C.T.arg(c, 0)
        rev = has(it, lambda t: fid_is(t, "::rev")) or c.name.endswith("next_back")
        odd = [x for x in walk(it) if x[0] == "call" and re.search(r"::(skip|take|step_by|filter\w*|skip_while|take_while|chain|map\w*)$", x[1])]
        R.check(rev == (not before) and not odd, "d-walk", c.where, "before: from the first file; after: from the last", show(it)[:160])
        stop = set("<") if not before else set(">=")
        for u, d, cd in C.loop_exits(b, c.bb):
            for cj in cd:
                ended = not [l for l in cj if not first_lit(l, me_seq, maxed) and not (l[0][0] == "disc" and not has(l[0], lambda t: t[0] == "ok") and ("0" in l[1]) == l[2])]
                errs = any(l[0][0] == "disc" and has(l[0], lambda x: x[0] == "await" or x[0] == "call" and re.search(r"map_err$|branch$", x[1])) and (("1" in l[1]) == l[2]) for l in cj)
                r = rels(cj, mn, seq)
                R.check(ended or errs or r <= stop, "d-stop", rel, "the walk ends only where the remaining files are not touched", show_dnf(frozenset([cj]))[:220])
    # truncation of the file
    if not before:
        tr = own_sites(C, b, lambda c: (c.fid or "").endswith("truncate_wal_file"))
        R.check(len(tr) == 1, "d-trunc", rel, "the file is cut, too", f"{len(tr)}")
        ispos = lambda t: fid_is(t, "WalFileMeta::del_after") and item(t[2][0])
        for c, a, cd in tr:
            R.check(fileid(a[1]) and ispos(a[2]), "d-trunc", c.where, "at the position of the first entry cut, in its own file", f"{[show(x)[:100] for x in a[1:]]}")
            for cj in cd:
                rest = [l for l in cj if not (rels({l}, whole, seq) < set("<=>") or rels({l}, part, seq) < set("<=>") or l[0][0] == "disc" and l[0][1][0] != "await" and mentions(l[0], fm) and not has(l[0], ispos)
                                              or first_lit(l, me_seq, maxed) or rels({l}, ispos, lambda t: konst(t) == 0) in ({"<", ">"}, {">"}))]
                R.check(not rest, "d-trunc-when", c.where, "whenever an entry was cut", show_dnf(frozenset([frozenset(rest)]))[:200])
        # new reader
        rd = [(p, a, cd) for p, a, cd in C.writes(b, r"^reader$")]
        R.check(len(rd) >= 1, "d-reader", rel, "the cut file is read through a new reader (the old one's buffer is stale)")
        for p, a, cd in rd:
            R.check(item(a[1]) and a[0][0] == "ok" and fid_is(okof(a[0]) or ("x", ""), "wal_reader") and fileid(okof(a[0])[2][1]), "d-reader", rel, "the new reader is of the same file", show(a[0])[:160])
            tcd = [x for c_, a_, x in tr]
            for cj in cd:
                okc = any(l[0][0] == "disc" and has(l[0], lambda x: fid_is(x, "truncate_wal_file")) and ("0" in l[1]) == l[2] for l in cj)
                R.check(okc, "d-reader-after", rel, "opened after the cut", show_dnf(frozenset([cj]))[:160])
                rest = [l for l in cj if not any(l in t for x in tcd for t in x) and not has(l[0], lambda x: fid_is(x, "truncate_wal_file") or fid_is(x, "wal_reader"))]
                R.check(not rest, "d-reader-when", rel, "and whenever the file was cut", show_dnf(frozenset([frozenset(rest)]))[:160])
    # after the walk
    out = {}
    for c, a, cd in own_sites(C, b, lambda c: re.search(r"CircularKVCache::(?!get|last|first|len)\w+$|Vec(<.*>)?::(retain|drain|clear|truncate|pop|remove)$|rollback_wal_writer$|Vec(<.*>)?::retain_mut$", c.fid or "")):
        m = c.fid.rsplit("::", 1)[1]
        out.setdefault(m, []).append(c)
        if "CircularKVCache" in c.fid:
            R.check(m == cutn and a[0] == cache and a[1] == seq, "d-cache", c.where, "the cache is cut at the same index", f"{m} {[show(x)[:60] for x in a]}")
        elif m.startswith("retain"):
            cl = closure_id(a[1])
            okc = False
            if cl and F.get(cl):
                D = closure_true(C, cl)
                it = P(cl, 2)
                okc = D is not None and len(D) == 1 and len(next(iter(D))) == 1
                for cj in D or ():
                    for l in cj:
                        if l[0][0] == "call" and re.search(r"::any$", l[0][1]) and ("1" in l[1]) != l[2]:
                            cl2 = closure_id(l[0][2][1])
                            D2 = closure_true(C, cl2) if cl2 and F.get(cl2) else None
                            lits2 = [m for c2 in D2 or () for m in c2]
                            okc = okc and len(lits2) == 1 and lits2[0][0][0] == "bin" and lits2[0][0][1] == "Eq" and ("1" in lits2[0][1]) == lits2[0][2] and \
                                any(getf(it, "file_id") == x or fileid(x) for x in lits2[0][0][2:4]) and (l[0][2][0] == dl or dl[0] == "call" and l[0][2][0][:2] == dl[:2])
                            continue
                        cn = [x for x in walk(l[0]) if x[0] == "call" and x[1].endswith("::contains")]
                        okc = okc and l[0] in cn and ("1" in l[1]) != l[2] and (getf(it, "file_id") == l[0][2][1] or fileid(l[0][2][1])) and dl is not None and (l[0][2][0] == dl or dl[0] == "call" and l[0][2][0][:2] == dl[:2] or l[0][2][0][0] == "fld")
            R.check(a[0] == fm and okc, "d-retain", c.where, "exactly the files not removed stay in the index", f"{show(a[0])[:60]}")
        elif m == "rollback_wal_writer":
            R.check(a[0] == wal and a[1] == dl, "d-remove", c.where, "exactly the noted files are removed", show(a[1])[:80])
        elif a[0] == fm or a[0] == dl:
            R.bad("d-retain", c.where, f"the index or the list is changed by {m}")
        for cj in cd:
            rest = [l for l in cj if not first_lit(l, me_seq, maxed) and not has(l[0], lambda x: fid_is(x, "truncate_wal_file") or fid_is(x, "wal_reader") or fid_is(x, "rollback_wal_writer")) and not (l[0][0] == "disc" and mentions(l[0], fm)) and not (rels({l}, whole, seq) < set("<=>") or rels({l}, part, seq) < set("<=>"))
                    and not (m in ("retain", "rollback_wal_writer") and l[0][0] == "call" and l[0][1].endswith("is_empty") and l[0][2][0] == dl)]
            R.check(not rest, "d-always", c.where, f"{m} happens after every walk", show_dnf(frozenset([frozenset(rest)]))[:160])
    for m in (cutn, "retain", "rollback_wal_writer"):
        R.check(len(out.get(m, [])) == 1, "d-steps", rel, f"{name} cuts cache and index and removes the files", f"{m}: {len(out.get(m, []))}")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for cj in cd:
            done = any(has(l[0], lambda x: fid_is(x, "rollback_wal_writer")) and ("0" in l[1]) == l[2] for l in cj) or has(t, lambda x: fid_is(x, "rollback_wal_writer"))
            R.check(done or nothing(cj), "d-ok", rel, "Ok only when done, or when no entry is concerned", show_dnf(frozenset([cj]))[:200])
    for suf in ("truncate_wal_file", "wal_reader", "rollback_wal_writer"):
        propagates(R, F, b, lambda c, s=suf: (c.fid or "").endswith(s), "d-error", suf)


def first_lit(l, me_seq, maxed):
    return l[0][0] == "bin" and any(me_seq(x) for x in l[0][2:4]) or l[0][0] == "call" and l[0][1].endswith("is_empty")


def sequences(R, F):
    """min_sequence/max_sequence are those of the first and last file"""
    for name, acc, fld in (("min_sequence", "first", "min_seq"), ("max_sequence", "last", "max_seq")):
        fid = INN + name
        b = R.body(fid)
        fm = getf(P(fid, 1), "files_meta")
        C = Cond(F)
        n = 0
        for cd, t in C.ret_cases(b):
            for x in alts(t):
                some = has(x, lambda y: y[0] == "call" and re.search(rf"::{acc}$", y[1]) and mentions(y, fm)) or acc == "first" and has(x, lambda y: y == ("ok", fm))
                if some:
                    n += 1
                    R.check(x[0] == "fld" and x[1] == fld or x[0] == "call" and re.search(r"map_or(_else)?$|unwrap_or$", x[1]), "s-edge", b.relfile, f"{name} is the {acc} file's {fld}", show(x)[:100])
                else:
                    R.check(maxed(x), "s-none", b.relfile, f"{name} of no file is none", show(x)[:80])
        R.floor(n, 1, name)


def files(R, F):
    # truncate_wal_file
    fid = W + "VnodeWal::truncate_wal_file"
    b = R.body(fid + CO)
    me, idp, pos = P(fid, 1), P(fid, 2), P(fid, 3)
    C = Cond(F, no_inline=r"record_file::|WalWriter::(open|truncate|sync|append\w+)$|make_wal_file$|open_writer$|WalReader::")
    cur = getf(me, "current_wal")
    curid = lambda t: t == getf(cur, "id")
    tr = own_sites(C, b, lambda c: (c.fid or "").endswith("WalWriter::truncate"))
    sy = own_sites(C, b, lambda c: (c.fid or "").endswith("WalWriter::sync"))
    opened = lambda t: fid_is(okof(t) or ("x", ""), "WalWriter::open")
    kinds = set()
    for nm, ss in (("cut", tr), ("sync", sy)):
        for c, a, cd in ss:
            for cj in cd:
                r = rels(cj, curid, idp)
                for tgt in alts(a[0]):
                    if tgt == cur:
                        R.check(r == {"="}, "t-current", c.where, "the current file is cut only when it is the one", show_dnf(frozenset([cj]))[:160])
                    elif opened(tgt):
                        op = okof(tgt)
                        R.check(r == {"<", ">"} and op[2][1] == idp and fid_is(op[2][2], "make_wal_file") and op[2][2][2][1] == idp and getf(me, "wal_dir") in list(walk(op[2][2][2][0])), "t-other", c.where, "another file is opened by its id when it is not the current", f"{show(tgt)[:140]} if {sorted(r)}")
                    else:
                        R.bad("t-target", c.where, f"{nm} of {show(tgt)[:80]}")
                    kinds.add((nm, tgt == cur))
            if nm == "cut":
                R.check(a[1] == pos, "t-pos", c.where, "at the given position", show(a[1])[:60])
    R.check(kinds >= {("cut", True), ("cut", False), ("sync", True), ("sync", False)}, "t-steps", b.relfile, "both are cut and synced", f"{sorted(kinds)}")
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for cj in cd:
            for suf in ("WalWriter::truncate", "WalWriter::sync"):
                ok = has(t, lambda x: fid_is(x, suf)) or any(l[0][0] == "disc" and has(l[0], lambda x: fid_is(x, suf)) and ("0" in l[1]) == l[2] for l in cj)
                R.check(ok, "t-ok", b.relfile, f"Ok only after {suf}", show_dnf(frozenset([cj]))[:200])
    propagates(R, F, b, lambda c: re.search(r"WalWriter::(open|truncate|sync)$", c.fid or ""), "t-error", "cutting a file")
    # WalWriter::truncate
    fid = W + "writer::WalWriter::truncate"
    b = R.body(fid + CO)
    me, size = P(fid, 1), P(fid, 2)
    C = Cond(F, no_inline=r"record_file::")
    own = getf(me, "size")
    cut = own_sites(C, b, lambda c: (c.fid or "").endswith("record_file::writer::Writer::truncate"))
    R.check(len(cut) == 1, "w-cut", b.relfile, "the record file is cut once")
    for c, a, cd in cut:
        R.check(a[0] == getf(me, "inner") and a[1] == size, "w-cut", c.where, "at the given size", show(a[1])[:60])
        for cj in cd:
            rest = [l for l in cj if rels({l}, own, size) == set("<=>")]
            R.check(not rest and rels(cj, own, size) in (set(">"), set(">="), set("<>"), set("<=>")), "w-when", c.where, "whenever the file is longer", show_dnf(frozenset([cj]))[:160])
    ws = [w for w in C.writes(b, r"^size$") if w[1][1] == me]
    R.check(len(ws) >= 1, "w-size", b.relfile, "the size follows")
    for p, a, cd in ws:
        R.check(a[0] == size and all(any(has(l[0], lambda x: fid_is(x, "Writer::truncate")) and ("0" in l[1]) == l[2] for l in cj) for cj in cd), "w-size", b.relfile, "the size is the given one, once the file is cut", show(a[0])[:60])
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for cj in cd:
            ok = any(has(l[0], lambda x: fid_is(x, "Writer::truncate")) and ("0" in l[1]) == l[2] for l in cj)
            R.check(ok or rels(cj, own, size) <= set("<="), "w-ok", b.relfile, "Ok only when cut or not longer", show_dnf(frozenset([cj]))[:160])
    propagates(R, F, b, lambda c: (c.fid or "").endswith("record_file::writer::Writer::truncate"), "w-error", "cutting")
    fid = W + "writer::WalWriter::sync"
    b = R.body(fid + CO)
    propagates(R, F, b, lambda c: (c.fid or "").endswith("record_file::writer::Writer::sync"), "w-sync", "syncing")
    R.floor(len([c for c in b.calls() if (c.fid or "").endswith("record_file::writer::Writer::sync")]), 1, "sync of the record file")
    # rollback_wal_writer
    fid = W + "VnodeWal::rollback_wal_writer"
    b = R.body(fid + CO)
    me, ids = P(fid, 1), P(fid, 2)
    C = Cond(F, no_inline=r"WalWriter::\w+$|make_wal_file$|open_writer$")
    rm = own_sites(C, b, lambda c: re.search(r"fs::remove_file(::remove_file)?$|remove_file$|remove_if_exists$", c.fid or c.name))
    R.check(len(rm) == 1, "r-remove", b.relfile, "files are removed in one place", f"{len(rm)}")
    for c, a, cd in rm:
        x = a[0]
        R.check(fid_is(x, "make_wal_file") and mentions(x[2][0], getf(me, "wal_dir")) and each_of(x[2][1], ids), "r-file", c.where, "the file of each given id", show(x)[:120])
        bad = [l for l in lits(cd) if not (l[0][0] == "disc" and mentions(l[0], ids)) and not (l[0][0] == "call" and re.search(r"exists$", l[0][1]))]
        R.check(not bad, "r-each", c.where, "each of them", show_dnf(frozenset([frozenset(bad)]))[:160])
    nxt = [c for c in b.calls() if re.search(r"Iterator>?::next$", c.name) and mentions(C.T.arg(c, 0), ids)]
    for c in nxt:
        for u, d, cd in C.loop_exits(b, c.bb):
            for cj in cd:
                bad = [l for l in cj if not (l[0][0] == "disc" and l[0][1] in (ids, C.T.arg(c, 0)))]
                R.check(not bad, "r-each", b.relfile, "the walk ends with the last id", show_dnf(frozenset([frozenset(bad)]))[:160])
    ow = own_sites(C, b, lambda c: (c.fid or "").endswith("VnodeWal::open_writer"))
    R.check(len(ow) == 1, "r-reopen", b.relfile, "writing continues in a newly opened file", f"{len(ow)}")
    rep = [(p, a) for p, a, cd in C.writes(b, r"^current_wal$")] + [(None, a) for c, a, cd in own_sites(C, b, lambda c: re.search(r"mem::replace$", c.fid or c.name)) if a[0] == getf(me, "current_wal")]
    sw = own_sites(C, b, lambda c: re.search(r"mem::swap$", c.fid or c.name))
    got = any(has(x, lambda y: fid_is(y, "open_writer")) for _, a in rep for x in a) or any(getf(me, "current_wal") in a for c, a, cd in sw)
    R.check(got, "r-current", b.relfile, "the new file becomes the current one", f"{len(rep)}")
    for c, a, cd in ow:
        bad = [l for l in lits(cd) if not (l[0][0] == "disc" and mentions(l[0], ids)) and not (l[0][0] == "disc" and has(l[0], lambda x: x[0] == "await")) and not (l[0][0] == "call" and re.search(r"is_empty$|exists$", l[0][1]))]
        R.check(not bad, "r-reopen", c.where, "whatever was removed", show_dnf(frozenset([frozenset(bad)]))[:160])
        after = [x for x, _, _ in rm if not ev_order(b, x, c)]
        R.check(not after, "r-order", c.where, "opened after the removals")
    propagates(R, F, b, lambda c: (c.fid or "").endswith("open_writer"), "r-error", "opening the new file")


def ev_order(b, x, y):
    """y cannot be followed by x in body b (same body only)"""
    if x.body.id != y.body.id:
        return True
    seen, todo = set(), [y.bb]
    while todo:
        u = todo.pop()
        for v in b.succs(u) if hasattr(b, "succs") else b.succ.get(u, ()):
            if v == x.bb:
                return False
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return True


def outer(R, F):
    for name, inner in (("del_before", "mark_delete_before"), ("del_after", "mark_delete_after")):
        fid = A + name
        b = R.body(fid + CO)
        C = Cond(F, no_inline=r"RaftEntryStorageInner::\w+$")
        s = own_sites(C, b, lambda c: "RaftEntryStorageInner::" in (c.fid or ""))
        R.check(len(s) == 1 and s[0][0].fid.endswith("::" + inner), "o-pass", b.relfile, f"{name} is {inner}", f"{[x[0].fid for x in s]}")
        for c, a, cd in s:
            R.check(a[1] == P(fid, 2) and a[0] == getf(P(fid, 1), "inner") and cd == TRUE, "o-pass", c.where, "with the index as given, always", show(a[1])[:60])
        propagates(R, F, b, lambda c: (c.fid or "").endswith(inner), "o-error", inner)
