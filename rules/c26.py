"""Flushing: the rows of a full cache are in a file before anything says so, or the cache stays and is flushed again."""
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from rules.c33 import call
from rules.c34 import core_of, truth, only_end
from rules.c28 import P, fld, folded, unclone, top_sites, within_round, pure_loop2, reach, names_of

PKGS = ["tskv"]
CRATES = ["tskv", "models", "utils"]
RULE = """(1) FlushTask::run: the edit's vnode, owner and sequence number; every series of the cache converted and, unless it has no pages, written with
its own key, pages and range; the file finished before its meta; meta, filter and edit entry are those of that writer; nothing added for an unused file.
(2) flush_memtable: sequence number of the cache flushed; failures clear the file and are returned. (3) FlushJob: index before data; queue locked
before the vnode and an entry per marked cache entered before either is released; only completed entries, lowest first, are applied, up to the first
incomplete or failed one, which stays; failures unmark the caches and are returned. (4) MemCache: one partition function for writing and reading,
sequence number and memory before the rows, the scan covers every partition; marking is an atomic exchange."""
J = "tskv::compaction::job::FlushJob::"
FT = "tskv::compaction::flush::"
MC = "tskv::mem_cache::memcache::"


def run(R):
    F = R.F
    task(R, F)
    memtable(R, F)
    job(R, F)
    cache(R, F)


def some(l):
    return l[0][0] == "disc" and l[2] and "1" in l[1]


def conv(t):
    return has(t, lambda x: call(x, "convert_to_page"))


def task(R, F):
    fid = FT + "FlushTask::run"
    C = Cond(F, no_inline=r"VersionEdit::|TsmWriter|CompactMeta::|MemCacheSeriesScan|remove_if|convert_to_page|MemCache::")
    b = core_of(R, fid)
    me = P(fid, 1)
    mem = ("fld", "memcache", me)
    one = lambda pat, key, what: (lambda s: s[0] if R.check(len(s) == 1, key, b.relfile, what, str(len(s))) else None)(top_sites(C, b, lambda c: bool(re.search(pat, c.fid or c.name))))
    e = one(r"VersionEdit::new_update_vnode$", "edit", "one edit is made")
    if e:
        R.check(e[1] == [("fld", "tsf_id", me), ("fld", "owner", me), P(fid, 3)], "edit", e[0].where, "for this vnode, its owner and the cache's sequence number", str([show(x)[:40] for x in e[1]]))
    o = one(r"TsmWriter::open$", "open", "one file is written")
    w = None
    if o:
        a = o[1]
        R.check(a[0] == ("fld", "path_delta", me) and has(a[1], lambda x: call(x, "file_id") or x[0] == "fld" and x[1] == "file_id") and has(a[1], lambda x: x == mem), "open", o[0].where, "in the directory given, under the cache's file id", str([show(x)[:50] for x in a[:2]]))
        R.check(konst(a[3]) == 1 or show(a[3]) == "true", "open", o[0].where, "as a level 0 file", show(a[3]))
        w = lambda t: has(t, lambda x: call(x, "open") and "TsmWriter" in x[1])
        R.check(any(x[1][0] == ("fld", "memcache", me) for x in top_sites(C, b, lambda c: c.name.endswith("MemCacheSeriesScanIterator::new"))), "scan", b.relfile, "the series are those of the cache")
    if w is None:
        return
    cv = one(r"SeriesData::convert_to_page$", "convert", "series are converted")
    wp = one(r"TsmWriter::write_pages$", "pages", "pages are written")
    if cv:
        it = cv[1][0]
        item = lambda t: has(t, lambda x: x[0] == "ok" and has(x, lambda y: call(y, "new") and "MemCacheSeriesScan" in y[1]))
        R.check(item(it), "convert", cv[0].where, "each series of the scan", show(it)[:80])
        lp = C.loop_of(b, cv[3])
        R.check(lp is not None, "each", cv[0].where, "one after the other")
        if lp:
            for u, d, cd in C.loop_exits(b, cv[3]):
                if not leads_on(C, b, d):
                    continue
                R.check(only_end(C, b, cv[3], cd), "each", b.relfile, "until the scan ends", show_dnf(cd)[:100])
        R.check(all(all(some(l) or okl(l) for l in cj) for cj in cv[2]), "each", cv[0].where, "no series is left out", show_dnf(cv[2])[:140])
    if wp and cv:
        a, cd = wp[1], wp[2]
        ser = lambda t, f: t[0] == "fld" and t[1] == f and has(t, lambda x: x == cv[1][0])
        tup = lambda t, n: t[0] == "fld" and str(t[1]) == n and conv(t)
        R.check(w(a[0]) and tup(unclone(a[1]), "0") and tup(unclone(a[4]), "1") and ser(a[2], "series_id") and has(a[3], lambda x: ser(x, "series_key")) and ser(a[5], "range"), "pages", wp[0].where, "with the schema, id, key, pages and range of that series", str([show(x)[-40:] for x in a[1:]]))
        for cj in cd:
            ex = [l for l in cj if not (some(l) or okl(l) or has(l[0], lambda x: call(x, "is_empty")) and conv(l[0]) and truth(l) is False or lenlit(l))]
            R.check(not ex, "pages", wp[0].where, "unless there are none", show_dnf(frozenset([frozenset(ex)]))[:120])
    propagates(R, F, b, lambda c: bool(re.search(r"TsmWriter::(open|write_pages|finish)$|convert_to_page$", c.name)), "err", "flush")
    fi = one(r"TsmWriter::finish$", "finish", "the file is finished")
    cm = one(r"CompactMeta::new$", "meta", "its meta is made")
    af = one(r"VersionEdit::add_file$", "add", "it is added to the edit")
    ins = [s for s in top_sites(C, b, lambda c: bool(re.search(r"HashMap(<.*>)?::insert$", c.fid or c.name)))]
    if fi and cm and af and wp:
        R.check(w(fi[1][0]) and reach(b, fi[3], cm[3]) and not reach(b, cm[3], fi[3]), "finish", fi[0].where, "before its meta is made")
        R.check(not reach(b, fi[3], wp[3]), "finish", fi[0].where, "after all pages")
        a = cm[1]
        W = lambda t, n: (call(t, n) or t[0] == "fld" and t[1] == n) and w(t)
        R.check(a[0] == ("fld", "tsf_id", me) and W(a[1], "file_id") and W(a[2], "size") and konst(a[3]) == 0 and W(a[4], "min_ts") and W(a[5], "max_ts"), "meta", cm[0].where, "with the vnode, file id, size and time range of that writer, at level 0", str([show(x)[-30:] for x in a]))
        R.check(call(af[1][1], "new") and "CompactMeta" in af[1][1][1], "add", af[0].where, "that meta", show(af[1][1])[:60])
        x = af[1][2]
        ok = call(x, "max") and {("p" if y == P(fid, 2) else "m" if has(y, lambda z: z[0] == "fld" and z[1] in ("max_ts",) or call(z, "max_ts")) else "?") for y in x[2]} == {"p", "m"}
        if x[0] == "phi":
            ok = all(y == P(fid, 2) or has(y, lambda z: z[0] == "fld" and z[1] == "max_ts" or call(z, "max_ts")) for y in alts(x))
        R.check(ok, "add", af[0].where, "with the larger of the vnode's largest time and its own", show(x)[:100])
        R.check(len(ins) >= 1 and any(W(i[1][1], "file_id") and has(i[1][2], lambda x: call(x, "series_bloom_filter")) for i in ins), "filter", b.relfile, "its filter is handed on under its file id")
        # whatever was written is added
        extra = [l for cj in af[2] for l in cj if not (some(l) or okl(l) or has(l[0], lambda x: call(x, "is_empty")) and conv(l[0]) or lenlit(l) or flag_lit(l))]
        R.check(not extra, "used", af[0].where, "depends on nothing but that pages were written", show_dnf(frozenset([frozenset(extra)]))[:100])
        R.check(same_as_written(C, b, af[3], wp[3]), "used", af[0].where, "whenever pages were written", "")
    ok_ret = [t for cd, t in C.ret_cases(b) if cd and t[0] == "agg" and t[1].endswith("::Ok")]
    for t in ok_ret:
        R.check(has(t, lambda x: call(x, "new_update_vnode")), "ret", b.relfile, "the edit is returned", show(t)[:80])
    # the file that is cleared is the one opened
    ws = C.writes(b, "current_delta_file_id")
    R.check(len(ws) == 1 and has(ws[0][1][0], lambda x: x == mem), "clear", b.relfile, "the file to clear is remembered", str(len(ws)))
    if ws and o:
        R.check(ws[0][0][1] == o[3] or reach(b, ws[0][0][1], o[3]) and not reach(b, o[3], ws[0][0][1]), "clear", b.relfile, "before it is opened")


def flag_lit(l):
    return l[0][0] in ("phi", "loop", "k") and all(x[0] == "loop" or x[0] == "k" and show(x) in ("true", "false") for x in alts(l[0]))


def okl(l):
    return l[0][0] == "disc" and l[2] and l[1] <= {"0", "1"}


def lenlit(l):
    """says that there are pages"""
    if not (l[0][0] == "bin" and has(l[0], lambda x: call(x, "len")) and conv(l[0])):
        return False
    r = rels([l], lambda x: call(x, "len"), lambda x: konst(x) == 0)
    return r != set("<=>") and ">" in r or rels([l], lambda x: call(x, "len"), lambda x: konst(x) == 1) == set(">=")


def leads_on(C, b, d):
    """the block leads on to a successful return"""
    calls = {c.bb: c for c in b.calls()}
    seen, st = set(), [d]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in calls and re.search(r"TsmWriter::(finish|size)$|HashMap(<.*>)?::new$", calls[x].name):
            return True
        st.extend(b.succs(x))
    return False


def same_as_written(C, b, add, wp):
    """on every way through the pages' writing that ends well the file is added: the flag tested before adding is set wherever pages are written,
    and never cleared"""
    conds = C.rc(b, add)
    # the flag: a boolean local tested on the way to add
    for n, blk in enumerate(b.blocks):
        t = blk["t"]
        if blk.get("c") or t[0] != "switch":
            continue
        if reach(b, n, add) and not reach(b, n, wp) and reach(b, wp, n):
            op = t[1]
            l = op[1] if op[0] in ("c", "m") else None
            nm = None
            while isinstance(l, str):
                if l in b.names:
                    nm = l
                    break
                ds = [s[2] for bl in b.blocks if not bl.get("c") for s in bl["s"] if s[0] == "=" and s[1] == l]
                if len(ds) != 1 or ds[0][0] != "use" or ds[0][1][0] not in ("c", "m"):
                    break
                l = ds[0][1][1]
            if nm is None or b.lty(int(nm)) != "bool":
                continue
            sets = [(m, s[2]) for m, bl in enumerate(b.blocks) if not bl.get("c") for s in bl["s"] if s[0] == "=" and s[1] == nm]
            lp = C.loop_of(b, wp)
            trues = [m for m, rv in sets if rv[0] == "use" and rv[1][0] == "k" and rv[1][1] == "true"]
            falses = [m for m, rv in sets if rv[0] == "use" and rv[1][0] == "k" and rv[1][1] == "false"]
            if len(trues) + len(falses) != len(sets):
                return False
            if any(lp and m in lp[1] for m in falses):
                return False
            # every round that writes sets it
            return any(m == wp or C.rc(b, m) == C.rc(b, wp) or dom_or_post(b, m, wp, lp) for m in trues)
    # no flag: decided by something the writer says
    return any(has(l[0], lambda x: call(x, "is_empty") or call(x, "size") or call(x, "len") or x[0] == "fld") for cj in conds for l in cj) or all(not cj for cj in conds)


def dom_or_post(b, m, wp, lp):
    """m lies on every way from the loop header to wp, or on every way from wp back to it"""
    h = lp[0]
    def miss(s, d):
        seen, st = set(), [s]
        while st:
            n = st.pop()
            if n in seen or n == m:
                continue
            if n == d and n != s:
                return True
            seen.add(n)
            st.extend(x for x in b.succs(n) if x in lp[1])
        return False
    return not miss(h, wp) or not miss(wp, h)


def memtable(R, F):
    fid = FT + "flush_memtable"
    C = Cond(F, no_inline=r"FlushTask::|MemCache::|StorageOptions::")
    b = core_of(R, fid)
    req, mem = P(fid, 1), P(fid, 2)
    S = lambda n: own_sites(C, b, lambda c: bool(re.search(n, c.fid or c.name)))
    nw, rn, cl = S(r"FlushTask::new$"), S(r"FlushTask::run$"), S(r"FlushTask::clear_files$")
    if not R.check(len(nw) == 1 and len(rn) == 1, "fm", b.relfile, "one task is made and run"):
        return
    c, a, cd = nw[0]
    R.check(a[0] == ("fld", "owner", req) and a[1] == ("fld", "tf_id", req) and unclone(a[2]) == mem, "fm-what", c.where, "for the request's vnode and the cache given", str([show(x)[:30] for x in a[:3]]))
    p = a[3]
    R.check(call(p, "delta_dir") and p[2][1:] == (("fld", "owner", req), ("fld", "tf_id", req)) or call(p, "delta_dir") and [unclone(x) for x in p[2][1:]] == [("fld", "owner", req), ("fld", "tf_id", req)], "fm-dir", c.where, "in the vnode's delta directory", show(p)[:90])
    c, a, cd = rn[0]
    R.check(call(a[2], "seq_no") and has(a[2], lambda x: x == mem), "fm-seq", c.where, "up to the cache's sequence number", show(a[2])[:80])
    R.check((call(a[1], "max_level_ts") or a[1][0] == "fld" and a[1][1] == "max_level_ts") and has(a[1], lambda x: x == ("fld", "ts_family", req)), "fm-ts", c.where, "from the vnode's largest time", show(a[1])[:80])
    R.check(len(cl) == 1 and all(any(l[0][0] == "disc" and call(l[0][1], "run") or has(l[0], lambda x: call(x, "run")) for l in cj) for cj in cl[0][2]), "fm-clear", b.relfile, "a failure clears the file", "")
    propagates(R, F, b, lambda c: bool(re.search(r"FlushTask::(new|run)$", c.name)), "fm-err", "flush_memtable")
    for cd, t in C.ret_cases(b):
        if cd and t[0] == "agg" and t[1].endswith("::Ok"):
            x = t[2][0]
            R.check(x[0] == "agg" and len(x[2]) == 2 and all(fld(y, str(i)) is not None and has(y, lambda z: call(z, "run")) for i, y in enumerate(x[2])) or has(x, lambda z: call(z, "run")) and x[0] != "agg", "fm-ret", b.relfile, "edit and filters of the task are returned", show(x)[:80])
    # clearing
    fid = FT + "FlushTask::clear_files"
    C = Cond(F, no_inline=r"make_delta_file|remove_if")
    b = R.body(fid)
    me = P(fid, 1)
    rm = own_sites(C, b, lambda c: bool(re.search(r"remove", c.name)))
    R.check(len(rm) >= 1 and all(has(s[1][-1], lambda x: call(x, "make_delta_file") and [unclone(y) for y in x[2]] == [("fld", "path_delta", me), ("fld", "current_delta_file_id", me)]) for s in rm), "fm-clear", b.relfile, "only the file of the failed flush is removed")


def job(R, F):
    # ------------------------------------------------------------ run
    fid = J + "run"
    NI = r"VersionEdit::|SummaryTask|apply_version|process_summary|flush_mem|FlushTask|mark_flush|erase_fl|MemCache::|FlushJob::|TSIndex::flush"
    C = Cond(F, no_inline=NI)
    b = core_of(R, fid)
    me, req = P(fid, 1), P(fid, 2)
    locks = top_sites(C, b, lambda c: c.name.endswith("RwLock::write") or c.name.endswith("RwLock<T>::write"))
    q = [s for s in locks if s[1][0] == ("fld", "queue", me)]
    tf = [s for s in locks if s[1][0] == ("fld", "ts_family", req)]
    ix = top_sites(C, b, lambda c: bool(re.search(r"TSIndex(::\w+)*::flush$|::flush$", c.fid or c.name)) and "ndex" in (c.fid or c.name))
    if not ix:
        ix = [s for s in top_sites(C, b, lambda c: c.name.endswith("::flush"))]
    R.check(len(ix) >= 1, "index", b.relfile, "the index is flushed", str(len(ix)))
    fm = top_sites(C, b, lambda c: c.name.endswith("FlushJob::flush_memtables"))
    R.check(len(fm) == 1, "data", b.relfile, "the caches are flushed", str(len(fm)))
    if not (ix and fm and R.check(len(q) == 1 and len(tf) == 1, "locks", b.relfile, "queue and vnode are locked once each", f"{len(q)} {len(tf)}")):
        return
    R.check(reach(b, ix[0][3], fm[0][3]) and not reach(b, fm[0][3], ix[0][3]), "index", ix[0][0].where, "before the data")
    propagates(R, F, b, lambda c: bool(re.search(r"FlushJob::flush_memtables$", c.name) or c.bb == ix[0][3]), "run-err", "run")
    R.check(reach(b, q[0][3], tf[0][3]) and not reach(b, tf[0][3], q[0][3]), "lock-order", tf[0][0].where, "the queue is locked before the vnode (as everywhere else)")
    mk = [s for s in own_sites(C, b, lambda c: c.name.endswith("MemCache::mark_flushing"))]
    ims = lambda t: has(t, lambda x: (x[0] == "fld" and x[1] == "immut_cache" or call(x, "im_cache")) and has(x, lambda y: y == ("fld", "ts_family", req)))
    if R.check(len(mk) == 1, "mark", b.relfile, "caches are marked at one place", str(len(mk))):
        c, a, cd = mk[0]
        R.check(ims(a[0]), "mark", c.where, "of the vnode's full caches", show(a[0])[:80])
        t = R.F.get(c.body.id)
        if c.body is not b:
            CT = closure_true(C, c.body.id)
            ok = all(any(call(l[0], "mark_flushing") and truth(l) is True for l in cj) for cj in CT) and bool(CT)
            R.check(ok and all(len(cj) == 1 for cj in CT), "mark", c.where, "exactly those that were not marked yet", show_dnf(CT)[:100])
    ins = [s for s in top_sites(C, b, lambda c: bool(re.search(r"BTreeMap(<.*>)?::insert$", c.fid or c.name))) if has(s[1][0], lambda x: x == ("fld", "queue", me))]
    if R.check(len(ins) == 1, "enter", b.relfile, "entries are made at one place"):
        c, a, cd, tb = ins[0]
        R.check(call(a[1], "min_seq_no") and ims(a[1]), "enter", c.where, "under the cache's first sequence number", show(a[1])[:80])
        st = [x for x in walk(a[2]) if call(x, "new") and "SummaryTask" in x[1]]
        if R.check(len(st) >= 1, "enter", c.where, "with a summary task", show(a[2])[:80]):
            s = st[0][2]
            R.check(unclone(s[0]) == ("fld", "ts_family", req), "enter", c.where, "of the vnode", show(s[0])[:50])
            m = s[3]
            R.check(m[0] == "agg" and m[1].endswith("::Some") and len([x for x in walk(m) if ims(x)]) >= 1 and not has(m, lambda x: x[0] == "call" and re.search(r"skip|concat", x[1])), "enter", c.where, "that drops this cache", show(m)[:80])
            arr = [x for x in walk(m) if x[0] == "agg" and not x[1].endswith("::Some")]
            R.check(bool(arr) and len(arr[0][2]) == 1 and unclone(arr[0][2][0]) == (lambda y: y)(mem_of(a[1])), "enter", c.where, "and no other", show(m)[:80])
        fr = getf(a[2], "0") if a[2][0] == "agg" else None
        cp = getf(a[2][2][0], "completion") if a[2][0] == "agg" and a[2][2] else None
        R.check(cp is None or cp == ("fld", "completion", req) or konst(cp) == 0 or show(cp) == "false", "enter", c.where, "not completed yet", show(cp)[:60] if cp else "")
        lp = C.loop_of(b, tb)
        R.check(lp is not None and pure_loop2(C, b, tb) or c.body is not b and C.loop_of(c.body, c.bb) is None and not [l for cj in C.rc(c.body, c.bb) for l in cj], "enter-each", c.where, "one for every marked cache")
        for l in {l for cj in cd for l in cj}:
            R.check(some(l) or okl(l) or has(l[0], lambda x: call(x, "is_empty")), "enter-each", c.where, "every one", show(l[0])[:80])
        held = flow_drops(b)
        for nm, s in (("queue", q[0]), ("vnode", tf[0])):
            R.check(reach(b, s[3], tb), "enter-held", c.where, f"while the {nm} is locked")
        for d in held:
            R.check(not (reach(b, d, tb) and reach(b, q[0][3], d)), "enter-held", c.where, "no lock is released before the entries are made")
        for nm, s in (("queue", q[0]), ("vnode", tf[0])):
            gs = guards_of(b, C, s[0])
            R.check(bool(gs) and released(b, gs, s[3], fm[0][3]), "released", s[0].where, f"the {nm} is unlocked before the caches are flushed (flushing locks it again)", str(gs))
        R.check(reach(b, tb, fm[0][3]) and not reach(b, fm[0][3], tb), "enter", c.where, "before the caches are flushed")
    er = [s for s in top_sites(C, b, lambda c: c.name.endswith("MemCache::erase_flushing"))]
    if R.check(len(er) == 1, "unmark", b.relfile, "marks are removed at one place", str(len(er))):
        c, a, cd, tb = er[0]
        R.check(ims(a[0]), "unmark", c.where, "from the caches of this flush", show(a[0])[:70])
        R.check(bool(cd) and all(any(has(l[0], lambda x: call(x, "flush_memtables")) and ("1" in l[1]) == l[2] for l in cj) for cj in cd), "unmark", c.where, "when flushing failed", show_dnf(cd)[:120])
        R.check(c.body is not b or pure_loop2(C, b, tb), "unmark", c.where, "from all of them")
        # and on every failing way
        for u, d, cd2 in fail_edges(C, b):
            R.check(must_pass(b, d, tb, C), "unmark-all", b.relfile, "every failure of flushing does so")
    for f, x in (("completion", "true"),):
        pass
    # ------------------------------------------------------------ flush_memtables
    fid = J + "flush_memtables"
    C = Cond(F, no_inline=NI)
    b = core_of(R, fid)
    me, req, mems, rcv = [P(fid, i) for i in (1, 2, 3, 4)]
    fl = top_sites(C, b, lambda c: c.name.endswith("flush::flush_memtable"))
    if R.check(len(fl) == 1, "each", b.relfile, "caches are flushed at one place"):
        c, a, cd, tb = fl[0]
        it = unclone(a[1])
        R.check(a[0] == req and it[0] == "ok" and it[1] == mems, "each", c.where, "each cache given", show(a[1])[:60])
        R.check(all(all(some(l) or okl(l) for l in cj) for cj in cd) and C.loop_of(b, tb) is not None, "each", c.where, "every one", show_dnf(cd)[:80])
        ent = lambda t: has(t, lambda x: call(x, "get_mut") and has(x[2][0], lambda y: y == ("fld", "queue", me)) and call(x[2][1], "min_seq_no") and has(x[2][1], lambda y: y == it))
        got = {}
        res = lambda t: has(t, lambda x: call(x, "flush_memtable"))
        for p, av, cd2 in C.writes(b, r"^(completion|version_edit|file_metas)$"):
            got[p[3]] = av[0]
            R.check(ent(av[1]), "complete", b.relfile, f"{p[3]} of the cache's own entry", show(av[1])[:80])
            R.check(bool(cd2) and all(any(l[0][0] == "disc" and call_in(l[0][1], "flush_memtable") and (l[1] == frozenset("0")) == l[2] for l in cj) for cj in cd2), "complete", b.relfile, f"{p[3]} once the cache is flushed", show_dnf(cd2)[:100])
            extra = [l for cj in cd2 for l in cj if not (okl(l) or some(l) or l[0][0] == "disc")]
            R.check(not extra, "complete", b.relfile, f"{p[3]} whatever was flushed", show_dnf(cd2)[:100])
        R.check(set(got) == {"completion", "version_edit", "file_metas"}, "complete", b.relfile, "the entry is completed", str(sorted(got)))
        if "completion" in got:
            R.check(show(got["completion"]) == "true" or konst(got["completion"]) == 1, "complete", b.relfile, "marked complete", show(got["completion"]))
        if "version_edit" in got:
            R.check(fld(unclone(got["version_edit"]), "0") is not None and res(got["version_edit"]), "complete", b.relfile, "with the edit of that flush", show(got["version_edit"])[:80])
        if "file_metas" in got:
            R.check(has(got["file_metas"], lambda x: x[0] == "fld" and str(x[1]) == "1" and res(x)), "complete", b.relfile, "with its filters", show(got["file_metas"])[:80])
        ps = top_sites(C, b, lambda c: c.name.endswith("process_summary_tasks"))
        R.check(len(ps) >= 1 and any(within_round(C, b, tb, s[3]) for s in ps) and any(s[2] == frozenset(cj for cj in s[2] if not [l for l in cj if not (okl(l) or some(l))]) for s in ps), "apply", b.relfile, "what is complete is applied", str(len(ps)))
        for p, av, cd2 in C.writes(b, r"^(completion|version_edit|file_metas)$"):
            R.check(ps and within_round(C, b, p[1], ps[0][3]), "apply", b.relfile, "after the entry is completed")
    propagates(R, F, b, lambda c: bool(re.search(r"flush_memtable$", c.name)), "fms-err", "flush_memtables")
    # the answers
    rets = C.ret_cases(b)
    R.check(any(has(t, lambda x: x[0] == "err" or x[0] == "ok") and has(t, lambda x: x == rcv) for cd, t in rets), "answers", b.relfile, "a failure to apply an edit is returned")
    # ------------------------------------------------------------ process_summary_tasks
    fid = J + "process_summary_tasks"
    C = Cond(F, no_inline=NI)
    b = core_of(R, fid)
    me = P(fid, 1)
    Q = lambda t: has(t, lambda x: x == ("fld", "queue", me))
    pf = top_sites(C, b, lambda c: bool(re.search(r"BTreeMap(<.*>)?::(pop_first|first_key_value|first_entry|pop_last|remove|last_key_value)$", c.fid or c.name)))
    R.check(len(pf) >= 1 and all(re.search("first", s[0].name) for s in pf), "lowest", b.relfile, "entries are taken lowest first", str([s[0].name.rsplit("::", 1)[1] for s in pf]))
    ql = [s for s in top_sites(C, b, lambda c: c.name.endswith("RwLock::write") or c.name.endswith("RwLock<T>::write")) if s[1][0] == ("fld", "queue", me)]
    ap = top_sites(C, b, lambda c: c.name.endswith("Summary::apply_version_edit"))
    rin = [s for s in top_sites(C, b, lambda c: bool(re.search(r"BTreeMap(<.*>)?::insert$", c.fid or c.name)))]
    R.check(len(ql) == 1 and C.loop_of(b, ql[0][3]) is None, "held", b.relfile, "the queue stays locked throughout", str(len(ql)))
    if not (pf and R.check(len(ap) == 1, "apply-one", b.relfile, "edits are applied at one place", str(len(ap)))):
        return
    ent = lambda t: has(t, lambda x: call(x, "pop_first") or call(x, "first_entry") or call(x, "first_key_value"))
    comp = lambda l: l[0][0] == "fld" and l[0][1] == "completion" and ent(l[0])
    c, a, cd, tb = ap[0]
    R.check(has(a[0], lambda x: x == ("fld", "summary", me)) and a[1][0] == "fld" and a[1][1] == "request" and ent(a[1]), "apply-one", c.where, "the entry's request, by the vnode's summary", show(a[1])[:70])
    R.check(all(any(comp(l) and truth(l) is True for l in cj) for cj in cd), "complete-only", c.where, "only when it is complete", show_dnf(cd)[:100])
    R.check(all(all(comp(l) or some(l) for l in cj) for cj in cd), "complete-all", c.where, "and always then", show_dnf(cd)[:100])
    popped = any("pop_first" in s[0].name for s in pf)
    if popped:
        inc = [s for s in rin if all(any(comp(l) and truth(l) is False for l in cj) for cj in s[2]) and s[2]]
        bad = [s for s in rin if s not in inc]
        R.check(len(inc) >= 1, "keep-incomplete", b.relfile, "an incomplete entry stays in the queue")
        R.check(len(bad) >= 1 and all(all(any(has(l[0], lambda x: call(x, "apply_version_edit")) for l in cj) for cj in s[2]) for s in bad), "keep-failed", b.relfile, "an entry that could not be applied stays in the queue")
        for s in rin:
            R.check(Q(s[1][0]) and fld(s[1][1], "0") is not None and ent(s[1][1]), "keep", s[0].where, "under its own key", show(s[1][1])[:60])
            ops = s[1][2]
            R.check(ops[0] == "agg" and all(ent(x) or x[0] != "fld" for x in ops[2]), "keep", s[0].where, "itself", show(ops)[:70])
            R.check(not reach(b, s[3], tb), "stop", s[0].where, "and nothing newer is applied")
        for s in bad:
            cp = [getf(x, "completion") for x in walk(s[1][2]) if x[0] == "agg" and x[1].endswith("FlushReq")]
            R.check(bool(cp) and all(x is not None and (show(x) == "false" or konst(x) == 0) for x in cp), "again", s[0].where, "until it is flushed again", str([show(x) for x in cp if x]))
    # a failure never goes on to the next
    for u, d, cd2 in C.loop_exits(b, tb):
        for cj in cd2:
            ok = any(comp(l) and truth(l) is False or has(l[0], lambda x: call(x, "apply_version_edit")) or l[0][0] == "disc" and call_in(l[0][1], "pop_first") and not some(l) for l in cj)
            R.check(ok, "until", b.relfile, "goes on as long as complete entries come first", show_dnf(frozenset([cj]))[:120])
    nxt = pf[0][3]
    R.check(failed_stops(C, b, tb, nxt), "stop-failed", c.where, "after a failure nothing newer is applied")
    sd = top_sites(C, b, lambda c: bool(re.search(r"oneshot::.*Sender(<.*>)?::send$|Sender(<.*>)?::send$", c.fid or c.name)) and "mpsc" not in (c.fid or c.name))
    R.check(any(has(s[1][1], lambda x: call(x, "apply_version_edit")) and s[2] == cd for s in sd), "tell", b.relfile, "who waits is told the result", str(len(sd)))


def failed_stops(C, b, ap, nxt):
    """from the application to the next entry only over edges on which it succeeded"""
    seen, st = set(), [ap]
    errlit = lambda l: l[0][0] == "disc" and call_in(l[0][1], "apply_version_edit") or has(l[0], lambda x: call(x, "apply_version_edit"))
    while st:
        n = st.pop()
        for d in b.succs(n):
            if (n, d) in seen:
                continue
            seen.add((n, d))
            if d == nxt or nxt in b.succs(d) and False:
                cd = C.edge(b, n, d)
                rc = C.rc(b, n)
                return all(any(errlit(l) and (l[0][0] == "disc" and (("0" in l[1]) == l[2]) or l[0][0] != "disc" and truth(l) is True) for l in cj) for cj in rc) or through(C, b, ap, nxt, errlit)
            st.append(d)
    return True


def through(C, b, ap, nxt, errlit):
    """every way from ap back to nxt crosses an edge that says it succeeded"""
    def good(u, d):
        e = C.edge(b, u, d)
        if not e:
            return False
        return all(any(errlit(l) and (l[0][0] == "disc" and l[1] <= {"0", "1"} and (("0" in l[1]) == l[2]) or l[0][0] == "call" and l[0][1].endswith("is_ok") and truth(l) is True or l[0][0] == "call" and l[0][1].endswith("is_err") and truth(l) is False) for l in cj) for cj in e)
    seen, st = set(), [ap]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        for d in b.succs(n):
            if good(n, d):
                continue
            if d == nxt:
                return False
            st.append(d)
    return True


def call_in(t, n):
    return has(t, lambda x: call(x, n))


def mem_of(t):
    """the cache a min_seq_no belongs to"""
    x = t[2][0]
    while x[0] == "call" and x[1].endswith("::read") and len(x[2]) == 1:
        x = x[2][0]
    return unclone(x)


def flow_drops(b):
    """explicit drops of guards"""
    return [c.bb for c in b.calls() if re.search(r"mem::drop$", c.name) and re.search(r"Guard", b.lty(int(c.args[0][1])) if c.args[0][0] in ("m", "c") and isinstance(c.args[0][1], str) else "")]


def guards_of(b, C, lock):
    """named locals that hold the guard made by the lock call"""
    out = []
    for l, nm in b.names.items():
        if l.isdigit() and re.search(r"Guard", b.lty(int(l))):
            for n, blk in enumerate(b.blocks):
                for i, s in enumerate(blk["s"] if not blk.get("c") else []):
                    if s[0] == "=" and s[1] == l and s[2][0] == "use" and has(C.T.stmt_op(b, n, i, s[2][1]), lambda x: x[0] == "call" and x[3] == (b.id, lock.bb) or x[0] == "call" and x[1].endswith("::write") and list(x[2]) == [C.T.arg(lock, 0)]):
                        out.append(l)
    return sorted(set(out))


def released(b, gs, frm, to):
    """on every way from where the guard comes to be to `to` it is dropped; followed through moves"""
    starts = [(n, i + 1, s[1]) for n, blk in enumerate(b.blocks) if not blk.get("c") for i, s in enumerate(blk["s"]) if s[0] == "=" and s[1] in gs]
    starts = [x for x in starts if reach(b, frm, x[0])]
    seen, st = set(), list(starts)
    while st:
        n, i, h = st.pop()
        if (n, i, h) in seen:
            continue
        seen.add((n, i, h))
        if n == to and i == 0:
            return False
        for s in b.blocks[n]["s"][i:]:
            if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "m" and s[2][1][1] == h:
                h = s[1]
        t = b.blocks[n]["t"]
        if t[0] == "drop" and t[1] == h or t[0] == "call" and any(a[0] == "m" and a[1] == h for a in t[2]):
            continue
        st.extend((d, 0, h) for d in b.succs(n))
    return bool(starts)


def fail_edges(C, b):
    for n in sorted(b.reachable()):
        t = b.blocks[n]["t"]
        if t[0] != "switch":
            continue
        for d in b.succs(n):
            e = C.edge(b, n, d)
            if e and all(any(l[0][0] == "disc" and call_in(l[0][1], "flush_memtables") and not has(l[0][1], lambda x: x[0] == "ok") and l[2] and l[1] == frozenset("1") for l in cj) for cj in e):
                yield n, d, e


def must_pass(b, d, m, C):
    """from d, every return is behind the loop around m (its header)"""
    lp = C.loop_of(b, m)
    h = lp[0] if lp else m
    seen, st = set(), [d]
    while st:
        n = st.pop()
        if n in seen or n == h:
            continue
        if b.blocks[n]["t"][0] == "return":
            return False
        seen.add(n)
        st.extend(b.succs(n))
    return True


def unref2(t):
    while t[0] == "call" and t[1].endswith(("deref", "as_slice", "borrow")) and len(t[2]) == 1:
        t = t[2][0]
    return t


def cache(R, F):
    C = Cond(F, no_inline=r"SeriesData::|MemoryReservation|try_grow")
    # marks
    for n, frm, to in (("mark_flushing", "false", "true"), ("erase_flushing", "true", "false")):
        fid = MC + "MemCache::" + n
        b = R.body(fid)
        s = own_sites(C, b, lambda c: bool(re.search(r"compare_exchange$|::swap$", c.name)))
        ok = len(s) == 1 and s[0][1][0] == ("fld", "flushing", P(fid, 1)) and show(s[0][1][1]) == (frm if "compare" in s[0][0].name else to) and ("swap" in s[0][0].name or show(s[0][1][2]) == to)
        R.check(ok, "atomic", b.relfile, f"{n} is one atomic exchange {frm} -> {to}", str([show(x) for x in s[0][1]]) if s else "")
        for cd, t in C.ret_cases(b):
            if s:
                t2 = t
                ce = lambda x: has(x, lambda y: y[0] == "call" and re.search(r"compare_exchange$|::swap$", y[1]))
                good = t[0] == "call" and t[1].endswith("is_ok") and ce(t) or t[0] == "un" and t[2][0] == "call" and not t[2][1].endswith("is_ok") and ce(t) and (n == "mark_flushing" or t[2][1].endswith("is_err"))
                good = good or t[0] == "call" and t[1].endswith("::swap") and n == "erase_flushing"
                if t[0] == "k":
                    yes = show(t) == "true"
                    def says(l):
                        if l[0][0] == "disc" and ce(l[0][1]):
                            return (("0" in l[1]) == l[2]) == yes
                        if l[0][0] == "call" and ce(l[0]) and l[0][1].endswith(("is_ok", "is_err")):
                            return (truth(l) == l[0][1].endswith("is_ok")) == yes
                        return False
                    good = all(any(says(l) for l in cj) for cj in cd)
                R.check(good, "atomic", b.relfile, f"{n} tells whether it was changed", show(t)[:60])
    # partitions
    for fid in sorted(F.ids()):
        if not fid.startswith(MC + "MemCache::") or "::{" in fid:
            continue
        for x in F.family(fid):
            for c in x.calls():
                if not re.search(r"RwLock(<.*>)?::(read|write)$", c.fid or c.name):
                    continue
                t = C.T.arg(c, 0)
                if t[0] == "idx" and t[1][0] == "fld" and t[1][1] == "partions" or t[0] == "idx" and has(t[1], lambda y: y[0] == "fld" and y[1] == "partions"):
                    i = t[2]
                    ok = i[0] == "bin" and i[1] == "Rem" and i[2][0] == "cast" and i[3][0] == "fld" and i[3][1] == "part_count" and i[2][-1][0] in ("param", "ok", "fld")
                    R.check(ok, "part", c.where, "a series' partition is its id modulo the number of partitions", show(i)[:70])
    fid = MC + "MemCache::new"
    b = R.body(fid)
    for cd, t in C.ret_cases(b):
        g = lambda n: getf(t, n)
        R.check(g("tf_id") == P(fid, 1) and g("file_id") == P(fid, 2) and g("max_size") == P(fid, 3) and g("part_count") == P(fid, 4) and g("min_seq_no") == P(fid, 5), "new", b.relfile, "a cache keeps the ids, size and sequence number it is made with", show(t)[:100])
        s = g("seq_no")
        R.check(s is not None and has(s, lambda x: x == P(fid, 5)), "new", b.relfile, "and starts at that sequence number", show(s)[:60] if s else "")
        f = g("flushing")
        R.check(f is not None and has(f, lambda x: show(x) == "false"), "new", b.relfile, "not marked", show(f)[:60] if f else "")
    rng = [C.T.arg(c, k) for c in b.calls() for k in range(len(c.args))]
    rng += [a for c, aa, cd in own_sites(C, b, lambda c: True) for a in aa]
    R.check(any(c.name.endswith("::resize_with") and C.T.arg(c, 1) == P(fid, 4) for c in b.calls()) or any(has(t, lambda x: x[0] == "agg" and x[1].endswith("::Range") and konst(x[2][0]) == 0 and x[2][1] == P(fid, 4)) or has(t, lambda x: call(x, "resize_with") and x[2][1] == P(fid, 4)) for t in rng), "new-parts", b.relfile, "with that many partitions")
    # writing
    fid = MC + "MemCache::write_group"
    b = R.body(fid)
    me, sid, key, seq, grp = [P(fid, i) for i in (1, 2, 3, 4, 5)]
    st = own_sites(C, b, lambda c: bool(re.search(r"Atomic\w*(<.*>)?::(store|fetch_max)$", c.fid or c.name)))
    R.check(len(st) == 1 and st[0][1][0] == ("fld", "seq_no", me) and st[0][1][1] == seq and all(not cj for cj in st[0][2]), "wr-seq", b.relfile, "a write moves the sequence number to its own", str(len(st)))
    gr = own_sites(C, b, lambda c: c.name.endswith("try_grow"))
    R.check(len(gr) == 1 and has(gr[0][1][0], lambda x: x == ("fld", "memory", me)) and gr[0][1][1] == ("fld", "size", grp), "wr-mem", b.relfile, "its memory is reserved", str([show(x)[:40] for x in gr[0][1]]) if gr else "")
    wr = own_sites(C, b, lambda c: c.name.endswith("SeriesData::write"))
    if R.check(len(wr) in (1, 2), "wr", b.relfile, "the rows are written", str(len(wr))):
        tot = set()
        for c, a, cd in wr:
            R.check(a[1] == grp, "wr", c.where, "the rows given", show(a[1])[:40])
            R.check(gr and c.body is b and reach(b, gr[0][0].bb, c.bb), "wr-mem", c.where, "before they are written")
            for cj in cd:
                for l in cj:
                    if l[0][0] == "disc" and (call_in(l[0][1], "get") or call_in(l[0][1], "entry") or call_in(l[0][1], "get_mut")):
                        tot.add("have" if (("1" in l[1]) == l[2]) else "new")
        if len(wr) == 2:
            R.check(tot >= {"have", "new"}, "wr", b.relfile, "into the series or a new one", str(tot))
            ins = own_sites(C, b, lambda c: bool(re.search(r"HashMap(<.*>)?::insert$", c.fid or c.name)))
            R.check(len(ins) == 1 and ins[0][1][1] == sid and has(ins[0][1][2], lambda x: call(x, "new") and "SeriesData" in x[1] and x[2][0] == sid and x[2][1] == key), "wr-new", b.relfile, "a new series is entered under its id with its key", str([show(x)[:50] for x in ins[0][1][1:]]) if ins else "")
            R.check(ins and ins[0][2] == [s for s in wr if any("new" == ("have" if (("1" in l[1]) == l[2]) else "new") for cj in s[2] for l in cj if l[0][0] == "disc" and call_in(l[0][1], "get"))][0][2] if ins and tot >= {"have", "new"} else bool(ins), "wr-new", b.relfile, "whenever there was none")
    propagates(R, F, b, lambda c: c.name.endswith("try_grow"), "wr-err", "write_group")
    # the scan
    fid = MC + "MemCacheSeriesScanIterator::new"
    b = R.body(fid)
    rets = C.ret_cases(b)
    for cd, t in rets:
        R.check(konst(getf(t, "index") or ("k", "", "", 1)) == 0, "scan", b.relfile, "the scan begins at the first series")
        s = getf(t, "serieses")
        ext = [a[1] for c, a, cd in own_sites(C, b, lambda c: bool(re.search(r"::(extend|push|append)$", c.name)))]
        if s is not None and s[0] == "call" and re.search(r"Vec(<.*>)?::(new|with_capacity)$", s[1]) and ext:
            for c, a, cd in own_sites(C, b, lambda c: bool(re.search(r"::(extend|push|append)$", c.name))):
                R.check(all(all(some(l) for l in cj) for cj in cd) and (c.body is not b or pure_loop2(C, b, c.bb)), "scan", c.where, "every partition", show_dnf(cd)[:80])
            s = ("agg", "collected", tuple(ext))
        R.check(s is not None and has(s, lambda x: x[0] == "fld" and x[1] == "partions" and has(x, lambda y: y == P(fid, 1))), "scan", b.relfile, "of all partitions", show(s)[:120] if s else "")
        R.check(s is None or not has(s, lambda x: x[0] == "call" and re.search(r"Iterator>?::(skip|take|filter|step_by|filter_map|skip_while|take_while)$", x[1])), "scan", b.relfile, "without leaving any out", show(s)[:120] if s else "")
    vals = [c for x in F.family(fid) for c in x.calls() if re.search(r"HashMap(<.*>)?::(values|iter|into_values)$", c.fid or c.name)] + [c for c in b.calls() if re.search(r"HashMap(<.*>)?::(values|iter)$", c.fid or c.name)]
    R.check(len(vals) >= 1, "scan", b.relfile, "every series of a partition")
    for x in F.family(fid):
        for c in x.calls():
            R.check(not re.search(r"Iterator::(skip|take|filter|step_by|filter_map|skip_while|take_while)$", c.fid or ""), "scan", c.where, "nothing is left out")
    ids = [x for x in F.ids() if "MemCacheSeriesScanIterator as" in x and x.endswith("::next")]
    if R.check(len(ids) == 1, "scan-next", "tskv", "the scan is an iterator", str(ids)):
        fid = ids[0]
        b = R.body(fid)
        me = P(fid, 1)
        w = C.writes(b, "index")
        R.check(len(w) == 1 and w[0][1][0][0] in ("bin", "fld") and has(w[0][1][0], lambda x: x[0] == "bin" and x[1].startswith("Add") and x[2] == ("fld", "index", me) and konst(x[3]) == 1), "scan-next", b.relfile, "it goes on by one", str(len(w)))
        for cd, t in C.ret_cases(b):
            if t[0] == "agg" and t[1].endswith("::Some"):
                x = unclone(t[2][0])
                at = x[0] == "ok" and x[1][0] == "call" and x[1][1].endswith("::get") and unref2(x[1][2][0]) == ("fld", "serieses", me) and x[1][2][1] == ("fld", "index", me)
                R.check(at or x == ("idx", ("fld", "serieses", me), ("fld", "index", me)), "scan-next", b.relfile, "gives the series it stands at", show(x)[:70])
                R.check(w and cd == w[0][2], "scan-next", b.relfile, "and then goes on", show_dnf(cd)[:80])
            elif t[0] == "agg" and t[1].endswith("::None") or t[0] == "err":
                ln = lambda x: call(x, "len") and has(x, lambda y: y == ("fld", "serieses", me))
                gone = lambda l: l[0][0] == "disc" and has(l[0], lambda x: x[0] == "call" and x[1].endswith("::get") and x[2][1] == ("fld", "index", me)) and not some(l)
                R.check(all(rels(cj, ("fld", "index", me), ln) <= set("=>") or any(gone(l) for l in cj) for cj in cd), "scan-next", b.relfile, "ends behind the last one", show_dnf(cd)[:80])


