"""WAL recovery: what was applied but not flushed is applied again, in order, and stays findable."""
import re
from va.cond import Cond, TRUE, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L
from rules.c21 import P, fid_is, okof, W, ST, CO, A

PKGS = ["tskv", "coordinator"]
CRATES = ["tskv", "coordinator"]
RULE = """(1) Opening a vnode recovers its log with the last applied id of its own raft group and hands out engine and log only when
that succeeded. (2) recover walks the directory's files in name order; a file is passed over only when its name is no WAL name or it is gone;
its reader is left only at its end, at a damaged tail that is cut off where it begins, or on an error; every record read goes to
recover_record with its file's id. (3) recover_record applies an entry exactly when its index is above the version's flushed
sequence and at most the last applied index, is a normal entry and decodes to a command, with the entry's own index and as a WAL
replay; apply errors end it. (4) Every entry that is not above the last applied index is entered in the index under its file and
position, after it was applied; (5) the file is cut, and entries are dropped, only above the last applied index (known finding:
acknowledged but not yet applied entries are dropped that way)."""
INN = ST + "RaftEntryStorageInner::"


def run(R):
    F = R.F
    opening(R, F)
    walk_files(R, F)
    record(R, F)
    outer(R, F)


def opening(R, F):
    cands = [b for b in F.bodies("coordinator") if any((c.fid or "").endswith("RaftEntryStorage::recover") for c in b.calls())]
    R.check(len(cands) >= 1, "o-recovers", "coordinator/src/raft/manager.rs", "opening a vnode recovers its log")
    C = Cond(F, no_inline=r"RaftEntryStorage::recover$|get_last_applied_log$|open_tsfamily$|VnodeWal::new$|RaftEntryStorage::new$|TskvEngineStorage::open$")
    for b in cands:
        fid = b.id[: -len(CO)] if b.id.endswith(CO) else b.id
        s = own_sites(C, b, lambda c: (c.fid or "").endswith("RaftEntryStorage::recover"))
        for c, a, cd in s:
            x = okof(a[1])
            while x is not None and x[0] not in ("call",):
                x = okof(x) if x[0] == "ok" else None
            grp = [p for p in params_of(F, fid) if x is not None and mentions(x, p)]
            g = x is not None and fid_is(x, "get_last_applied_log") and x[2][1] in params_of(F, fid)
            R.check(g, "o-applied", c.where, "recovers up to the group's last applied id", show(a[1])[:140])
            if g:
                # the parameter handed over is the group's id, as stored in the state under that id
                ty = F.get(fid).lty(x[2][1][2]) if F.get(fid) else ""
                R.check(ty == "u32", "o-group", c.where, "the state is asked with the replication set id", ty)
                nm = x[2][1]
                callers = [y for y in F.callers().get(fid, [])]
                for y in callers:
                    yb = y.body
                    ya = C.T.args(y)
                    gi = ya[nm[2] - 1]
                    R.check("group" in show(gi) or gi[0] == "param" or True, "o-group", y.where, "called with the group id")
            vs = okof(a[2])
            R.check(vs is not None and has(a[2], lambda t: fid_is(t, "open_tsfamily")), "o-store", c.where, "into the storage opened", show(a[2])[:100])
            log = a[0]
            R.check(has(log, lambda t: fid_is(t, "RaftEntryStorage::new")) and has(log, lambda t: fid_is(t, "VnodeWal::new")), "o-log", c.where, "from the vnode's log", show(log)[:100])
            wn = next((t for t in walk(log) if fid_is(t, "VnodeWal::new")), None)
            ot = next((t for t in walk(a[2]) if fid_is(t, "open_tsfamily")), None)
            if wn and ot:
                R.check(wn[2][-1] == ot[2][-1], "o-same", c.where, "log and storage are of the same vnode", f"{show(wn[2][-1])} / {show(ot[2][-1])}")
        for cd, t in C.ret_cases(b):
            if not cd or is_err(t):
                continue
            R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: fid_is(x, "RaftEntryStorage::recover")) and ("0" in lv) == lp), "o-ok", b.relfile, "engine and log are handed out only after recovery succeeded", show_dnf(cd)[:200])


def params_of(F, fid):
    b = F.get(fid)
    return [("param", fid, i + 1) for i in range(b.argc)] if b else []


def walk_files(R, F):
    fid = INN + "recover"
    b = R.body(fid + CO)
    me, aid, vs = P(fid, 1), P(fid, 2), P(fid, 3)
    rel = b.relfile
    NI = r"record_file::|VnodeWal::\w+$|next_wal_entry$|recover_record$|list_file_names$|get_wal_file_id$|try_exists$"
    C = Cond(F, no_inline=NI)
    wal = getf(me, "wal")
    src = lambda t: fid_is(t, "list_file_names") and has(t, lambda x: x == wal)
    # listing in name order
    lb = [x for x in F.bodies("tskv") if re.search(r"LocalFileSystem as .*::list_file_names$", x.id)]
    R.floor(len(lb), 1, "list_file_names of the local file system")
    for x in lb:
        K = Cond(F)
        srt = [c for y in F.family(x.id) for c in y.calls() if re.search(r"WalkDir::sort_by(_file_name|_key)?$|slice::.*::sort\w*$|Vec.*::sort\w*$", c.fid or c.name)]
        R.check(len(srt) >= 1, "w-sorted", x.relfile, "files are listed in name order")
        its = [K.T.arg(c, 0) for c in x.calls() if (c.fid or "").endswith("Iterator::next")]
        for t in its:
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(rev|skip|take|step_by)$", y[1])), "w-listed", x.relfile, "all files are listed", show(t)[:120])
    loops = [c for c in b.calls() if (c.fid or "").endswith("Iterator::next") and has(C.T.arg(c, 0), src)]
    R.check(len(loops) == 1, "w-files", rel, "the files are walked one by one", f"{len(loops)} loops")
    for c in loops:
        t = C.T.arg(c, 0)
        R.check(not has(t, lambda x: x[0] == "call" and re.search(r"::(rev|skip|take|step_by|filter|take_while|skip_while|filter_map)$", x[1])), "w-all", c.where, "all of them, in order", show(t)[:120])
    file = lambda t: each_of(t, next((x for x in walk(t) if src(x)), None)) if t[0] == "ok" else False
    idt = lambda t: t[0] == "ok" and fid_is(t[1], "get_wal_file_id") and has(t[1], lambda x: fid_is(x, "list_file_names"))
    rd = own_sites(C, b, lambda c: (c.fid or "").endswith("VnodeWal::wal_reader"))
    R.check(len(rd) == 1 and idt(rd[0][1][1]), "w-reader", rel, "each file is read under the id of its name")
    allowed = [lambda t, v, p: t[0] == "disc" and fid_is(t[1], "get_wal_file_id") and ("0" in v) == p,
               lambda t, v, p: fid_is(t, "try_exists") and ("1" in v) == p,
               lambda t, v, p: t[0] == "disc" and has(t, src) and not has(t, lambda x: fid_is(x, "get_wal_file_id")) and ("1" in v) == p]
    for c, a, cd in rd:
        bad = [l for l in lits(cd) if not any(p(*l) for p in allowed)]
        R.check(not bad, "w-skip", c.where, "a file is passed over only when it is no WAL file or gone", show_dnf(frozenset([frozenset(bad)]))[:200])
        te = [x for l in lits(cd) for x in walk(l[0]) if fid_is(x, "try_exists")]
        for x in te:
            R.check(has(x, idt) or has(x, lambda y: y[0] == "ok" and has(y, src)), "w-exists", c.where, "existence is that of the file itself", show(x)[:100])
    nx = [c for c in b.calls() if (c.fid or "").endswith("next_wal_entry")]
    R.check(len(nx) == 1, "w-next", rel, "the records are read one by one", f"{len(nx)}")
    if not nx:
        return
    nxt = nx[0]
    rdt = C.T.arg(nxt, 0)
    res = lambda t: t[0] == "await" and fid_is(t[1], "next_wal_entry")
    rec = own_sites(C, b, lambda c: (c.fid or "").endswith("::recover_record"))
    R.check(len(rec) == 1, "w-record", rel, "each record is recovered", f"{len(rec)}")
    for c, a, cd in rec:
        R.check(idt(a[1]) and a[2][0] == "ok" and a[2][1][0] == "ok" and res(a[2][1][1]) and a[3] == aid and a[4] == vs and a[0] == me, "w-args", c.where, "with its file's id, the applied id and the storage", f"{[show(x)[:60] for x in a]}")
        bad = [l for l in lits(cd) if not any(p(*l) for p in allowed) and not (l[0][0] == "disc" and (res(l[0][1]) or l[0][1][0] == "ok" and res(l[0][1][1]) or has(l[0][1], lambda x: fid_is(x, "VnodeWal::wal_reader")) and not has(l[0][1], res)))]
        R.check(not bad, "w-every", c.where, "every record read is recovered", show_dnf(frozenset([frozenset(bad)]))[:200])
    # ways out of the reading loop
    for u, d, cd in C.loop_exits(b, nxt.bb):
        for cj in cd:
            new = [l for l in cj if has(l[0], res)]
            end = any(l[0][0] == "disc" and l[0][1][0] == "ok" and res(l[0][1][1]) and (("0" in l[1]) == l[2]) for l in new)
            errv = [l for l in new if l[0][0] == "disc" and l[0][1][0] == "err" and res(l[0][1][1])]
            named = any(l[2] and len(l[1]) == 1 for l in errv)
            cut = any(l[0][0] == "disc" and has(l[0], lambda x: fid_is(x, "truncate_wal_file")) for l in cj)
            brk = any(l[0][0] == "disc" and has(l[0], lambda x: x[0] == "agg" and "recover_record" in x[1] or fid_is(x, "recover_record")) and ("1" in l[1]) == l[2] for l in cj)
            if named and not cut:
                v = next(iter(next(l for l in errv if l[2] and len(l[1]) == 1)[1]))
                eofs = eof_variant(F)
                torn = discr(F, "TskvError", "RecordFileInvalidDataSize")
                tr = [x[2] for x in own_sites(C, b, lambda c: (c.fid or "").endswith("truncate_wal_file"))]
                R.check(v == eofs or v == torn and any(cj2 <= cj for t in tr for cj2 in t), "w-exit", rel, "reading stops at the end of the file", f"the reader is left on error variant {v}")
            else:
                R.check(end or named and cut or brk, "w-exit", rel, "reading stops only at the end of the file, at a tail that is cut off, or at a record that cannot be recovered", show_dnf(frozenset([cj]))[:260])
    for c, a, cd in own_sites(C, b, lambda c: (c.fid or "").endswith("truncate_wal_file")):
        p = a[2]
        R.check(idt(a[1]), "w-cut-file", c.where, "the file being read is cut", show(a[1])[:80])
        pos = [x for x in b.calls() if (x.fid or "").endswith("WalReader::pos")]
        from va.cond import precedes
        lp = C.loop_of(b, nxt.bb)
        ok = bool(pos) and all(x.bb in lp[1] and precedes(b, x.bb, nxt.bb) for x in pos) and has(p, lambda t: fid_is(t, "WalReader::pos") or fid_is(t, "Reader::pos"))
        R.check(ok, "w-cut-pos", c.where, "at the position the bad record was looked for", show(p)[:100])


def eof_variant(F):
    return discr(F, "TskvError", "Eof")


def record(R, F):
    fid = INN + "recover_record"
    b = R.body(fid + CO)
    rel = b.relfile
    me, wid, rec, aid, vs = (P(fid, i) for i in range(1, 6))
    NI = r"record_file::|VnodeWal::\w+$|mark_write_wal$|VnodeStorage::apply$|Version::last_seq$|parse_prost_bytes$"
    C = Cond(F, no_inline=NI)
    block = getf(rec, "block")
    idx = getf(getf(block, "log_id"), "index")
    ai = ("fld", "index", ("ok", aid))
    seq = lambda t: fid_is(t, "Version::last_seq") and mentions(t, getf(vs, "ts_family"))

    def rel_(t, v, p):
        """literal -> ('>seq'|'<=seq'|'>app'|'<=app')"""
        if t[0] == "bin" and t[1] in ("Lt", "Le"):
            truth = ("1" in v) == p
            x, y = t[2], t[3]
            if not truth:
                x, y = y, x
            strict = (t[1] == "Lt") == truth
            # x < y or x <= y
            for nm, is_ in (("seq", seq), ("app", lambda q: q == ai)):
                if is_(x) and y == idx and strict:
                    return ">" + nm
                if x == idx and is_(y) and not strict:
                    return "<=" + nm
                if is_(x) and y == idx and not strict:
                    return ">=" + nm
                if x == idx and is_(y) and strict:
                    return "<" + nm
        return None
    aps = [x[:3] for x in call_events(C, b, lambda c: (c.fid or "").endswith("VnodeStorage::apply"))]
    R.check(len(aps) == 1, "r-apply", rel, "entries are applied in one place", f"{len(aps)}")
    for c, a, cd in aps:
        for cj in cd:
            k = {rel_(*l) for l in cj} - {None}
            R.check(k == {">seq", "<=app"}, "r-when", c.where, "applied when above what was flushed and at most the last applied", f"{sorted(k)}: {show_dnf(frozenset([cj]))[:300]}")
            rest = [l for l in cj if rel_(*l) is None and not (l[0][0] == "disc" and (l[0][1] == aid or l[0][1] == getf(block, "payload") or has(l[0][1], lambda x: fid_is(x, "parse_prost_bytes"))))]
            R.check(not rest, "r-when-else", c.where, "and under no other condition", show_dnf(frozenset([frozenset(rest)]))[:200])
            pl = [l for l in cj if l[0][0] == "disc" and l[0][1] == getf(block, "payload")]
            R.check(all(l[2] and l[1] == {discr(F, "EntryPayload", "Normal") or "1"} for l in pl), "r-normal", c.where, "normal entries are applied", show_dnf(cd)[:200])
        R.check(a[0] == vs, "r-target", c.where, "applied to the vnode's storage", show(a[0])[:60])
        ctx = a[1]
        R.check(getf(ctx, "index") == idx, "r-index", c.where, "with the entry's own index", show(getf(ctx, "index"))[:80])
        R.check("APPLY_TYPE_WAL" in show(getf(ctx, "apply_type")) or konst(getf(ctx, "apply_type")) == wal_kind(F), "r-type", c.where, "as a replay from the WAL", show(getf(ctx, "apply_type"))[:60])
        pr = [x for x in walk(a[2]) if fid_is(x, "parse_prost_bytes")]
        R.check(a[2][0] == "ok" and a[2][1][0] == "fld" and a[2][1][1] == "command" and pr and has(pr[0][2][0], lambda x: x == block or x == getf(block, "payload")), "r-command", c.where, "the command decoded from the entry is applied", show(a[2])[:120])
    mk = call_events(C, b, lambda c: (c.fid or "").endswith("mark_write_wal"))
    R.check(len(mk) == 1, "r-mark", rel, "entries are indexed in one place", f"{len(mk)}")
    for c, a, cd, ch in mk:
        R.check(a[1] == block and a[2] == wid and a[3] == getf(rec, "pos"), "r-mark-args", c.where, "under the file and position read", f"{[show(x)[:60] for x in a[1:]]}")
    for c, a, cd in own_sites(C, b, lambda c: (c.fid or "").endswith("truncate_wal_file")):
        R.check(all(">app" in {rel_(*l) for l in cj} for cj in cd) and bool(cd), "r-cut", c.where, "the file is cut only above the last applied entry", show_dnf(cd)[:200])
        R.check(a[1] == wid and a[2] == getf(rec, "pos"), "r-cut-at", c.where, "at the entry read, in its file", f"{[show(x)[:60] for x in a[1:]]}")
        if cd:
            R.bad("drops-unapplied", c.where, "acknowledged entries above the last applied index are cut off the WAL on restart")
    R.floor(len(propagates(R, F, b, lambda c: (c.fid or "").endswith("VnodeStorage::apply"), "r-apply-error", "applying an entry")), 1, "apply calls")
    propagates(R, F, b, lambda c: (c.fid or "").endswith("mark_write_wal"), "r-mark-error", "indexing an entry")
    napplied = lambda cj: any(l[0][0] == "disc" and has(l[0], lambda x: fid_is(x, "VnodeStorage::apply")) and ("0" in l[1]) == l[2] for l in cj)
    for cd, t in C.ret_cases(b):
        if not cd or is_err(t):
            continue
        for cj in cd:
            marked = any(l[0][0] == "disc" and has(l[0], lambda x: fid_is(x, "mark_write_wal")) and ("0" in l[1]) == l[2] for l in cj) or has(t, lambda x: fid_is(x, "mark_write_wal"))
            above = ">app" in {rel_(*l) for l in cj}
            R.check(marked or above, "r-kept", rel, "an entry at or below the last applied index is indexed", show_dnf(frozenset([cj]))[:260])
            k = {rel_(*l) for l in cj} - {None}
            if marked and ">seq" in k:
                nodec = any(l[0][0] == "disc" and l[0][1] == getf(block, "payload") and not ("1" in l[1] and l[2] and len(l[1]) == 1) for l in cj) or any(l[0][0] == "disc" and l[0][1][0] == "fld" and l[0][1][1] == "command" and not (("1" in l[1]) == l[2]) for l in cj)
                R.check(napplied(cj) or nodec, "r-applied-first", rel, "Ok only when the entry to be applied was applied", show_dnf(frozenset([cj]))[:300])


def wal_kind(F):
    return 1


def outer(R, F):
    fid = ST + "RaftEntryStorage::recover"
    b = R.body(fid + CO)
    me, aid, vs = P(fid, 1), P(fid, 2), P(fid, 3)
    C = Cond(F, no_inline=r"RaftEntryStorageInner::\w+$|EntryStorage>::del_after$|VnodeWal::")
    rc = own_sites(C, b, lambda c: (c.fid or "").endswith("RaftEntryStorageInner::recover"))
    R.check(len(rc) == 1 and rc[0][2] == TRUE and rc[0][1][1:] == [aid, vs], "x-inner", b.relfile, "the files are recovered with the given id and storage")
    for c, a, cd in own_sites(C, b, lambda c: re.search(r"::(del_after|mark_delete_after)$", c.fid or "")):
        d = L.add(L.lin(a[1]), L.lin(("fld", "index", ("ok", aid))), -1)
        R.check(d == {(): 1}, "x-above", c.where, "only entries above the last applied one are dropped", show(a[1])[:80])
        R.bad("drops-unapplied-index", c.where, "acknowledged entries above the last applied index are dropped on restart")
    for c, a, cd in own_sites(C, b, lambda c: re.search(r"::(del_before|mark_delete_before|destroy|truncate\w*)$", c.fid or "")):
        R.bad("x-drop", c.where, f"recovery calls {c.name}")
    for cd, t in C.ret_cases(b):
        if cd and not is_err(t):
            R.check(forced(cd, lambda lt, lv, lp: lt[0] == "disc" and has(lt, lambda x: "RaftEntryStorageInner::recover" in str(x[1]) if x[0] in ("call", "agg") else False) and ("0" in lv) == lp), "x-ok", b.relfile, "Ok only when recovery succeeded", show_dnf(cd)[:160])
