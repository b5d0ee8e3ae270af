"""Deletes: every place of a vnode that may hold the rows is reached."""
import re
from va.cond import Cond, TRUE, konst, show_dnf
from va.terms import walk, show, alts
from va.lib import *
from va.okflow import OkFlow, TOP

PKGS = ["tskv"]
CRATES = ["tskv", "models", "protos"]
RULE = """(1) VnodeStorage::apply hands each kind of command to its own handler with the command's own operands, and answers OK only
when the handler succeeded (a write or column drop replayed from the log may fail). (2) drop_table, drop_table_columns and delete
hand the series found in the index (all of the table, or those of the predicate's tag domains) with the table's columns and the time
ranges first to the caches and then, as tombstones, to the version taken after that; every series of a dropped table then leaves the
index; only an unknown table or an empty list does nothing. (3) TseriesFamily passes each of these operations, unchanged, to its
mutable cache and to every immutable cache, MemCache to the series data of every series named, in the partition writes use,
and the series data drops a row exactly when its time is in the range, in every group. (4) add_tombstone covers every file whose
times overlap and that may contain a series, with every (series, column) pair, and syncs; add_range writes every pair that
the file's filter does not exclude to the record and to the cached exclusions. (5) Updating tags does nothing in a dry run and
otherwise changes the index and then every cache and every file of every level."""
V = "tskv::vnode_store::VnodeStorage::"
TF = "tskv::tsfamily::tseries_family::TseriesFamily::"
MC = "tskv::mem_cache::memcache::MemCache::"
SD = "tskv::mem_cache::series_data::SeriesData::"
SV = "tskv::tsfamily::super_version::SuperVersion::"
TS = "tskv::tsm::tombstone::TsmTombstone::"
CO = "::{closure#0}"
HAND = "write|drop_table|drop_table_column|drop_table_columns|update_tags_value|delete_from_table|delete"
NI = r"TseriesFamily::(delete_series|delete_series_by_time_ranges|drop_columns|update_tag_value|super_version)$|SuperVersion::add_tombstone$|TSIndex::\w+$|VnodeStorage::(%s)$|ResolvedPredicate::\w+$|get_table_schema$|TskvTableSchema::column_ids$|TimeRange::all$" % HAND


def P(f, n):
    return ("param", f, n)


def call(t, suffix):
    return t[0] == "call" and (t[1].endswith("::" + suffix) or t[1] == suffix)


def names(t, n):
    """the term comes from a call of (or the future made by) n"""
    return has(t, lambda x: x[0] == "call" and re.search(r"::(%s)$" % n, x[1]) or x[0] == "agg" and re.search(r"::(%s)(::\{closure#\d+\})*$" % n, x[1]))


def core(R, fid):
    b = R.body(fid)
    n = R.F.get(b.id + CO)
    return n if n is not None and n.co else b


def layers(t):
    k = 0
    while t[0] in ("ok", "await", "poll"):
        k += t[0] == "ok"
        t = t[1]
    return k


def well(l, n):
    """the literal says that a step named n succeeded (or found something)"""
    t, vs, p = l
    if t[0] != "disc" or not names(t[1], n):
        return False
    if names(t[1], "get_table_schema") and layers(t[1]):
        return True             # whether an option or an error says that there is no such table
    return ("0" in vs) == p if not layers(t[1]) else ("1" in vs) == p


WALK = re.compile(r"::(iter|iter_mut|into_iter|rev|map|flat_map|flatten|cloned|copied|enumerate|zip|chain|values|values_mut|into_values|keys|next|time_ranges|get_ref_rows|get_rows|collect|as_slice|deref|to_vec|clone|levels_info|columns|filter|column_files_by_sid_and_time|get_series_id_list|get_series_ids_by_domains|segments|inner|by_ref|once)$")


def walked(x, srcs):
    """x is one of srcs, or an iteration over it or over an element of it"""
    if x in srcs:
        return True
    if x[0] in ("ok", "await", "poll"):
        return walked(x[1], srcs)
    if x[0] == "fld":
        return walked(x[2], srcs)
    if x[0] == "call" and x[2] and WALK.search(x[1]):
        return walked(x[2][0], srcs) or any(walked(y, srcs) for y in x[2][1:2] if x[1].endswith(("zip", "chain")))
    return False


def elem(l, *srcs):
    """the loop over one of srcs has an element"""
    t, vs, p = l
    return t[0] == "disc" and ("1" in vs) == p and walked(t[1], srcs)


def each(t, src):
    """any element of src, not a particular one"""
    return each_of(t, src) and not has(t, lambda x: x[0] == "call" and re.search(r"::(first|last|get|next_back|min|max|nth|pop|min_by_key|max_by_key|find)$", x[1]))


def some_left(l, *srcs):
    """one of srcs is not empty"""
    t, vs, p = l
    if t[0] == "call" and re.search(r"::is_empty$", t[1]) and any(mentions(t[2][0], s) for s in srcs):
        return ("1" in vs) != p
    if t[0] == "bin" and has(t, lambda x: x[0] == "call" and x[1].endswith("::len") and any(mentions(x[2][0], s) for s in srcs)) and 0 in (konst(t[2]), konst(t[3])):
        return (("1" in vs) != p) == (t[1] == "Eq")
    return False


def free(R, key, where, cd, ok, what):
    bad = [l for l in lits(cd) if not ok(l)]
    R.check(bool(cd) and not bad, key, where, what, " & ".join(f"{show(t)[:120]} {'in' if p else 'not in'} {sorted(vs)}" for t, vs, p in bad[:3]))


def run(R):
    F = R.F
    dispatch(R, F)
    vnode(R, F)
    family(R, F)
    caches(R, F)
    series(R, F)
    files(R, F)
    tombstones(R, F)
    tags(R, F)


def dispatch(R, F):
    C = Cond(F, no_inline=NI)
    fid = V + "apply"
    b = core(R, fid)
    me, ctx, cmd = P(fid, 1), P(fid, 2), P(fid, 3)
    en = next((k for k, it in F.items.items() if it["k"] == "enum" and k.endswith("raft_write_command::Command")), None)
    T = {"WriteData": ("write", None), "DropTable": ("drop_table", ["table"]), "DropColumn": ("drop_table_column", ["table", "column"]),
         "UpdateTags": ("update_tags_value", []), "DeleteFromTable": ("delete_from_table", [])}
    evs = own_sites(C, b, lambda c: bool(re.search(r"VnodeStorage::(%s)$" % HAND, c.fid or c.name)))
    R.floor(len(evs), 5, "handlers of commands")
    for v, (h, ops) in T.items():
        d = discr(F, "raft_write_command::Command", v)
        es = [e for e in evs if (e[0].fid or e[0].name).endswith("::" + h)]
        R.check(len(es) == 1, f"a-{v}:once", b.relfile, f"{v} is handled by {h} once", str(len(es)))
        for c, a, cd in es:
            R.check(a[0] == me, f"a-{v}:self", c.where, "of this vnode", show(a[0])[:80])
            free(R, f"a-{v}:when", c.where, cd, lambda l: l[0] == ("disc", cmd) and l[2] and l[1] == {d}, f"{h} is run for every {v}")
            body = lambda t: has(t, lambda x: x[0] == "fld" and str(x[1]).split(".")[0] == v and x[2] == cmd)
            want = [x for x in a[1:] if body(x)]
            if ops:
                R.check([t[1] for t in want if t[0] == "fld"] == ops, f"a-{v}:ops", c.where, f"with the command's {', '.join(ops)}", str([show(x)[-60:] for x in a[1:]]))
            elif ops is None:
                R.check([t[1] for t in a[1:] if t[0] == "fld"][:1] in (["data"], [ctx]) and any(t[0] == "fld" and t[1] == "data" for t in want) and any(has(t, lambda x: x[0] == "fld" and x[1] == "precision") for t in want), f"a-{v}:ops", c.where, "with the command's data and precision", str([show(x)[-60:] for x in a[1:]]))
            else:
                R.check(len(want) == 1, f"a-{v}:ops", c.where, "with the command", str([show(x)[-60:] for x in a[1:]]))
    # answers
    n = 0
    for cd, t in C.full_cases(b):
        if not cd or is_err(t):
            continue
        n += 1
        for cj in cd:
            v = [v for v in T if any(l[0] == ("disc", cmd) and l[2] and l[1] == {discr(F, "raft_write_command::Command", v)} for l in cj)]
            R.check(len(v) == 1, "a-ok:which", b.relfile, "OK is answered per kind of command", str(v))
            for k in v:
                h = T[k][0]
                okd = any(well(l, h) for l in cj)
                wal = k in ("WriteData", "DropColumn") and any(l[0][0] == "bin" and has(l[0], lambda x: x == ("fld", "apply_type", ctx)) and ((l[0][1] == "Eq") == (("1" in l[1]) == l[2])) for l in cj)
                R.check(okd or wal, f"a-ok:{k}", b.relfile, f"OK is answered for {k} only when {h} succeeded" + (", or on replay" if k in ("WriteData", "DropColumn") else ""), show_dnf(frozenset([cj]))[:200])
    R.floor(n, 1, "OK answers of apply")


def all_time(t):
    return call(t, "TimeRange::all") or t[0] == "agg" and len(t[2]) == 2 and "MIN" in str(t[2][0]) and "MAX" in str(t[2][1]) or \
        t[0] == "call" and t[1].endswith("TimeRange::new") and "MIN" in str(t[2][0]) and "MAX" in str(t[2][1])


def column_ids(C, t, schema):
    """the ids of all columns of the schema"""
    if call(t, "TskvTableSchema::column_ids"):
        return schema(t[2][0])
    if t[0] == "call" and t[1].endswith("::map") and len(t[2]) == 2 and closure_id(t[2][1]):
        src, x = t[2][0], C.F.get(closure_id(t[2][1]))
        r = [v for cd, v in C.ret_cases(x)] if x else []
        return has(src, lambda y: y[0] == "fld" and y[1] == "columns" and schema(y[2])) and bool(r) and all(v[0] == "fld" and v[1] == "id" and (v[2] == P(x.id, 2) or each_of(v[2], src)) for v in r) and \
            not has(t, lambda y: y[0] == "call" and re.search(r"::(filter|skip|take|filter_map|take_while|skip_while|step_by)$", y[1]))
    return False


def step(R, C, b, pat, key, what):
    s = C.sites(b, lambda c: bool(re.search(pat, c.fid or c.name)))
    R.check(len(s) == 1, f"{key}:one", b.relfile, what, f"{len(s)} places")
    return s


def after(R, C, b, x, y, key, what):
    """x happens before y, and y never without x"""
    ex = call_events(C, b, lambda c: bool(re.search(x, c.fid or c.name)))
    ey = call_events(C, b, lambda c: bool(re.search(y, c.fid or c.name)))
    ok = bool(ex) and bool(ey) and all(any(ev_before(C.F, e[3], f[3]) for e in ex) for f in ey)
    R.check(ok, key, b.relfile, what)


def vnode(R, F):
    C = Cond(F, no_inline=NI)
    WELL = r"get_table_schema|get_series_id_list|get_series_ids_by_domains|add_tombstone|deserialize|del_series_info"
    for nm, memop in (("drop_table", "delete_series"), ("drop_table_columns", "drop_columns"), ("delete", "delete_series_by_time_ranges")):
        fid = V + nm
        b = core(R, fid)
        me, table = P(fid, 1), P(fid, 2)
        k = {"drop_table": "t", "drop_table_columns": "c", "delete": "d"}[nm]
        schema = lambda t: names(t, "get_table_schema") and mentions(t, table)
        mem = step(R, C, b, r"TseriesFamily::%s$" % memop, f"{k}-mem", f"{nm} reaches the caches")
        tomb = step(R, C, b, r"SuperVersion::add_tombstone$", f"{k}-tomb", f"{nm} reaches the files")
        if not mem or not tomb:
            continue
        (mc, ma, mcd), (tc, ta, tcd) = mem[0], tomb[0]
        ser = ma[1]
        if nm == "delete":
            R.check(ser == P(fid, 3) and ta[1] == P(fid, 3), f"{k}-series", mc.where, "the series given", f"{show(ser)[:60]} / {show(ta[1])[:60]}")
            R.check(ma[2] == P(fid, 4), f"{k}-range", mc.where, "with the time ranges given", show(ma[2])[:60])
            R.check(ta[3][0] == "ok" and mentions(ta[3], P(fid, 4)) or ta[3][0] == "ok" and has(ta[3], lambda x: x == ("fld", "inner", P(fid, 4))), f"{k}-trange", tc.where, "each time range is entombed", show(ta[3])[:100])
            R.check(column_ids(C, ta[2], schema), f"{k}-cols", tc.where, "for all columns of the table", show(ta[2])[:100])
        else:
            lst = [x for x in walk(ser) if call(x, "get_series_id_list")]
            R.check(bool(lst) and okof_(ser) and all(x[2][1] == table and (x[2][2] == ("agg", "[]", (), ()) or x[2][2][0] == "agg" and not x[2][2][2]) for x in lst), f"{k}-series", mc.where, "all series of the table", show(ser)[:120])
            R.check(ta[1] == ser, f"{k}-same", tc.where, "the same series in caches and files", f"{show(ta[1])[:80]}")
            R.check(all_time(ta[3]), f"{k}-trange", tc.where, "for all times", show(ta[3])[:80])
            if nm == "drop_table":
                R.check(all_time(ma[2]), f"{k}-range", mc.where, "for all times", show(ma[2])[:80])
                R.check(column_ids(C, ta[2], schema), f"{k}-cols", tc.where, "for all columns of the table", show(ta[2])[:100])
            else:
                R.check(ma[2] == ta[2], f"{k}-range", mc.where, "the same columns in caches and files", f"{show(ma[2])[:60]} / {show(ta[2])[:60]}")
                listed(R, C, b, fid, ta[2], schema)
        R.check(mentions(ma[0], ("fld", "ts_family", me)) and mentions(ta[0], ("fld", "ts_family", me)) and names(ta[0], "super_version"), f"{k}-where", mc.where, "of this vnode's time series family", f"{show(ma[0])[:60]} / {show(ta[0])[:60]}")
        srcs = [ser, ta[2]] + ([P(fid, 3), P(fid, 4), ("fld", "inner", P(fid, 4))] if nm == "delete" else [P(fid, 3)] if nm == "drop_table_columns" else [])
        ok = lambda l: well(l, WELL) or some_left(l, *srcs) or nm != "drop_table" and elem(l, *srcs) or has(l[0], lambda x: x[0] == "k" and "level" in str(x).lower())
        free(R, f"{k}-mem:when", mc.where, mcd, ok, f"{nm} always reaches the caches")
        free(R, f"{k}-tomb:when", tc.where, tcd, ok, f"{nm} always reaches the files")
        after(R, C, b, r"TseriesFamily::%s$" % memop, r"SuperVersion::add_tombstone$", f"{k}-order", "caches before files: rows flushed in between are in the files then")
        after(R, C, b, r"TseriesFamily::%s$" % memop, r"TseriesFamily::super_version$", f"{k}-version", "the version is the one after the caches were cleared")
        # OK only when done
        for cd, t in C.full_cases(b):
            if not cd or is_err(t):
                continue
            for cj in cd:
                done = nm == "delete" or any(well(l, "add_tombstone") for l in cj)
                nothing = any(l[0][0] == "disc" and names(l[0][1], "get_table_schema") and layers(l[0][1]) and ("1" in l[1]) != l[2] for l in cj) or \
                    any(some_left((l[0], l[1], not l[2]), *srcs) for l in cj)
                R.check(done or nothing, f"{k}-ok", b.relfile, f"{nm} is OK only when the tombstones were written, or there is nothing to delete", show_dnf(frozenset([cj]))[:240])
        for x in F.family(b.id) if b.co else [b]:
            propagates(R, F, x, lambda c: bool(re.search(r"SuperVersion::add_tombstone$|TSIndex::(get_series_id_list|del_series_info)$", c.fid or c.name)), f"{k}-err", f"a step of {nm}")
        if nm == "delete":
            every_item(R, F, b.id, lambda t: mentions(t, P(fid, 4)) or has(t, lambda x: x == ("fld", "inner", P(fid, 4))), lambda c: {"tomb"} if re.search(r"SuperVersion::add_tombstone$", c.fid or c.name) else (), {"tomb"}, f"{k}-each", "every time range")
        if nm == "drop_table":
            s = step(R, C, b, r"TSIndex::del_series_info$", "t-index", "a dropped table leaves the index")
            for c, a, cd in s:
                R.check(each(a[1], ser), "t-index:which", c.where, "every one of its series", show(a[1])[:80])
                free(R, "t-index:when", c.where, cd, lambda l: ok(l) or elem(l, ser), "always")
                R.check(mentions(a[0], ("fld", "ts_index", me)), "t-index:where", c.where, "of this vnode's index", show(a[0])[:60])
            every_item(R, F, b.id, lambda t: names(t, "get_series_id_list"), lambda c: {"del"} if re.search(r"TSIndex::del_series_info$", c.fid or c.name) else (), {"del"}, "t-index:each", "every series leaves the index")
    # a column by name
    fid = V + "drop_table_column"
    b = core(R, fid)
    for c, a, cd in step(R, C, b, r"VnodeStorage::drop_table_columns$", "n-drop", "a column is dropped by its id"):
        x = a[2]
        one = x[2][0] if x[0] == "agg" and len(x[2]) == 1 else x
        R.check(a[1] == P(fid, 2) and one[0] == "fld" and one[1] == "id" and mentions(one, P(fid, 3)) and names(one, "get_table_schema") and mentions(one, P(fid, 2)), "n-id", c.where, "the id of the column of that name in the table", show(x)[:120])
        free(R, "n-when", c.where, cd, lambda l: l[0][0] == "disc", "always")
    propagates(R, F, b, lambda c: bool(re.search(r"VnodeStorage::drop_table_columns$", c.fid or c.name)), "n-err", "dropping the column")
    # rows by a predicate
    fid = V + "delete_from_table"
    b = core(R, fid)
    cmd = P(fid, 2)
    pr = lambda t: names(t, "deserialize") and mentions(t, ("fld", "predicate", cmd))
    for c, a, cd in step(R, C, b, r"VnodeStorage::delete$", "p-delete", "the rows are deleted"):
        sx = [x for x in walk(a[2]) if call(x, "get_series_ids_by_domains")]
        R.check(a[1] == ("fld", "table", cmd), "p-table", c.where, "of the table named", show(a[1])[:60])
        R.check(len(set(sx)) == 1 and okof_(a[2]) and names(sx[0][2][2], "tags_filter") and pr(sx[0][2][2]) and names(sx[0][2][1], "get_table_schema") and mentions(sx[0][2][1], ("fld", "table", cmd)), "p-series", c.where, "the series the predicate's tag domains select", show(a[2])[:140])
        R.check(call(a[3], "time_ranges") and pr(a[3]), "p-range", c.where, "in the predicate's time ranges", show(a[3])[:80])
        free(R, "p-when", c.where, cd, lambda l: well(l, WELL) or some_left(l, a[2], a[3]), "always")
    propagates(R, F, b, lambda c: bool(re.search(r"VnodeStorage::delete$|get_series_ids_by_domains$", c.fid or c.name)), "p-err", "the delete")


def okof_(t):
    """nothing but the success of a call: no filtering or slicing around it"""
    while t[0] in ("ok", "await", "poll"):
        t = t[1]
    return t[0] == "call" and not re.search(r"::(filter|skip|take|index|split_at|get)$", t[1])


def listed(R, C, b, fid, lst, schema):
    """the columns given, as far as the table has them"""
    cols = P(fid, 3)
    if lst == cols:
        return
    ps = [e for e in own_sites(C, b, lambda c: bool(re.search(r"Vec(<.*>)?::push$", c.fid or c.name))) if e[1][0] == lst]
    if not ps:
        R.check(has(lst, lambda x: x == cols) and (not has(lst, lambda x: x[0] == "call" and re.search(r"::(skip|take|step_by|take_while|skip_while)$", x[1]))), "c-list", b.relfile, "the columns given", show(lst)[:120])
        for y in walk(lst):
            if y[0] == "call" and y[1].endswith("::filter") and closure_id(y[2][1]):
                d = closure_true(C, closure_id(y[2][1]))
                R.check(all(l[0][0] == "call" and re.search(r"contains(_key)?$|::any$", l[0][1]) and ("1" in l[1]) == l[2] for l in lits(d)), "c-list", b.relfile, "unless the table has no such column", show_dnf(d)[:120])
        return
    for c, a, cd in ps:
        R.check(each_of(a[1], cols), "c-list", c.where, "each of the columns given", show(a[1])[:80])
        free(R, "c-list:when", c.where, cd, lambda l: elem(l, cols) or well(l, r"get_table_schema|get_series_id_list") or
             l[0][0] == "call" and re.search(r"contains(_key)?$|::any$", l[0][1]) and ("1" in l[1]) == l[2], "unless the table has no such column")


def family(R, F):
    C = Cond(F, no_inline=r"MemCache::\w+$|ColumnFile::\w+$|Version::\w+$")
    for nm, ops in (("drop_columns", 2), ("delete_series", 2), ("delete_series_by_time_ranges", 2), ("update_tag_value", 1)):
        fid = TF + nm
        b = core(R, fid)
        me = P(fid, 1)
        mut, imm = ("fld", "mut_cache", me), ("fld", "immut_cache", me)
        s = own_sites(C, b, lambda c: bool(re.search(r"MemCache::%s$" % nm, c.fid or c.name)))
        if not s:
            s = C.sites(b, lambda c: bool(re.search(r"MemCache::%s$" % nm, c.fid or c.name)))
        got = set()
        for c, a, cd in s:
            both = has(a[0], lambda x: x == mut) and has(a[0], lambda x: x == imm)
            w = "both" if both else "mut" if has(a[0], lambda x: x == mut) else "imm" if has(a[0], lambda x: x == imm) else None
            R.check(w is not None, f"f-{nm}:cache", c.where, "a cache of this family", show(a[0])[:80])
            got |= {"mut", "imm"} if w == "both" else {w}
            R.check(tuple(a[1:]) == tuple(P(fid, i + 2) for i in range(ops)), f"f-{nm}:ops", c.where, "with the operands given", str([show(x)[:40] for x in a[1:]]))
            free(R, f"f-{nm}:when", c.where, cd, lambda l: elem(l, imm, mut) and w != "mut" or some_left(l, *[P(fid, i + 2) for i in range(ops)]), f"{nm} reaches the cache whatever it holds")
        R.check(got == {"mut", "imm"}, f"f-{nm}:all", b.relfile, f"{nm} reaches the mutable and the immutable caches", str(got))
        every_item(R, F, b.id, lambda t: mentions(t, imm), lambda c: {"x"} if re.search(r"MemCache::%s$" % nm, c.fid or c.name) else (), {"x"}, f"f-{nm}:each", "every immutable cache")


PART = re.compile(r"\bRem\b|rem")


def caches(R, F):
    C = Cond(F, no_inline=r"SeriesData::\w+$")
    # the partition writes use
    rd = R.body(MC + "read_series_data_by_id")
    writes = [x for x in (F.get(MC + "write_group"), F.get(MC + "write_group" + CO)) if x is not None]
    W = set()
    for x in writes:
        for c in x.calls():
            for a in C.T.args(c):
                for t in walk(a):
                    if t[0] == "idx" and t[1] == ("fld", "partions", P(MC + "write_group", 1)):
                        W.add(part(t[2], P(MC + "write_group", 1), P(MC + "write_group", 2)))
    R.check(len(W) == 1, "m-part", rd.relfile, "writes use one partition of the series", str(W)[:160])
    for nm, sd, ops in (("drop_columns", "drop_column", 1), ("delete_series", "delete_series", 1), ("delete_series_by_time_ranges", "delete_by_time_ranges", 1), ("update_tag_value", "update_tag_value", 1)):
        fid = MC + nm
        b = R.body(fid)
        me, sids, op = P(fid, 1), P(fid, 2), P(fid, 3)
        s = C.sites(b, lambda c: bool(re.search(r"SeriesData::%s$" % sd, c.fid or c.name)))
        R.check(len(s) == 1, f"m-{nm}:one", b.relfile, f"{nm} reaches the series data", str(len(s)))
        for c, a, cd in s:
            a = [through(C, a[0])] + list(a[1:])
            ix = [t for t in walk(a[0]) if t[0] == "idx" and t[1] == ("fld", "partions", me)]
            gets = [t for t in walk(a[0]) if t[0] == "call" and re.search(r"HashMap(<.*>)?::(get|get_mut)$", t[1])]
            ok = bool(ix) and bool(gets) and all(el(g[2][1], sids) for g in gets)
            R.check(ok, f"m-{nm}:which", c.where, "of the series named", show(a[0])[:140])
            R.check({part(t[2], me, sids) for t in ix} == W, f"m-{nm}:part", c.where, "in the partition writes use", f"{ {part(t[2], me, sids) for t in ix} } / {W}"[:200])
            if nm == "drop_columns":
                R.check(each(a[1], op), f"m-{nm}:op", c.where, "each column", show(a[1])[:80])
            elif nm == "update_tag_value":
                R.check(mentions(a[1], sids), f"m-{nm}:op", c.where, "with the key given for it", show(a[1])[:80])
            else:
                R.check(a[1] == op, f"m-{nm}:op", c.where, "with the range given", show(a[1])[:80])
            free(R, f"m-{nm}:when", c.where, cd, lambda l: elem(l, sids) or l[0][0] == "disc" and ("1" in l[1]) == l[2] and has(l[0], lambda x: call(x, "Iterator::filter_map") and walked(x[2][0], [sids])) or nm == "drop_columns" and elem(l, op) or some_left(l, sids, op) or l[0][0] == "disc" and l[0][1] in gets or l[0][0] == "disc" and ("1" in l[1]) == l[2] and any(mentions(l[0][1], g) for g in gets) and layers(l[0][1]) == 0,
                 "whenever the cache holds the series")
        for x in [y for y in b.calls() if (y.fid or "").endswith("Iterator::next")]:
            t = C.T.arg(x, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(filter|skip|take|step_by|take_while|skip_while)$", y[1])), f"m-{nm}:whole", x.where, "all of them", show(t)[:80])
        only_exhausted(R, C, b, f"m-{nm}:stop")


def through(C, t):
    """the element of it.filter_map(|x| f(x)) is the one inside f(element of it)"""
    def sub(x, frm, to):
        return to if x == frm else tuple(sub(y, frm, to) if isinstance(y, tuple) else y for y in x)
    for x in walk(t):
        if x[0] == "ok" and call(x[1], "Iterator::filter_map") and closure_id(x[1][2][1]):
            g = C.F.get(closure_id(x[1][2][1]))
            rs = [v for cd, v in C.ret_cases(g) if cd] if g else []
            if len(rs) == 1:
                return sub(t, x, ("ok", sub(rs[0], P(g.id, 2), ("ok", x[1][2][0]))))
    return t


def el(t, src):
    return each_of(t, src) or t[0] == "fld" and str(t[1]) == "0" and each_of(t[2], src)


def part(t, me, sid):
    """partition number: sid % part_count with the operands made neutral"""
    def go(x):
        if x == me:
            return ("me",)
        if x == sid or each_of(x, sid) or x[0] == "fld" and str(x[1]) == "0" and each_of(x[2], sid):
            return ("sid",)
        if not isinstance(x, tuple):
            return x
        if x and x[0] == "cast":
            return go(x[2])
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    return go(canon(t))


def only_exhausted(R, C, b, key):
    """every loop over an iterator ends with the iterator, or with an error"""
    from va.core import place
    for c in [y for y in b.calls() if re.search(r"iterator::Iterator::next$", y.fid or "")]:
        lp = C.loop_of(b, c.bb)
        if lp is None:
            R.bad(key, c.where, "one element is taken, not each")
            continue
        for u, d, cd in C.loop_exits(b, c.bb):
            t = b.blocks[u]["t"]
            if t[0] != "switch":
                continue
            v = C.T.op(b, t[1], (u, len(b.blocks[u]["s"])))
            end = any(s[0] == "=" and s[2][0] == "disc" and is_next(b, place(s[2][1])[0]) for s in b.blocks[u]["s"])
            err = v[0] == "disc" and not layers(v[1]) and dict((str(x), y) for x, y in t[2]).get("1", t[3]) == d
            R.check(end or err, key, c.where, "the walk ends with its last element", f"it can end at {show(v)[:100]}")


def is_next(b, l):
    ds = b.defs().get(l, [])
    if not ds:
        return False
    for bb, i, pr, kind, v in ds:
        if kind == "=" and v[0] in ("use",) and v[1][0] in ("c", "m"):
            from va.core import place
            if not is_next(b, place(v[1][1])[0]):
                return False
        elif kind == "=":
            return False
        else:
            x = b.call_at(bb)
            if x is None or not re.search(r"iterator::Iterator::next$", x.fid or ""):
                return False
    return True


def series(R, F):
    C = Cond(F, no_inline=r"TimeRange::overlaps$|SeriesData::delete_series$")
    # rows by range
    for nm in ("delete_series", "delete_by_time_ranges"):
        fid = SD + nm
        b = R.body(fid)
        me, rg = P(fid, 1), P(fid, 2)
        groups = ("fld", "groups", me)
        seen = 0
        dl = C.sites(b, lambda c: bool(re.search(r"SeriesData::delete_series$", c.fid or c.name))) if nm != "delete_series" else []
        if dl:
            for c, a, cd in dl:
                R.check(a[0] == me and (each(a[1], rg) or each(a[1], ("fld", "inner", rg))), f"s-{nm}:each", c.where, "each range is deleted", f"{show(a[0])[:40]} {show(a[1])[:80]}")
                free(R, f"s-{nm}:when", c.where, cd, lambda l: elem(l, rg, ("fld", "inner", rg)) or touches(l, me), "unless the series has no row in the range")
            only_exhausted(R, C, b, f"s-{nm}:stop")
            continue
        for x in F.family(fid):
            if x.id == fid:
                continue
            if x.lty(0) != "bool":
                continue
            rows = [l for cd, t in C.ret_cases(x) for l in lits(cd)]
            keep = closure_true(C, x.id)
            drop = frozenset()
            for cd, t in C.ret_cases(x):
                drop = C.disj(drop, C.conj(cd, C.norm(t, ["1"], False)))
            if not any(ts(l) for l in list(lits(keep)) + list(lits(drop))):
                continue
            seen += 1
            for cj in keep:
                R.check(any(outside(l) for l in cj), f"s-{nm}:keep", x.relfile, "a row is kept only when it is outside the range", show_dnf(frozenset([cj]))[:160])
            for cj in drop:
                lo = any(inside(l, "min_ts") for l in cj)
                hi = any(inside(l, "max_ts") for l in cj)
                R.check(lo and hi, f"s-{nm}:drop", x.relfile, "a row is dropped only when it is inside the range", show_dnf(frozenset([cj]))[:160])
        direct = [e for e in C.sites(b, lambda c: bool(re.search(r"OrderedRowsData::insert$", c.fid or c.name))) if any(ts(l) for l in lits(e[2]))]
        for c, a, cd in direct:
            seen += 1
            for cj in cd:
                R.check(any(outside(l) for l in cj), f"s-{nm}:keep", c.where, "a row is kept only when it is outside the range", show_dnf(frozenset([cj]))[:160])
        R.check(seen >= 1, f"s-{nm}:test", b.relfile, "rows are kept or dropped by their time")
        # every group, unless the series has no row in the range
        ops = C.sites(b, lambda c: bool(re.search(r"OrderedRowsData::(retain|insert)$", c.fid or c.name)))
        R.check(bool(ops), f"s-{nm}:op", b.relfile, "the groups' rows are thinned out")
        for c, a, cd in ops:
            free(R, f"s-{nm}:when", c.where, cd, lambda l: elem(l, groups, rg, ("fld", "inner", rg)) or touches(l, me) or ts(l), "in every group, unless the series has no row in the range")
        ps = [x for x in b.calls() if (x.fid or "").endswith("Iterator::next") or (x.fid or "").endswith("Iterator::for_each")]
        R.check(any(mentions(C.T.arg(x, 0), groups) for x in ps), f"s-{nm}:groups", b.relfile, "the groups are walked")
        for x in ps:
            t = C.T.arg(x, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(skip|take|step_by|take_while|skip_while)$", y[1])), f"s-{nm}:whole", x.where, "all of them", show(t)[:80])
        only_exhausted(R, C, b, f"s-{nm}:stop")
        if nm == "delete_by_time_ranges":
            w = [x for x in C.writes(b, "rows") ]
            for p, a, cd in w:
                free(R, f"s-{nm}:store", b.relfile, cd, lambda l: elem(l, groups, rg, ("fld", "inner", rg)) or touches(l, me), "the rows that are left replace the group's")
            rt = [e for e in ops if re.search(r"retain$", e[0].fid or e[0].name)]
            R.check(bool(w) or bool(rt), f"s-{nm}:store", b.relfile, "the rows that are left replace the group's")
    # a column
    fid = SD + "drop_column"
    b = R.body(fid)
    me, col = P(fid, 1), P(fid, 2)
    groups = ("fld", "groups", me)
    K = Cond(F, no_inline=r"TskvTableSchema::(drop_column|column_name|fields_id)$")
    found = lambda l: l[0][0] == "disc" and ("1" in l[1]) == l[2] and mentions(l[0][1], col)
    rm = K.sites(b, lambda c: bool(re.search(r"Vec(<.*>)?::(remove|swap_remove)$", c.fid or c.name)))
    rm = [e for e in rm if has(e[1][0], lambda x: x[0] == "fld" and x[1] in ("fields", "rows"))]
    R.check(len(rm) == 1, "o-remove", b.relfile, "the column's value leaves each row", str(len(rm)))
    for c, a, cd in rm:
        R.check((c.fid or c.name).endswith("::remove"), "o-remove:how", c.where, "the values behind it keep their order")
        R.check(has(a[1], lambda x: names(x, "fields_id") or x[0] == "fld" and x[1] == "fields_ids") and mentions(a[1], col), "o-remove:which", c.where, "at the column's place in the group's schema", show(a[1])[:100])
        free(R, "o-remove:when", c.where, cd, lambda l: found(l) or elem(l, groups) or in_len(l, a[1]), "in every row that has one")
    ins = K.sites(b, lambda c: bool(re.search(r"OrderedRowsData::insert$", c.fid or c.name)))
    R.check(len(ins) == 1, "o-rows", b.relfile, "the rows stay", str(len(ins)))
    for c, a, cd in ins:
        free(R, "o-rows:when", c.where, cd, lambda l: found(l) or elem(l, groups), "every row stays")
    dc = K.sites(b, lambda c: bool(re.search(r"TskvTableSchema::drop_column$", c.fid or c.name)))
    R.check(len(dc) == 1, "o-schema", b.relfile, "the column leaves the group's schema", str(len(dc)))
    for c, a, cd in dc:
        R.check(mentions(a[1], col) and (names(a[1], "column_name") or has(a[1], lambda x: x[0] == "fld" and x[1] == "name")), "o-schema:which", c.where, "the column of that id", show(a[1])[:80])
        free(R, "o-schema:when", c.where, cd, lambda l: found(l) or elem(l, groups), "in every group that has it")
    w = K.writes(b, "schema")
    R.check(any(has(a[0], lambda x: True) and mentions(a[1], groups) or mentions(a[1], ("ok", groups)) for p, a, cd in w) or any(re.search(r"Arc(<.*>)?::make_mut$", x.fid or x.name) and mentions(K.T.arg(x, 0), groups) for x in b.calls()), "o-schema:store", b.relfile, "the group gets the schema without it")
    for p, a, cd in w:
        free(R, "o-schema:stored", b.relfile, cd, lambda l: found(l) or elem(l, groups), "whatever columns are left")
    only_exhausted(R, C, b, "o-stop")
    # new key
    fid = SD + "update_tag_value"
    b = R.body(fid)
    w = C.writes(b, "series_key")
    R.check(len(w) == 1 and w[0][1][0] == P(fid, 2) and w[0][1][1] == P(fid, 1) and w[0][2] == TRUE, "k-key", b.relfile, "the series data takes the new key", str([show(x[1][0])[:60] for x in w]))


def in_len(l, i):
    """i < len(..)"""
    t, vs, p = l
    ln = lambda x: x[0] == "call" and x[1].endswith("::len")
    return t[0] == "bin" and ("1" in vs) == p and (t[1] == "Lt" and t[2] == i and ln(t[3]) or t[1] == "Gt" and t[3] == i and ln(t[2]))


def ts(l):
    return l[0][0] == "bin" and has(l[0], lambda x: x[0] == "fld" and x[1] == "ts") and has(l[0], lambda x: x[0] == "fld" and x[1] in ("min_ts", "max_ts"))


def outside(l):
    """row.ts < range.min_ts or range.max_ts < row.ts"""
    t, vs, p = l
    if not ts(l) or t[1] not in ("Lt", "Gt"):
        return False
    x, y = (t[2], t[3]) if t[1] == "Lt" else (t[3], t[2])
    tr = ("1" in vs) == p
    isf = lambda z, n: z[0] == "fld" and z[1] == n
    return tr and (isf(x, "ts") and isf(y, "min_ts") or isf(x, "max_ts") and isf(y, "ts"))


def inside(l, n):
    """not (row.ts < min_ts) / not (max_ts < row.ts)"""
    t, vs, p = l
    if not ts(l) or not has(t, lambda x: x[0] == "fld" and x[1] == n) or t[1] not in ("Lt", "Gt"):
        return False
    return outside((t, vs, not p))


def touches(l, me):
    """the range and the series' own range have a time in common: not (range.max < own.min), not (own.max < range.min)"""
    t, vs, p = l
    own = ("fld", "range", me)
    if t[0] == "call" and re.search(r"TimeRange::overlaps$", t[1]) and any(mentions(x, own) for x in t[2]):
        return ("1" in vs) == p
    if t[0] != "bin" or t[1] not in ("Lt", "Gt"):
        return False
    x, y = (t[2], t[3]) if t[1] == "Lt" else (t[3], t[2])
    f = ("1" in vs) != p
    isf = lambda z, n: z[0] == "fld" and z[1] == n
    if not (isf(x, "max_ts") and isf(y, "min_ts")):
        return False
    return f and ((x[2] == own) != (y[2] == own))


def files(R, F):
    fid = SV + "column_files_by_sid_and_time"
    C = Cond(F, no_inline=r"TimeRanges::overlaps$|ColumnFile::\w+$|Version::levels_info$")
    b = core(R, fid)
    me, sids, rg = P(fid, 1), P(fid, 2), P(fid, 3)
    lv = lambda t: names(t, "levels_info") and mentions(t, ("fld", "version", me)) or has(t, lambda x: x[0] == "fld" and x[1] == "levels_info")
    s = C.sites(b, lambda c: bool(re.search(r"Vec(<.*>)?::push$", c.fid or c.name)))
    R.check(len(s) == 1, "g-files", b.relfile, "the files are collected", str(len(s)))

    def want(l):
        t, vs, p = l
        if t[0] == "call" and t[1].endswith("TimeRanges::overlaps"):
            return ("1" in vs) == p and t[2][0] == rg and (has(t[2][1], lambda x: call(x, "ColumnFile::time_range") or x[0] == "fld" and x[1] == "time_range") and lv(t[2][1]))
        if names(t, "contains_any_series_id"):
            return t[0] == "disc" or ("0" not in vs) == p or ("0" in vs) != p
        return t[0] == "disc" and lv(t[1]) and ("1" in vs) == p
    for c, a, cd in s:
        R.check(lv(a[1]) and has(a[1], lambda x: x[0] == "fld" and x[1] == "files"), "g-which", c.where, "files of the version's levels", show(a[1])[:100])
        free(R, "g-when", c.where, cd, want, "every file that overlaps and may contain one of the series")
    for x in b.calls():
        if (x.fid or "").endswith("Iterator::next"):
            t = C.T.arg(x, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(filter|skip|take|step_by|take_while|skip_while)$", y[1])), "g-whole", x.where, "of all levels and files", show(t)[:80])
    only_exhausted(R, C, b, "g-stop")
    propagates(R, F, b, lambda c: bool(re.search(r"contains_any_series_id$", c.fid or c.name)), "g-err", "looking for the series in a file")
    for cd, t in C.full_cases(b):
        if not cd or is_err(t):
            continue
        R.check(t[0] == "agg" and bool(s) and t[2][0] == s[0][1][0], "g-ret", b.relfile, "the files collected are returned", show(t)[:80])
    # may contain
    K = Cond(F, no_inline=r"ColumnFile::(maybe_contains_series_id|load_bloom_filter)$|BloomFilter::\w+$")
    fid = "tskv::tsfamily::column_file::ColumnFile::contains_any_series_id"
    b = core(R, fid)
    nfalse = 0
    for cd, t in K.full_cases(b):
        if not cd or is_err(t):
            continue
        v = konst(t[2][0]) if t[0] == "agg" and t[1].endswith("::Ok") else None
        if v is True:
            continue
        nfalse += 1
    every_any(R, F, K, b, P(fid, 2))
    fid = "tskv::tsfamily::column_file::ColumnFile::maybe_contains_series_id"
    b = core(R, fid)
    for cd, t in K.full_cases(b):
        if not cd or is_err(t):
            continue
        v = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
        m = call(v, "maybe_contains") and names(v[2][0], "load_bloom_filter") and names(v[2][1], "to_be_bytes") and mentions(v[2][1], P(fid, 2))
        R.check(m or konst(v) is True, "h-filter", b.relfile, "a file may contain a series unless its filter denies the id's big-endian bytes", show(v)[:120])
    # tombstones for each of them
    fid = SV + "add_tombstone"
    b = core(R, fid)
    K = Cond(F, no_inline=r"SuperVersion::column_files_by_sid_and_time$|ColumnFile::\w+$|Version::\w+$|TsmTombstone::\w+$|TimeRanges::new$")
    me, sids, cols, rg = (P(fid, i) for i in (1, 2, 3, 4))
    cf = lambda t: names(t, "column_files_by_sid_and_time")
    for c, a, cd in step(R, K, b, r"SuperVersion::column_files_by_sid_and_time$", "j-files", "the files are looked up"):
        R.check(a[0] == me and a[1] == sids and mentions(a[2], rg), "j-files:which", c.where, "by the series and the time range", f"{show(a[1])[:40]} {show(a[2])[:80]}")
    ev = call_events(K, b, lambda c: bool(re.search(r"Vec(<.*>)?::push$|HashMap(<.*>)?::insert$|TsmTombstone::(add_range|flush)$", c.fid or c.name)))
    ev = [e for e in ev if not any("column_files_by_sid_and_time" in f for f, _ in e[3])]
    WELL = r"column_files_by_sid_and_time|maybe_contains_series_id|get_tsm_reader|load_bloom_filter|add_range|flush"
    adds = [e for e in ev if (e[0].fid or e[0].name).endswith("add_range")]
    R.check(len(adds) == 1, "j-add", b.relfile, "a tombstone is added", str(len(adds)))

    def ok(l):
        t, vs, p = l
        if names(t, "maybe_contains_series_id"):
            return t[0] == "disc" or ("0" in vs) != p
        if t[0] == "disc":
            return well(l, WELL) or ("1" in vs) == p
        if t[0] == "call" and t[1].endswith("::is_empty"):
            return ("1" in vs) != p
        return False
    for c, a, cd, ch in ev:
        n = (c.fid or c.name).rsplit("::", 1)[-1]
        free(R, f"j-{n}:when", c.where, cd, ok, "for every file and series that may be in it")
        if n == "add_range":
            R.check(a[2] == rg and names(a[0], "get_tsm_reader") and names(a[0], "file_path"), "j-add:what", c.where, "for the time range, in the file's own tombstones", f"{show(a[0])[:80]} {show(a[2])[:40]}")
            if a[3][0] == "agg" and a[3][2]:
                R.check(names(a[3], "load_bloom_filter"), "j-add:filter", c.where, "with the file's own filter", show(a[3])[:80])
        if n == "flush":
            R.check(names(a[0], "get_tsm_reader"), "j-flush:what", c.where, "of the same tombstones", show(a[0])[:80])
    pushed = [e for e in ev if (e[0].fid or e[0].name).endswith("::push") and adds and e[1][0] == adds[0][1][1]]
    if adds and not has(adds[0][1][1], lambda x: x[0] == "call" and re.search(r"::(map|flat_map)$", x[1])):
        R.check(len(pushed) == 1, "j-pairs", b.relfile, "pairs of series and column", str(len(pushed)))
        for c, a, cd, ch in pushed:
            R.check(a[1][0] == "agg" and len(a[1][2]) == 2 and each(a[1][2][1], cols), "j-pairs:cols", c.where, "each column", show(a[1])[:100])
            R.check(a[1][0] == "agg" and len(a[1][2]) == 2 and a[1][2][0][0] == "ok", "j-pairs:series", c.where, "with each series", show(a[1])[:100])
    for c in b.calls():
        if (c.fid or "").endswith("Iterator::next"):
            t = K.T.arg(c, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(skip|take|step_by|take_while|skip_while)$", y[1])), "j-whole", c.where, "all of them", show(t)[:80])
    only_exhausted(R, K, b, "j-stop")
    propagates(R, F, b, lambda c: bool(re.search(r"SuperVersion::column_files_by_sid_and_time$|maybe_contains_series_id$|get_tsm_reader$|TsmTombstone::(add_range|flush)$|load_bloom_filter$", c.fid or c.name)), "j-err", "adding tombstones")
    fl = [e for e in ev if (e[0].fid or e[0].name).endswith("flush")]
    R.check(bool(fl) and all(any(ev_before(F, x[3], y[3]) for x in adds) for y in fl), "j-sync", b.relfile, "the tombstones are synced after they were added")


def every_any(R, F, K, b, sids):
    """false only after all series were asked"""
    only_exhausted_but_true = []
    for cd, t in K.full_cases(b):
        if not cd or is_err(t) or t[0] != "agg" or not t[1].endswith("::Ok"):
            continue
        v = konst(t[2][0])
        if v is True:
            R.check(all(any(names(l[0], "maybe_contains_series_id") or l[0][0] == "disc" for l in cj) for cj in cd), "h-any", b.relfile, "a file is said to contain one only when it may")
            continue
        for cj in cd:
            for l in cj:
                bad = names(l[0], "maybe_contains_series_id") and l[0][0] != "disc" and ("0" in l[1]) != l[2]
                R.check(not bad, "h-any", b.relfile, "a file is passed over only when it contains none of the series", show_dnf(frozenset([cj]))[:120])
    for x in b.calls():
        if (x.fid or "").endswith("Iterator::next"):
            t = K.T.arg(x, 0)
            R.check(mentions(t, sids) and not has(t, lambda y: y[0] == "call" and re.search(r"::(filter|skip|take|step_by)$", y[1])), "h-all", x.where, "all series are asked", show(t)[:80])


def tombstones(R, F):
    C = Cond(F, no_inline=r"record_file::|TsmTombstone::encode_field_time_ranges$|write_tombstone_record$|BloomFilter::\w+$|TsmTombstoneCache::\w+$")
    fid = TS + "add_range"
    b = core(R, fid)
    me, cols, rg, bf = (P(fid, i) for i in (1, 2, 3, 4))

    def may(l):
        t, vs, p = l
        if t[0] == "call" and t[1].endswith("maybe_contains"):
            return ("1" in vs) == p and mentions(t[2][0], bf) and names(t[2][1], "to_be_bytes") and has(t[2][1], lambda x: x[0] == "fld" and str(x[1]) == "0" and each(x[2], cols))
        return t == ("disc", bf) or t[0] == "disc" and mentions(t[1], bf)
    basic = lambda l: elem(l, cols) or may(l) or well(l, r"write_tombstone_record") or l[0][0] == "disc" and (names(l[0][1], "lock") or names(l[0][1], "open")) or \
        l[0][0] == "bin" and has(l[0], lambda x: x[0] == "call" and x[1].endswith("::len"))
    enc = C.sites(b, lambda c: bool(re.search(r"encode_field_time_ranges$", c.fid or c.name)))
    R.check(len(enc) == 1, "e-record", b.relfile, "each pair is encoded", str(len(enc)))
    for c, a, cd in enc:
        one = a[1]
        R.check(one[0] == "agg" and one[1].endswith("TombstoneField::One") and len(one[2]) == 2 and all(x[0] == "fld" and str(x[1]) == str(i) and each(x[2], cols) for i, x in enumerate(one[2])), "e-record:pair", c.where, "series and column of the pair", show(one)[:120])
        R.check(a[2] == rg or a[2][0] == "agg" and a[2][2] == (rg,), "e-record:range", c.where, "with the time range", show(a[2])[:80])
        free(R, "e-record:when", c.where, cd, basic, "unless the file's filter excludes the series")
    buf = enc[0][1][0] if enc else None
    wr = call_events(C, b, lambda c: bool(re.search(r"write_tombstone_record$|TsmTombstoneCache::insert_batch$|TsmTombstoneCache::insert$", c.fid or c.name)))
    ws = [e for e in wr if (e[0].fid or e[0].name).endswith("write_tombstone_record")]
    for c, a, cd, ch in ws:
        R.check(a[1] == buf, "e-write", c.where, "the encoded pairs are written", show(a[1])[:80])
        free(R, "e-write:when", c.where, cd, lambda l: basic(l) or l[0][0] == "call" and l[0][1].endswith("is_empty") and ("1" in l[1]) != l[2], "when there are any")
    last = [e for e in ws if not any(elem(l, cols) for l in lits(e[2]))]
    R.check(len(last) >= 1, "e-rest", b.relfile, "what is left in the buffer is written at the end")
    for c, a, cd in C.sites(b, lambda c: bool(re.search(r"Vec(<.*>)?::(clear|truncate|drain)$", c.fid or c.name))):
        if a[0] == buf:
            R.check(all(any(well(l, "write_tombstone_record") for l in cj) for cj in cd), "e-clear", c.where, "the buffer is emptied only after it was written", show_dnf(cd)[:120])
    mem = [e for e in wr if not (e[0].fid or e[0].name).endswith("write_tombstone_record")]
    R.check(len(mem) >= 1 and all(has(e[1][0], lambda x: x == ("fld", "cache", me)) for e in mem), "e-cache", b.relfile, "the exclusions readers see get the pairs", str(len(mem)))
    if mem and (mem[0][0].fid or mem[0][0].name).endswith("insert_batch"):
        bt = mem[0][1][1]
        ps = [e for e in own_sites(C, b, lambda c: bool(re.search(r"Vec(<.*>)?::push$|HashMap(<.*>)?::insert$", c.fid or c.name))) if has(e[1][0], lambda x: x == bt)]
        R.check(len(ps) == 1, "e-cache:pairs", b.relfile, "every pair", str(len(ps)))
        for c, a, cd in ps:
            R.check(rg in (a[1:] + tuple() if isinstance(a, tuple) else tuple(a[1:])) or any(mentions(x, rg) for x in a[1:]), "e-cache:range", c.where, "with the time range", show(a[-1])[:60])
            key = [x for x in walk(a[0]) if x[0] == "call" and x[1].endswith("::entry")]
            kt = key[0][2][1] if key else a[1]
            R.check(kt[0] == "agg" and all(x[0] == "fld" and str(x[1]) == str(i) and each(x[2], cols) for i, x in enumerate(kt[2])) or each(kt, cols), "e-cache:key", c.where, "under its series and column", show(kt)[:80])
            free(R, "e-cache:when", c.where, cd, basic, "unless the file's filter excludes the series")
        for c, a, cd, ch in mem:
            free(R, "e-cache:always", c.where, cd, lambda l: basic(l) or l[0][0] == "call" and l[0][1].endswith("is_empty"), "once all is written")
    propagates(R, F, b, lambda c: bool(re.search(r"write_tombstone_record$", c.fid or c.name)), "e-err", "writing tombstones")
    only_exhausted(R, C, b, "e-stop")
    for c in b.calls():
        if (c.fid or "").endswith("Iterator::next"):
            t = C.T.arg(c, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(skip|take|step_by|take_while|skip_while)$", y[1])), "e-whole", c.where, "all pairs", show(t)[:80])
    # flush syncs the file
    fid = TS + "flush"
    b = core(R, fid)
    s = C.sites(b, lambda c: bool(re.search(r"record_file::(writer::)?Writer::sync$", c.fid or c.name)))
    R.check(len(s) == 1 and all(has(a[0], lambda x: x == ("fld", "writer", P(fid, 1))) and all(l[0][0] == "disc" for l in lits(cd)) for c, a, cd in s), "e-sync", b.relfile, "flush syncs the file when one is open", str(len(s)))
    propagates(R, F, b, lambda c: bool(re.search(r"Writer::sync$", c.fid or c.name)), "e-sync:err", "the sync")
    # the cached exclusions
    K = Cond(F)
    fid = "tskv::tsm::tombstone::TsmTombstoneCache::insert_batch"
    b = R.body(fid)
    s = K.sites(b, lambda c: bool(re.search(r"TimeRanges::(extend_from_slice|push)$", c.fid or c.name)))
    s = s or K.sites(b, lambda c: bool(re.search(r"HashMap(<.*>)?::(entry|insert)$", c.fid or c.name)))
    R.check(bool(s), "x-batch", b.relfile, "a batch enters the exclusions", str(len(s)))
    D = Cond(F, no_inline=r"TimeRanges::\w+$")
    s = D.sites(b, lambda c: bool(re.search(r"TimeRanges::(extend_from_slice|push)$", c.fid or c.name)))
    for c, a, cd in s:
        R.check(has(a[0], lambda x: x == ("fld", "column_excluded", P(fid, 1))) and mentions(a[0], P(fid, 2)) and mentions(a[1], P(fid, 2)), "x-batch:what", c.where, "each pair's ranges under the pair", f"{show(a[0])[:80]} {show(a[1])[:60]}")
        free(R, "x-batch:when", c.where, cd, lambda l: elem(l, P(fid, 2)), "every pair of the batch")
    fid = "tskv::tsm::tombstone::TsmTombstoneCache::get_column_overlapped_time_ranges"
    b = R.body(fid)
    D = Cond(F, no_inline=r"TimeRange::overlaps$|TimeRanges::time_ranges$")
    me = P(fid, 1)
    ps = D.sites(b, lambda c: bool(re.search(r"Vec(<.*>)?::push$", c.fid or c.name)))
    if ps:
        for c, a, cd in ps:
            free(R, "x-get", c.where, cd, lambda l: l[0][0] == "disc" and ("1" in l[1]) == l[2] and has(l[0], lambda x: x == ("fld", "column_excluded", me)) or call(l[0], "TimeRange::overlaps") and ("1" in l[1]) == l[2], "every range of the pair that overlaps is told to readers")
            g = [x for x in walk(a[1]) if x[0] == "call" and re.search(r"HashMap(<.*>)?::get$", x[1])]
            R.check(bool(g) and all(x[2][0] == ("fld", "column_excluded", me) and x[2][1][0] == "agg" and x[2][1][2] == (P(fid, 2), P(fid, 3)) for x in g), "x-get:key", c.where, "of that series and column", show(a[1])[:100])
        only_exhausted(R, D, b, "x-get:stop")
    for x in b.calls():
        if (x.fid or "").endswith("Iterator::next"):
            t = D.T.arg(x, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(skip|take|step_by|take_while|skip_while)$", y[1])), "x-get:whole", x.where, "all of them", show(t)[:80])


def tags(R, F):
    C = Cond(F, no_inline=NI)
    fid = V + "update_tags_value"
    b = core(R, fid)
    me, cmd = P(fid, 1), P(fid, 3)
    dry = ("fld", "dry_run", cmd)
    isdry = lambda l: l[0] == dry and ("0" in l[1]) != l[2] if l[0] == dry else False
    notdry = lambda l: l[0] == dry and ("0" in l[1]) == l[2] or l[0] == dry and ("1" in l[1]) != l[2]
    prep = step(R, C, b, r"TSIndex::prepare_update_tags_value$", "u-prepare", "the new keys are made out of the index")
    idx = step(R, C, b, r"TSIndex::update_series_key$", "u-index", "the index gets the new keys")
    fam = step(R, C, b, r"TseriesFamily::update_tag_value$", "u-family", "caches and files get the new keys")
    W = r"prepare_update_tags_value|update_series_key|update_tag_value|decode"
    for key, s in (("u-index", idx), ("u-family", fam)):
        for c, a, cd in s:
            R.check(all(any(notdry(l) for l in cj) for cj in cd) and bool(cd), f"{key}:dry", c.where, "never in a dry run", show_dnf(cd)[:160])
            free(R, f"{key}:when", c.where, cd, lambda l: l[0] == dry or well(l, W), "always otherwise")
            R.check(names(a[0], "read|write|lock") and any(has(a[0], lambda x, f=f: x == ("fld", f, me)) for f in ("ts_index", "ts_family")), f"{key}:where", c.where, "of this vnode", show(a[0])[:60])
    for c, a, cd in idx:
        part_ = lambda t, i: t[0] == "fld" and str(t[1]) == str(i) and names(t[2], "prepare_update_tags_value")
        R.check(all(part_(a[i + 1], i) for i in range(3)), "u-index:what", c.where, "old keys, new keys and ids as prepared", str([show(x)[-20:] for x in a[1:4]]))
    for c, a, cd in fam:
        z = [x for x in walk(a[1]) if x[0] == "fld" and names(x[2], "prepare_update_tags_value")]
        R.check({str(x[1]) for x in z} >= {"1", "2"} and not any(str(x[1]) == "0" for x in z), "u-family:what", c.where, "each id with its new key", show(a[1])[:100])
    for c, a, cd in prep:
        mt = a[1]
        R.check(has(mt, lambda x: x == ("fld", "new_tags", cmd)), "u-prepare:tags", c.where, "with the new tags", show(mt)[:80])
    ms = [e for e in own_sites(C, b, lambda c: bool(re.search(r"Vec(<.*>)?::push$", c.fid or c.name))) if names(e[1][1], "decode")]
    dec = C.sites(b, lambda c: bool(re.search(r"SeriesKey::decode$", c.fid or c.name)))
    R.check(bool(dec) and all(mentions(a[0], ("fld", "matched_series", cmd)) for c, a, cd in dec) or any(names(a[2], "decode") or True for c, a, cd in prep), "u-prepare:series", b.relfile, "for the series matched")
    after(R, C, b, r"TSIndex::update_series_key$", r"TseriesFamily::update_tag_value$", "u-order", "the index first")
    propagates(R, F, b, lambda c: bool(re.search(r"prepare_update_tags_value$|update_series_key$|TseriesFamily::update_tag_value$", c.fid or c.name)), "u-err", "updating tags")
    # files
    fid = TF + "update_tag_value"
    b = core(R, fid)
    K = Cond(F, no_inline=r"MemCache::\w+$|ColumnFile::\w+$|Version::\w+$")
    s = K.sites(b, lambda c: bool(re.search(r"ColumnFile::update_tag_value$", c.fid or c.name)))
    R.check(len(s) == 1, "u-files", b.relfile, "files get the new keys", str(len(s)))
    for c, a, cd in s:
        R.check(names(a[0], "levels_info") and a[1] == P(fid, 2), "u-files:which", c.where, "every file of the levels", show(a[0])[:100])
        free(R, "u-files:when", c.where, cd, lambda l: l[0][0] == "disc" and (names(l[0][1], "levels_info") or elem(l, ("fld", "immut_cache", P(fid, 1)))), "always")
    for x in b.calls():
        if (x.fid or "").endswith("Iterator::next"):
            t = K.T.arg(x, 0)
            R.check(not has(t, lambda y: y[0] == "call" and re.search(r"::(filter|skip|take|step_by|take_while|skip_while)$", y[1])), "u-files:whole", x.where, "all of them", show(t)[:80])
    only_exhausted(R, K, b, "u-files:stop")
    propagates(R, F, b, lambda c: bool(re.search(r"ColumnFile::update_tag_value$", c.fid or c.name)), "u-files:err", "updating a file")
    rc = K.sites(b, lambda c: bool(re.search(r"remove_tsm_reader_cache$", c.fid or c.name)))
    R.check(len(rc) == 1 and all(names(a[1], "update_tag_value") for c, a, cd in rc), "u-files:cache", b.relfile, "a changed file is opened anew", str(len(rc)))
    for c, a, cd in rc:
        free(R, "u-files:cache:when", c.where, cd, lambda l: l[0][0] == "disc" and (names(l[0][1], "levels_info|update_tag_value") or elem(l, ("fld", "immut_cache", P(fid, 1)))), "whenever it was changed")
