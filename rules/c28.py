"""A vnode's files: the summary log and the versions built from it agree, and survive a crash at any point."""
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from rules.c33 import call, strip, unok
from rules.c34 import core_of, truth, only_end, precedes_all

PKGS = ["tskv"]
CRATES = ["tskv", "models", "utils"]
RULE = """(1) Summary::recover: for each action of an edit the composed effect on the collected list (start anew, forget, append); reading ends only
at the end of the file and fails on anything but a bad record; maxima folded over all edits; removals, then additions; every file at its own level;
the id generator set behind the largest id. (2) apply_version_edit: nothing of the new version before the edit is written and synced; edit, files,
caches are those of the request; rewriting replaces the file only by rename of a written one, and the writer changes only afterwards.
(3) Version::copy_apply_version_edits: kept = not named as deleted, marked = named, added = all, at their own levels; sequence never falls.
(4) TseriesFamily: caches dropped are exactly those flushed, a full cache stays readable, every change of version or caches makes a new super
version; the snapshot edit names every file. (5) Edits and file metas: constructors, conversions and paths."""
SU = "tskv::tsfamily::summary::Summary::"
VE = "tskv::tsfamily::version::"
TF = "tskv::tsfamily::tseries_family::TseriesFamily::"
LI = "tskv::tsfamily::level_info::LevelInfo::"
NI = r"record_file::|file_utils::|StorageOptions::|VersionEdit::|PartialEq|Version::new|LevelInfo::|read_record|Reader|Writer|CompactMeta::|build_version_edit|copy_apply|ColumnFile::|IDGenerator"
ACT = ("Add", "Delete", "Update")


def P(f, n):
    return ("param", f, n)


def fld(t, *names):
    for n in reversed(names):
        if t[0] != "fld" or str(t[1]) != n:
            return None
        t = t[2]
    return t


def run(R):
    F = R.F
    recover(R, F)
    apply(R, F)
    version(R, F)
    family(R, F)
    edits(R, F)
    levels(R, F)


def acts(cj, ed):
    """actions of the edit that the literals leave open"""
    out = set(ACT)
    isact = lambda t: t[0] == "fld" and t[1] == "act_tsf" and ed(t[2])
    for t, v, p in cj:
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and (isact(t[2]) or isact(t[3])):
            o = t[3] if isact(t[2]) else t[2]
            m = re.search(r"VnodeAction::(\w+)", o[1] if o[0] == "agg" else show(o))
            tv = truth((t, v, p))
            if m and tv is not None:
                s = {m.group(1)} if tv == (t[1] == "Eq") else set(ACT) - {m.group(1)}
                out &= s
        elif t[0] == "disc" and isact(t[1]):
            s = {ACT[int(x)] for x in v if x.isdigit() and int(x) < 3}
            out &= s if p else set(ACT) - s
    return out


def folded(C, b, t, item, init, name="max"):
    """t is init, raised by every item"""
    f, k = (t[2], t[1]) if t[0] == "fld" else (t, None)
    if f[0] == "call" and re.search(r"Iterator(<.*>)?>?::fold$", f[1]) and len(f[2]) == 3:
        part = lambda x: x if k is None else getf(x, k)
        acc, it = ("param", "acc", 0), ("ok", f[2][0])
        r = C.T.apply_closure(f[2][2], [acc, it], 0)
        r = r and part(r)
        return bool(r) and init(part(f[2][1])) and r[0] == "call" and r[1].endswith("::" + name) and len(r[2]) == 2 and part(acc) in r[2] and any(item(x) for x in r[2])
    al = list(alts(t))
    if not any(init(x) for x in al):
        return False
    rest = [x for x in al if not init(x)]
    if rest and all(picked(C, x, item, name) for x in rest):
        return True
    if rest and all(x[0] == "call" and x[1].endswith("::" + name) and len(x[2]) == 2 for x in rest):
        for c in b.calls():
            if c.name.endswith("::" + name) and len(c.args) == 2:
                x, y = C.T.arg(c, 0), C.T.arg(c, 1)
                for p, q in ((x, y), (y, x)):
                    if item(q) and p[0] == "phi" and has(p, lambda z: z[0] == "loop") and any(init(z) for z in alts(p)):
                        return True
        return False
    if rest and all(item(x) for x in rest):
        # written out: the item is taken where it compares as the larger one
        acc = lambda p: p[0] == "phi" and any(init(z) for z in alts(p))
        n = 0
        for bb, blk in blocks(b):
            for i, s in enumerate(blk["s"]):
                if s[0] != "=" or not isinstance(s[1], str) or s[1] not in b.names or s[2][0] != "use":
                    continue
                x = C.T.stmt_op(b, bb, i, s[2][1])
                if x not in rest and not (x[0] == "phi" and set(alts(x)) <= set(rest)):
                    continue
                cd = C.rc(b, bb)
                cmpd = [rels(cj, item, acc) for cj in cd]
                if all(r == set("<=>") for r in cmpd):
                    continue        # the binding of the item itself
                if any(r - set({"max": ">=", "min": "<="}[name]) for r in cmpd):
                    return False
                n += 1
        return n >= 1
    return False


def picked(C, x, item, name):
    """Some of src.map(f).max()"""
    if x[0] != "ok" or not re.search(r"Iterator(<.*>)?>?::%s$" % name, x[1][1] if x[1][0] == "call" else ""):
        return False
    it = x[1][2][0]
    if it[0] == "call" and re.search(r"Iterator(<.*>)?>?::map$", it[1]):
        y = C.T.apply_closure(it[2][1], [("ok", it[2][0])], 0)
        return y is not None and item(y)
    return item(("ok", it))


# ---------------------------------------------------------------- recover
def recover(R, F):
    C = Cond(F, no_inline=NI)
    b = core_of(R, SU + "recover")
    fid = SU + "recover"
    me = P(fid, 1)
    isdec = lambda t: t[0] == "ok" and call(t[1], "decode")
    eof, bad = discr(F, "TskvError", "Eof"), discr(F, "TskvError", "RecordFileHashCheckFailed")
    R.check(eof is not None and bad is not None, "rec-errs", b.relfile, "the error kinds are known")
    dec = [c for c in b.calls() if c.name.endswith("VersionEdit::decode")]
    if not R.check(len(dec) == 1, "rec-decode", b.relfile, "records are decoded at one place", str(len(dec))):
        return
    src = C.T.arg(dec[0], 0)
    R.check(has(src, lambda t: t[0] == "fld" and t[1] == "data" and has(t, lambda y: call(y, "read_record"))), "rec-data", dec[0].where, "the edit is the data of the record", show(src)[:90])
    rd = [c for c in b.calls() if c.name.endswith("Reader::read_record")]
    R.check(len(rd) == 1, "rec-read", b.relfile, "records are read at one place")
    loop = C.loop_of(b, dec[0].bb)
    R.check(loop is not None, "rec-loop", b.relfile, "records are read in a loop")
    # the list
    evs, lst = [], set()
    for c in b.calls():
        n = c.name.rsplit("::", 1)[1]
        if n in ("push", "clear", "truncate", "pop", "remove", "insert", "swap_remove", "drain", "retain") and loop and c.bb in loop[1] and re.search(r"::Vec(<.*>)?::", c.fid or c.name):
            evs.append((c.bb, n, C.T.arg(c, 1) if len(c.args) > 1 else None))
            lst |= {names_of(b, c.args[0])}
    names = {v for v in lst if v}
    L = [k for k, v in b.names.items() if v in names]
    for l in L:
        for bb, i, rv in assigns(b, l):
            if loop and bb in loop[1]:
                evs.append((bb, "set", new_list(C, b, bb, i, rv, isdec)))
    for a in ACT:
        cur = ["old"]
        seq = []
        for bb, n, x in evs:
            cd = [cj for cj in C.rc(b, bb) if a in acts(cj, isdec)]
            if cd:
                seq.append((bb, n, x))
                extra = [l for cj in cd for l in cj if not rec_lit(l, isdec)]
                R.check(not extra, "rec-cond", b.relfile, f"{a}: depends on the action only", show_dnf(frozenset([frozenset(extra)]))[:100])
        seq = order(b, seq, loop[0] if loop else None)
        if seq is None:
            cur = ["?"]
        else:
            for bb, n, x in seq:
                if n == "push":
                    cur = cur + ["ed" if x is not None and any(isdec(y) for y in alts(x)) else "?"]
                elif n == "clear":
                    cur = []
                elif n == "set":
                    cur = x
                else:
                    cur = cur + ["?"]
        want = {"Add": ["ed"], "Delete": [], "Update": ["old", "ed"]}[a]
        R.check(cur == want, "rec-" + a.lower(), b.relfile, {"Add": "an Add begins anew with itself", "Delete": "a Delete forgets what was before", "Update": "an Update is added behind"}[a], f"the list becomes {cur}")
    R.check(len(evs) >= 2, "rec-list", b.relfile, "edits are collected", str(len(evs)))
    # end of reading
    ok_ret = [(cd, t) for cd, t in C.ret_cases(b) if cd and t[0] == "agg" and t[1].endswith("::Ok")]
    er_ret = [(cd, t) for cd, t in C.ret_cases(b) if cd and not (t[0] == "agg" and t[1].endswith("::Ok"))]
    iserr = lambda t: t[0] == "disc" and has(t[1], lambda x: call(x, "read_record")) and has(t[1], lambda x: x[0] == "err")
    if loop:
        for u, d, cd in C.loop_exits(b, dec[0].bb):
            if not C_reach_ok(b, d):
                continue
            R.check(bool(cd) and all(any(iserr(t) and v == frozenset([eof]) and p for t, v, p in cj) for cj in cd), "rec-end", b.relfile, "reading ends at the end of the file only", show_dnf(cd)[:120])
    for cd, t in er_ret:
        for cj in cd:
            for tt, v, p in cj:
                if iserr(tt):
                    R.check(not p and v <= {eof, bad} or p and not (v & {eof, bad}), "rec-bad", b.relfile, "a bad record is skipped, not an error", show_dnf(cd)[:100])
    propagates(R, F, b, lambda c: bool(re.search(r"VersionEdit::decode$|Reader::open$", c.name)), "rec-err", "recover")
    # what is made of the edits
    each = lambda t: t[0] == "ok" and not isdec(t)
    item = lambda f: lambda t: all(x[0] == "fld" and x[1] == f and each(x[2]) for x in alts(t)) and bool(list(alts(t)))
    vn = [(c, [C.T.arg(c, i) for i in range(len(c.args))], C.rc(b, c.bb)) for c in b.calls() if c.name.endswith("Version::new")]
    if R.check(len(vn) == 1, "rec-version", b.relfile, "one version is made"):
        c, a, cd = vn[0]
        R.check(a[0] == ("fld", "tsf_id", me) and fld(a[2], "ctx", "options", "storage") == me and call(unwrap(a[4]), "init_levels"), "rec-version", c.where, "the version of this vnode, with the levels", show(a[0])[:60])
        R.check(folded(C, b, a[3], item("seq_no"), lambda t: konst(t) == 0), "rec-seq", c.where, "its sequence number is the largest of all edits", show(a[3])[:120])
        R.check(folded(C, b, a[5], item("max_level_ts"), lambda t: konst(t) == -2 ** 63 or t[0] == "k" and "MIN" in show(t)), "rec-ts", c.where, "its largest time is the largest of all edits", show(a[5])[:120])
        R.check(any(call(x, "owner") or True for x in [a[1]]), "rec-owner", c.where, "and the owner")
        lv = a[4]
    st = [(c, [C.T.arg(c, i) for i in range(len(c.args))]) for c in b.calls() if c.name.endswith("IDGenerator::set")]
    if R.check(len(st) == 1, "rec-id", b.relfile, "the id generator is set"):
        c, a = st[0]
        t = a[1]
        t = t[2] if t[0] == "fld" and t[2][0] == "bin" else t
        R.check(a[0] == ("fld", "file_id", me) and t[0] == "bin" and t[1].startswith("Add") and konst(t[3]) is not None and konst(t[3]) >= 1 and folded(C, b, t[2], item("file_id"), lambda x: konst(x) == 0), "rec-id", c.where, "behind the largest id of all edits", show(a[1])[:120])
        if vn:
            R.check(precedes_any(b, c.bb, vn[0][0].bb), "rec-id", c.where, "before the version is used")
    maps = [(c, a, tb) for c, a, cd, tb in top_sites(C, b, lambda c: bool(re.search(r"Map(<.*>)?::(insert|remove)$", c.fid or c.name))) if not (loop and tb in loop[1])]
    ins = [m for m in maps if m[0].name.endswith("::insert")]
    if not ins:
        # a map extended with a list of pairs
        for c, a, cd, tb in top_sites(C, b, lambda c: bool(re.search(r"Map as core::iter::traits::collect::Extend<.*>>::extend$", c.name))):
            y = a[1]
            if y[0] == "call" and re.search(r"Iterator(<.*>)?>?::map$", y[1]):
                e = C.T.apply_closure(y[2][1], [("ok", y[2][0])], 0)
            else:
                e = ("ok", y)
            if not (loop and tb in loop[1]) and e is not None:
                ins.append((c, [a[0], getf(e, "0"), getf(e, "1")], tb))
    rem = [m for m in maps if m[0].name.endswith("::remove")]
    if R.check(len(ins) == 1 and len(rem) == 1, "rec-files", b.relfile, "files are added and removed at one place each", f"{len(ins)} {len(rem)}"):
        for (c, a, tb), f in ((ins[0], "add_files"), (rem[0], "del_files")):
            ok = all(x[0] == "fld" and x[1] == "file_id" and x[2][0] == "ok" and all(fld(y, f) is not None for y in alts(x[2][1])) for x in alts(a[1]))
            R.check(ok and bool(list(alts(a[1]))), "rec-files", c.where, f"each of {f} by its id", show(a[1])[:100])
            if c.body is b:
                R.check(pure_loop(C, b, c.bb), "rec-every", c.where, f"every one of {f}", "")
            else:
                R.check(not [l for cj in C.rc(c.body, c.bb) for l in cj], "rec-every", c.where, f"every one of {f}", "")
        ok = all(x[0] == "ok" and all(fld(y, "add_files") is not None for y in alts(x[1])) for x in alts(ins[0][1][2]))
        R.check(ok, "rec-files", ins[0][0].where, "with its own meta", show(ins[0][1][2])[:90])
        R.check(within_round(C, b, rem[0][2], ins[0][2]) and (rem[0][0].body is not b or ins[0][0].body is not b or names_of(b, rem[0][0].args[0]) == names_of(b, ins[0][0].args[0])), "rec-order", rem[0][0].where, "an edit's removals come before its additions")
    pc = [(c, [C.T.arg(c, i) for i in range(len(c.args))]) for c in b.calls() if c.name.endswith("LevelInfo::push_compact_meta")]
    if R.check(len(pc) == 1, "rec-push", b.relfile, "files are put into levels at one place"):
        c, a = pc[0]
        m = unref(a[1])
        R.check(has(a[0], lambda x: x[0] == "fld" and x[1] == "level" and x[2] == m) and (m[0] == "ok" or m[0] == "fld" and str(m[1]) == "1" and m[2][0] == "ok") and re.search(r"into_values|values|into_iter|drain|HashMap", show(m)), "rec-level", c.where, "each file at its own level", show(a[0])[-90:])
        R.check(pure_loop(C, b, c.bb), "rec-every", c.where, "every file is put into its level")
    for cd, t in ok_ret:
        x = t[2][0]
        if x[0] == "agg" and x[1].endswith("::None"):
            R.check(lit_empty(cd, C, b, L), "rec-none", b.relfile, "no version only when there are no edits", show_dnf(cd)[:120])
        else:
            R.check(x[0] == "agg" and x[1].endswith("::Some") and call(x[2][0], "new"), "rec-some", b.relfile, "otherwise the version", show(x)[:60])


def lit_empty(cd, C, b, L):
    def one(t, v, p):
        if t[0] == "call" and t[1].endswith("is_empty"):
            return truth((t, v, p)) is True
        if t[0] == "bin" and any(x[0] == "call" and x[1].endswith("::len") for x in (t[2], t[3])):
            return True
        return False
    return all(any(one(*l) for l in cj) for cj in cd)


def C_reach_ok(b, d):
    """the way out of the loop at d leads on (not straight to an error return)"""
    seen, st, n = set(), [d], 0
    calls = {c.bb: c for c in b.calls()}
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in calls and re.search(r"IDGenerator::set$|Version::new$", calls[x].name):
            return True
        st.extend(b.succs(x))
    return False


def top_sites(C, b, pred):
    """own_sites, with the block of b each happens in"""
    base = b.id.split("::{")[0]
    out = []
    for c, a, cd, ch in call_events(C, b, pred):
        if not all(f == base or f.startswith(base + "::{") for f, _ in ch):
            continue
        out.append((c, a, cd, c.bb if c.body is b else next((n for f, n in ch if f == b.id), c.bb)))
    return out


def unref(t):
    while t[0] in ("ref",):
        t = t[1]
    return t


def unwrap(t):
    return t


def rec_lit(l, isdec):
    t = l[0]
    if t[0] == "fld" or t[0] == "bin" or t[0] == "disc" and t[1][0] == "fld" and t[1][1] == "act_tsf":
        return has(t, lambda x: x[0] == "fld" and x[1] == "act_tsf" and isdec(x[2]))
    if t[0] == "disc":
        return any(call(x, n) for x in walk(t[1]) for n in ("decode", "read_record", "open"))
    return False


def blocks(b):
    for n, blk in enumerate(b.blocks):
        if not blk.get("c"):
            yield n, blk


def names_of(b, op):
    """the variable an operand points to, by name (through moves and references)"""
    if op[0] not in ("c", "m"):
        return None
    l, seen = op[1], set()
    while isinstance(l, str) and l not in seen:
        seen.add(l)
        if l in b.names:
            return b.names[l]
        ds = [s[2] for n, blk in blocks(b) for s in blk["s"] if s[0] == "=" and s[1] == l]
        if len(ds) != 1 or ds[0][0] not in ("ref", "use", "addr"):
            return None
        x = ds[0][-1]
        l = x[1] if isinstance(x, (list, tuple)) else x
        l = l[0] if isinstance(l, (list, tuple)) else l
        if isinstance(l, str) and l.startswith("*"):
            l = l[1:]
    return None


def assigns(b, l):
    for n, blk in blocks(b):
        for i, s in enumerate(blk["s"]):
            if s[0] == "=" and s[1] == l:
                yield n, i, s[2]


def new_list(C, b, bb, i, rv, isdec):
    """what an assignment makes of the list: [], ['ed'] or ['?']"""
    if rv[0] != "use":
        return ["?"]
    t = C.T.stmt_op(b, bb, i, rv[1])
    if t[0] == "call" and re.search(r"Vec(<.*>)?::(new|with_capacity|default)$", t[1]):
        return []
    while t[0] == "call" and len(t[2]) == 1 and re.search(r"into_vec|box_assume_init_into_vec_unsafe|from|new", t[1]):
        t = t[2][0]
    if t[0] == "agg" and len(t[2]) == 1 and isdec(t[2][0]):
        return ["ed"]
    return ["?"]


def reach(b, x, y, avoid=None):
    seen, st = set(), list(b.succs(x))
    while st:
        n = st.pop()
        if n in seen or n == avoid:
            continue
        seen.add(n)
        if n == y:
            return True
        st.extend(b.succs(n))
    return False


def order(b, seq, header):
    import functools
    for i in range(len(seq)):
        for j in range(i):
            x, y = seq[i][0], seq[j][0]
            if x != y and not reach(b, x, y, header) and not reach(b, y, x, header):
                return None
    return sorted(seq, key=functools.cmp_to_key(lambda x, y: 0 if x[0] == y[0] else -1 if reach(b, x[0], y[0], header) else 1))


def precedes_any(b, x, y):
    """y can follow x, and x can not follow y without going round an outer loop"""
    return reach(b, x, y)


def within_round(C, b, x, y):
    """inside one round of the loop around the loops of x and y, y comes after x and x not after y"""
    hs = {h for h, ns in all_loops(C, b).items() if x in ns and y in ns}
    def go(s, d):
        seen, st = set(), list(b.succs(s))
        while st:
            n = st.pop()
            if n in seen or n in hs:
                continue
            seen.add(n)
            if n == d:
                return True
            st.extend(b.succs(n))
        return False
    return go(x, y) and not go(y, x)


def all_loops(C, b):
    back, _ = C.backedges(b)
    loops = {}
    for u, h in back:
        ns, st = {h, u}, [u]
        while st:
            x = st.pop()
            if x == h:
                continue
            for p in b.preds(x):
                if p not in ns and p in b.reachable():
                    ns.add(p)
                    st.append(p)
        loops.setdefault(h, set()).update(ns)
    return loops


def pure_loop(C, b, bb):
    """inside its innermost loop the site is reached for every element, and the loop ends with its iterator"""
    lp = C.loop_of(b, bb)
    if lp is None:
        return False
    h = lp[0]
    before = {l for cj in C.rc(b, h) for l in cj}
    for cj in C.rc(b, bb):
        for t, v, p in cj:
            if (t, v, p) in before:
                continue
            if t[0] == "disc" and (t[1][0] != "call" or True) and "1" in v and p and not has(t, lambda x: x[0] == "bin"):
                continue
            return False
    return all(only_end(C, b, bb, cd) for u, d, cd in C.loop_exits(b, bb) if not returns_err(C, b, d))


def returns_err(C, b, d):
    return False


# ---------------------------------------------------------------- applying an edit
def apply(R, F):
    C = Cond(F, no_inline=NI + r"|TseriesFamily::|Version::|Summary::")
    b = core_of(R, SU + "apply_version_edit")
    fid = SU + "apply_version_edit"
    me, rq = P(fid, 1), P(fid, 2)
    site = lambda n: [(c, a, cd) for c, a, cd in own_sites(C, b, lambda c: c.name.endswith(n))]
    wr, cp, nv = site("Summary::write_record"), site("Version::copy_apply_version_edits"), site("TseriesFamily::new_version")
    if not R.check(len(wr) == 1 and len(cp) == 1 and len(nv) == 1, "app-steps", b.relfile, "the edit is written, a version made of it and installed", f"{len(wr)} {len(cp)} {len(nv)}"):
        return
    R.check(wr[0][1][0] == me and fld(wr[0][1][1], "version_edit") == rq, "app-write", wr[0][0].where, "the request's edit is written", show(wr[0][1][1])[:80])
    iswr = lambda l: l[0][0] == "disc" and has(l[0][1], lambda x: call(x, "write_record") or x[0] == "call" and "write_record" in x[1]) and truth(l) is False
    for c, a, cd in cp + nv + site("install_tombstones_for_tsm_readers") + site("Version::unmark_compacting_files"):
        R.check(bool(cd) and all(any(iswr(l) for l in cj) for cj in cd), "app-durable", c.where, f"{c.name.rsplit('::', 1)[1]} only after the edit was written", show_dnf(cd)[:100])
    propagates(R, F, b, lambda c: c.name.endswith("Summary::write_record"), "app-err", "apply_version_edit")
    c, a, cd = cp[0]
    R.check(has(a[0], lambda x: call(x, "version") or fld(x, "super_version", "version") is not None) and has(a[0], lambda x: fld(x, "ts_family") == rq), "app-base", c.where, "the new version is made of the vnode's current one", show(a[0])[:90])
    R.check(fld(unclone(a[1]), "version_edit") == rq or a[1][0] == "agg" and all(has(x, lambda y: fld(y, "version_edit") == rq) for x in a[1][2]), "app-base", c.where, "and the request's edit", show(a[1])[:90])
    R.check(any(has(x, lambda y: fld(y, "file_metas") == rq) for x in alts(a[2])), "app-base", c.where, "with the filters of the request", show(a[2])[:90])
    c, a, cd = nv[0]
    R.check(has(a[1], lambda x: call(x, "copy_apply_version_edits")) and a[1][0] == "call" and a[1][1].endswith("Arc::new") or call(a[1], "copy_apply_version_edits"), "app-install", c.where, "that version is installed", show(a[1])[:90])
    R.check(has(a[0], lambda x: fld(x, "ts_family") == rq), "app-install", c.where, "in the vnode of the request", show(a[0])[:80])
    R.check(has(a[2], lambda x: fld(x, "mem_caches") == rq), "app-install", c.where, "and the caches of the request were flushed", show(a[2])[:80])
    okr = [cd for cd, t in C.ret_cases(b) if cd and t[0] == "agg" and t[1].endswith("::Ok")]
    R.check(bool(okr) and all(reach(b, nv[0][0].bb, n) for n, blk in blocks(b) if blk["t"][0] == "ret"), "app-ok", b.relfile, "OK only after it was installed")
    # who else installs versions
    n = 0
    for bb in F.bodies("tskv"):
        for c in bb.calls():
            if c.name.endswith("TseriesFamily::new_version") and "test" not in bb.id:
                n += 1
                R.check(bb.id.startswith(SU + "apply_version_edit"), "app-only", c.where, "versions are installed by applying an edit only", bb.id)
    R.check(n >= 1, "app-only", b.relfile, "installing is found")
    pd = site("HashSet::insert") + site("HashSet<T, S>::insert")
    un = site("Version::unmark_compacting_files")
    for c, a, cd in un:
        R.check(has(a[0], lambda x: call(x, "copy_apply_version_edits")), "app-unmark", c.where, "files deleted in part may be compacted again", show(a[0])[:60])
    R.check(len(un) == 1 and any(fld(x, "file_id") is not None and has(x, lambda y: fld(y, "partly_del_files") is not None) for c, a, cd in own_sites(C, b, lambda c: c.name.endswith("::insert")) for x in a[1:]), "app-unmark", b.relfile, "those the edit names")
    # rewriting
    rw = site("Summary::rewrite_summary_file")
    for c, a, cd in rw:
        R.check(precedes_all_from_entry(b, nv[0][0].bb, c.bb), "rw-after", c.where, "the file is rewritten after the version was installed")
        R.check(has(a[1], lambda x: call(x, "build_version_edit")), "rw-what", c.where, "with a description of the vnode", show(a[1])[:80])
    b = core_of(R, SU + "rewrite_summary_file")
    fid = SU + "rewrite_summary_file"
    me = P(fid, 1)
    C = Cond(F, no_inline=NI)
    ren = [(c, a, cd) for c, a, cd in own_sites(C, b, lambda c: c.name.endswith("fs::rename") or c.name.endswith("::rename"))]
    R.check(len(ren) == 1, "rw-rename", b.relfile, "the file is replaced by a rename", str(len(ren)))
    for c, a, cd in ren:
        R.check(call(a[0], "make_summary_file_tmp"), "rw-rename", c.where, "of the temporary file", show(a[0])[:80])
        R.check(has(a[1], lambda x: x[0] == "fld" and x[1] == "writer" and x[2] == me or call(x, "make_tsfamily_summary_file")) and not has(a[1], lambda x: call(x, "make_summary_file_tmp")), "rw-rename", c.where, "to the summary", show(a[1])[:80])
        w = [(x, y) for x, y, z in own_sites(C, b, lambda c: bool(re.search(r"write_version_edit$|Summary::write_record$|Writer::write_record$", c.name)))]
        R.check(len(w) >= 1 and all(precedes_all_from_entry(b, x.bb, c.bb) for x, y in w), "rw-write", c.where, "after the edit was written")
        R.check(bool(cd) and all(any(l[0][0] == "disc" and "write_" in show(l[0]) and truth(l) is False for l in cj) for cj in cd), "rw-write", c.where, "and synced, without failure", show_dnf(cd)[-120:])
        for x, y in w:
            R.check(any(z == P(fid, 2) for z in y), "rw-what", x.where, "the given edit is written", str([show(z)[:30] for z in y]))
    n = 0
    for p, a, cd in C.writes(b, "writer"):
        n += 1
        isren = lambda l: l[0][0] == "disc" and has(l[0], lambda x: call(x, "rename")) and truth(l) is False
        R.check(bool(cd) and all(any(isren(l) for l in cj) for cj in cd), "rw-writer", b.relfile, "edits go to the old file until it is replaced", show_dnf(cd)[-120:])
        R.check(has(a[0], lambda x: call(x, "open")) and not has(a[0], lambda x: call(x, "make_summary_file_tmp")), "rw-writer", b.relfile, "and to the new file afterwards", show(a[0])[:100])
    R.check(n >= 1, "rw-writer", b.relfile, "the new file is opened")
    propagates(R, F, b, lambda c: bool(re.search(r"fs::rename$|write_version_edit$|Summary::write_record$", c.name)), "rw-err", "rewrite_summary_file")
    # writing a record
    wv = F.get(SU + "write_version_edit")
    b = core_of(R, SU + ("write_version_edit" if wv is not None else "write_record"))
    fid = b.id.split("::{")[0]
    C = Cond(F, no_inline=NI)
    w = own_sites(C, b, lambda c: c.name.endswith("Writer::write_record"))
    sy = own_sites(C, b, lambda c: c.name.endswith("Writer::sync"))
    if R.check(len(w) == 1 and len(sy) == 1, "wr-sync", b.relfile, "a record is written and synced", f"{len(w)} {len(sy)}"):
        c, a, cd = w[0]
        R.check(any(has(x, lambda y: call(y, "encode") and y[2][0] == P(fid, 2)) for x in a), "wr-data", c.where, "the encoded edit", str([show(x)[:40] for x in a]))
        R.check(all(any(l[0][0] == "disc" and "write_record" in show(l[0]) and truth(l) is False for l in cj) for cj in sy[0][2]) and bool(sy[0][2]), "wr-sync", sy[0][0].where, "written first", show_dnf(sy[0][2])[:100])
        propagates(R, F, b, lambda c: bool(re.search(r"Writer::(write_record|sync)$|VersionEdit::encode$", c.name)), "wr-err", "write_record")
        for cd, t in C.ret_cases(b):
            if cd and t[0] == "agg" and t[1].endswith("::Ok"):
                R.check(all(any(l[0][0] == "disc" and "sync" in show(l[0]) and truth(l) is False for l in cj) for cj in cd), "wr-ok", b.relfile, "OK only when synced", show_dnf(cd)[:100])


def unclone(t):
    while t[0] == "call" and t[1].endswith("::clone") and len(t[2]) == 1:
        t = t[2][0]
    return t


def precedes_all_from_entry(b, y, z):
    """every way from the entry to z passes y"""
    seen, st = set(), [0]
    while st:
        n = st.pop()
        if n in seen or n == y:
            continue
        if n == z:
            return False
        seen.add(n)
        st.extend(b.succs(n))
    return True


# ---------------------------------------------------------------- versions
def version(R, F):
    fid = VE + "Version::copy_apply_version_edits"
    C = Cond(F, no_inline=r"LevelInfo::|Version::update_max|ColumnFile::")
    b = R.body(fid)
    me, ve = P(fid, 1), P(fid, 2)
    S = lambda n: own_sites(C, b, lambda c: bool(re.search(n, c.fid or c.name)))
    lvl = lambda t, m: has(t, lambda x: x[0] == "call" and x[1].endswith("ColumnFile::level") and x[2][0] == m or x[0] == "fld" and x[1] == "level" and x[2] == m)
    isfile = lambda t: t[0] == "ok" and fld(t[1], "files") is not None
    islev = lambda t: t[0] == "ok" and fld(t[1], "levels_info") == me
    owner_level = lambda t, f: lvl(t, f) or has(t, lambda x: x[0] == "fld" and x[1] == "level" and islev(x[2])) and fld(f[1], "files") is not None and islev(fld(f[1], "files"))
    # what is named
    adds = [(c, a, cd) for c, a, cd in S(r"::Vec(<.*>)?::push$") if any(x[0] == "ok" and fld(x[1], "add_files") == ve for x in a[1:])]
    dels = [(c, a, cd) for c, a, cd in S(r"Set(<.*>)?::insert$") if any(has(x, lambda y: fld(y, "del_files") == ve) for x in a[1:])]
    for (what, evs, f) in (("added", adds, "add_files"), ("deleted", dels, "del_files")):
        if not R.check(len(evs) == 1, "ver-named", b.relfile, f"the {what} files are gathered at one place", str(len(evs))):
            continue
        c, a, cd = evs[0]
        it = a[1] if what == "added" else a[1][2] if a[1][0] == "fld" else a[1]
        R.check(it[0] == "ok" and fld(it[1], f) == ve and (what == "added" or a[1][0] == "fld" and a[1][1] == "file_id"), "ver-named", c.where, f"each {what} file" + (" by its id" if what == "deleted" else ""), show(a[1])[:90])
        R.check(lvl(a[0], it), "ver-named", c.where, "under its own level", show(a[0])[-90:])
        extra = [l for cj in cd for l in cj if not (l[0][0] in ("call", "disc") or l[0][0] == "bin" and has(l[0], lambda x: call(x, "len"))) or has(l[0], lambda x: x[0] == "fld" and x[1] in ("level", "file_id", "is_delta"))]
        R.check(not extra, "ver-named", c.where, f"all {what} files", show_dnf(cd)[:100])
    # what is kept
    keep, mark, push = S("LevelInfo::push_column_file$"), S("ColumnFile::mark_deleted$"), S("LevelInfo::push_compact_meta$")
    def in_deleted(l, f):
        t = l[0]
        if t[0] == "call" and t[1].endswith("::contains") and has(t[2][1], lambda x: x[0] == "call" and x[1].endswith("ColumnFile::file_id") and x[2][0] == f or x[0] == "fld" and x[1] == "file_id" and x[2] == f) and owner_level(t[2][0], f):
            return truth(l)
        return None
    if R.check(len(keep) == 1 and len(mark) == 1 and len(push) == 1, "ver-steps", b.relfile, "files are kept, marked and added at one place each", f"{len(keep)} {len(mark)} {len(push)}"):
        (kc, ka, kd), (mc, ma, md), (pc, pa, pd) = keep[0], mark[0], push[0]
        f = ma[0]
        R.check(isfile(f) and islev(fld(f[1], "files")), "ver-mark", mc.where, "files of the current levels are marked", show(f)[:80])
        R.check(all(any(in_deleted(l, f) is True for l in cj) for cj in md) and all(all(in_deleted(l, f) is not None or l[0][0] == "disc" and l[2] and "1" in l[1] for l in cj) for cj in md), "ver-mark", mc.where, "exactly when the edit deletes them", show_dnf(md)[:140])
        f = unclone(ka[1])
        R.check(isfile(f) and islev(fld(f[1], "files")), "ver-keep", kc.where, "files of the current levels are kept", show(f)[:80])
        R.check(all(any(in_deleted(l, f) is False for l in cj) for cj in kd) and all(all(in_deleted(l, f) is not None or l[0][0] == "disc" and l[2] and "1" in l[1] for l in cj) for cj in kd), "ver-keep", kc.where, "exactly when the edit does not delete them", show_dnf(kd)[:140])
        R.check(owner_level(ka[0], f) or has(ka[0], lambda x: x[0] == "fld" and x[1] == "level" and islev(x[2])), "ver-keep", kc.where, "at their level", show(ka[0])[-80:])
        R.check(pure_loop2(C, b, kc.bb), "ver-every", kc.where, "every file is looked at")
        m = pa[1]
        R.check(m[0] == "ok" and (lvl(pa[0], m) or has(pa[0], lambda x: x[0] == "fld" and x[1] == "level" and islev(x[2])) and has(m, lambda x: x[0] == "fld" and x[1] == "level" and islev(x[2]))), "ver-add", pc.where, "added files come to the level they are gathered under", show(pa[0])[-80:])
        R.check(all(all(l[0][0] == "disc" and l[2] and "1" in l[1] for l in cj) for cj in pd), "ver-add", pc.where, "all of them", show_dnf(pd)[:120])
        R.check(pure_loop2(C, b, pc.bb), "ver-every", pc.where, "every added file")
        flt = [x for x in walk(pa[2])]
        R.check(any(call(x, "remove") and x[2][0] == P(fid, 3) and has(x[2][1], lambda y: y[0] == "fld" and y[1] == "file_id" and y[2] == m) or call(x, "get") and x[2][0] == P(fid, 3) and has(x[2][1], lambda y: y == m) for x in flt) or not has(pa[2], lambda x: x[0] == "agg" and x[1].endswith("::Some")), "ver-filter", pc.where, "with its own filter", show(pa[2])[-100:])
    up = S("LevelInfo::update_time_range$")
    for c, a, cd in keep + push:
        pass
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        q = getf(t, "last_seq")
        ok = q is not None and q[0] == "call" and q[1].endswith("::max") and {x for x in q[2]} == {("fld", "last_seq", me), ("fld", "seq_no", ve)}
        if q is not None and q[0] == "phi":
            ok = set(q[1]) == {("fld", "last_seq", me), ("fld", "seq_no", ve)}
        R.check(ok, "ver-seq", b.relfile, "the sequence number is the larger one of version and edit", show(q)[:90] if q else show(t)[:60])
        for n, src in (("ts_family_id", "ts_family_id"), ("owner", "owner"), ("storage_opt", "storage_opt"), ("tsm_reader_cache", "tsm_reader_cache")):
            q = getf(t, n)
            R.check(q is not None and unclone(q) == ("fld", src, me), "ver-same", b.relfile, f"{n} stays", show(q)[:60] if q else "?")
        q = getf(t, "levels_info")
        R.check(q is not None and call(q, "init_levels") or q is not None and has(q, lambda x: call(x, "init_levels")), "ver-levels", b.relfile, "the levels are the new ones", show(q)[:60] if q else "?")
    um = S("Version::update_max_level_ts$")
    R.check(len(um) == 1 and all(not cj for cj in um[0][2]), "ver-ts", b.relfile, "the largest time is computed anew")
    # the largest time
    fid = VE + "Version::update_max_level_ts"
    b = R.body(fid)
    C2 = Cond(F)
    me = P(fid, 1)
    w = C2.writes(b, "max_level_ts")
    item = lambda t: has(t, lambda x: x[0] == "fld" and x[1] == "max_ts") and has(t, lambda x: x[0] == "ok" and fld(x[1], "files") is not None)
    R.check(len(w) >= 1, "ver-ts", b.relfile, "the largest time is set")
    for p, a, cd in w:
        x = a[0]
        R.check(folded(C2, b, x, item, lambda t: t[0] == "k") or has(x, lambda y: call(y, "max")) and has(x, lambda y: y[0] == "fld" and y[1] == "max_ts" or y[0] == "fld" and y[1] == "levels_info"), "ver-ts", b.relfile, "to the largest of all files", show(x)[:120])


def pure_loop2(C, b, bb):
    """the loops around the site end with their iterators"""
    lp = C.loop_of(b, bb)
    if lp is None:
        return False
    return all(only_end(C, b, bb, cd) for u, d, cd in C.loop_exits(b, bb))


# ---------------------------------------------------------------- the vnode's caches and versions
def family(R, F):
    fid = TF + "new_version"
    C = Cond(F, no_inline=r"new_super_version|MemCache::|Version::")
    b = R.body(fid)
    me, nv, fl = P(fid, 1), P(fid, 2), P(fid, 3)
    ns = own_sites(C, b, lambda c: c.name.endswith("new_super_version"))
    R.check(len(ns) == 1 and all(not cj for cj in ns[0][2]) and unclone(ns[0][1][1]) == nv, "fam-super", b.relfile, "a new version always makes a new super version", str(len(ns)))
    imm = ("fld", "immut_cache", me)
    w = C.writes(b, "immut_cache")
    for p, a, cd in w:
        if ns:
            R.check(reach(b, p[1], ns[0][0].bb), "fam-order", b.relfile, "after the caches were dropped")
    pu = own_sites(C, b, lambda c: c.name.endswith("Vec::push") or c.name.endswith("Vec<T, A>::push"))
    rt = own_sites(C, b, lambda c: c.name.endswith("::retain"))
    if R.check(len(w) + len(rt) >= 1, "fam-drop", b.relfile, "flushed caches are dropped"):
        for c, a, cd in pu:
            R.check(unclone(a[1]) == ("ok", imm), "fam-keep", c.where, "caches of the vnode are kept", show(a[1])[:80])
            cs = C.rc(b, c.bb)
            ok = False
            kept_when(R, C, b, c, imm, fl)
        for c, a, cd in rt:
            R.check(a[0] == imm, "fam-keep", c.where, "of the immutable caches", show(a[0])[:60])
            cl = closure_id(a[1])
            R.check(cl is not None and any(same_cache(x) for bb in F.family(fid) for l in all_lits(C, bb) for x in [l[0]]), "fam-keep", c.where, "those that are not the flushed ones")
    # switching
    fid = TF + "switch_to_immutable"
    C = Cond(F, no_inline=r"new_super_version|MemCache::|Version::|IDGenerator")
    b = R.body(fid)
    me = P(fid, 1)
    mut, imm = ("fld", "mut_cache", me), ("fld", "immut_cache", me)
    pu = own_sites(C, b, lambda c: c.name.endswith("::push"))
    w = C.writes(b, "mut_cache")
    rp = own_sites(C, b, lambda c: c.name.endswith("mem::replace"))
    if not w and len(rp) == 1 and rp[0][1][0] == mut and len(pu) == 1:
        c, a, cd = pu[0]
        R.check(a[0] == imm and call(unclone(a[1]), "replace"), "fam-switch", c.where, "the mutable cache joins the immutable ones", show(a[1])[:60])
        w = [((b, rp[0][0].bb, 0, 0), [rp[0][1][1], me], rp[0][2])]
        pu = [(rp[0][0], [imm, mut], cd)]
    elif not R.check(len(pu) == 1 and len(w) == 1, "fam-switch", b.relfile, "a full cache is put aside and replaced", f"{len(pu)} {len(w)}"):
        w = []
    if w:
        c, a, cd = pu[0]
        R.check(a[0] == imm and unclone(a[1]) == mut, "fam-switch", c.where, "the mutable cache joins the immutable ones", show(a[1])[:60])
        R.check(bool(rp) or reach(b, c.bb, w[0][0][1]) and not reach(b, w[0][0][1], c.bb) and c.bb != w[0][0][1], "fam-switch", c.where, "before a new one takes its place")
        R.check(cd == w[0][2], "fam-switch", c.where, "both or none", show_dnf(cd)[:80])
        nw = [x for x in walk(w[0][1][0]) if call(x, "new") and "MemCache" in x[1]]
        R.check(len(nw) >= 1 and call(nw[0][2][1], "next_id") and unclone(nw[0][2][1][2][0]) == ("fld", "file_id", me) and nw[0][2][0] == ("fld", "tf_id", me), "fam-seq", b.relfile, "the new cache has a file id of its own", show(nw[0][2][1])[:80] if nw else "")
        R.check(len(nw) >= 1 and has(nw[0][2][4], lambda x: x[0] == "call" and x[1].endswith("MemCache::seq_no") and has(x, lambda y: y == mut)), "fam-seq", b.relfile, "the new cache goes on from the sequence number of the old one", show(w[0][1][0])[:120])
        ns = own_sites(C, b, lambda c: c.name.endswith("new_super_version"))
        R.check(len(ns) == 1 and ns[0][2] == cd and reach(b, w[0][0][1], ns[0][0].bb) or len(ns) == 1 and w[0][0][1] == ns[0][0].bb, "fam-super", b.relfile, "and readers see both")
        if ns:
            R.check(fld(ns[0][1][1], "super_version", "version") == me or call(ns[0][1][1], "version"), "fam-super", b.relfile, "with the same version", show(ns[0][1][1])[:60])
        for cj in cd:
            for l in cj:
                R.check(has(l[0], lambda x: call(x, "is_empty")) and truth(l) is False, "fam-empty", b.relfile, "unless it is empty", show_dnf(cd)[:80])
    # super version
    fid = TF + "new_super_version"
    C = Cond(F)
    b = R.body(fid)
    me = P(fid, 1)
    w = C.writes(b, "super_version")
    if R.check(len(w) == 1 and all(not cj for cj in w[0][2]), "fam-super", b.relfile, "the super version is replaced", str(len(w))):
        t = w[0][1][0]
        sv = [x for x in walk(t) if x[0] == "agg" and x[1].endswith("SuperVersion") and len(x[2]) == 4]
        if R.check(len(sv) == 1, "fam-super", b.relfile, "by a new one", show(t)[:80]):
            ca = getf(sv[0], "caches")
            R.check(ca is not None and unclone(getf(ca, "mut_cache")) == ("fld", "mut_cache", me) and unclone(getf(ca, "immut_cache")) == ("fld", "immut_cache", me), "fam-super", b.relfile, "of the current caches", show(ca)[:90] if ca else "")
            R.check(getf(sv[0], "version") == P(fid, 2), "fam-super", b.relfile, "and the given version", show(getf(sv[0], "version"))[:60])
    # caches are changed only here
    for bb in F.bodies("tskv", pat="tseries_family::TseriesFamily::"):
        if bb.id.split("::{")[0].rsplit("::", 1)[1] in ("new_version", "switch_to_immutable"):
            continue
        for n in ("mut_cache", "immut_cache", "super_version"):
            if bb.id.split("::{")[0].endswith("new_super_version") and n == "super_version":
                continue
            direct = [p for p, a, cd in C.writes(bb, n) if p[0] is bb or p[0].id == bb.id]
            R.check(not direct, "fam-only", bb.relfile, f"{n} is replaced only when switching or applying", bb.id)
    # writes and deletions reach the caches
    C = Cond(F, no_inline=r"MemCache::")
    for n, m in (("delete_series", "delete_series"), ("drop_columns", "drop_columns"), ("delete_series_by_time_ranges", "delete_series_by_time_ranges"), ("update_tag_value", "update_tag_value")):
        b = core_of(R, TF + n)
        fid = TF + n
        me = P(fid, 1)
        ss = own_sites(C, b, lambda c: c.name.endswith("MemCache::" + m))
        tgt = set()
        for c, a, cd in ss:
            if has(a[0], lambda x: x == ("fld", "mut_cache", me)):
                tgt.add("mut")
                R.check(all(not cj for cj in cd), "fam-del", c.where, f"{n} reaches the mutable cache always", show_dnf(cd)[:80])
            elif has(a[0], lambda x: x == ("fld", "immut_cache", me)):
                tgt.add("immut")
                R.check(all(all(l[0][0] == "disc" and l[2] and "1" in l[1] for l in cj) for cj in cd) and (C.loop_of(b, c.bb) is None or pure_loop2(C, c.body, c.bb)), "fam-del", c.where, f"{n} reaches every immutable cache", show_dnf(cd)[:80])
            R.check([unclone(x) for x in a[1:]] == [P(fid, i + 2) for i in range(len(a) - 1)], "fam-del", c.where, f"{n} passes what it was given", str([show(x)[:40] for x in a[1:]]))
        R.check(tgt == {"mut", "immut"}, "fam-del", b.relfile, f"{n} changes all caches", str(sorted(tgt)))
    # the snapshot edit
    C = Cond(F, no_inline=r"VersionEdit::|Version::|CompactMeta as|ColumnFile::")
    fid = TF + "build_version_edit"
    b = R.body(fid)
    me = P(fid, 1)
    af = own_sites(C, b, lambda c: c.name.endswith("VersionEdit::add_file"))
    nw = own_sites(C, b, lambda c: c.name.endswith("VersionEdit::new_add_vnode"))
    if R.check(len(af) == 1 and len(nw) == 1, "snap", b.relfile, "an Add edit with the vnode's files"):
        c, a, cd = nw[0]
        R.check(a[0] == ("fld", "tf_id", me) and has(a[1], lambda x: x == ("fld", "owner", me)) and call(a[2], "last_seq") or fld(a[2], "last_seq") is not None and a[0] == ("fld", "tf_id", me), "snap", c.where, "of this vnode at its version's sequence number", show(a[2])[:80])
        c, a, cd = af[0]
        R.check((pure_loop2(C, c.body, c.bb) or c.body is not b and C.loop_of(c.body, c.bb) is None) and all(all(l[0][0] == "disc" and l[2] and "1" in l[1] for l in cj) for cj in cd), "snap-all", c.where, "every file of every level", show_dnf(cd)[:100])
        R.check(has(a[1], lambda x: x[0] == "ok" and fld(x[1], "files") is not None), "snap-all", c.where, "by its own meta", show(a[1])[:80])
        R.check(call(a[2], "max_level_ts") or fld(a[2], "max_level_ts") is not None, "snap-all", c.where, "with the largest time", show(a[2])[:80])


def same_cache(t):
    return t[0] == "bin" and t[1] in ("Eq", "Ne") and has(t, lambda x: call(x, "data_ptr")) or t[0] == "call" and t[1].endswith("ptr_eq")


def all_lits(C, b):
    for n, blk in blocks(b):
        if blk["t"][0] in ("switch", "call", "ret"):
            for cj in C.rc(b, n):
                yield from cj
    for cd, t in C.ret_cases(b):
        yield (t, frozenset("1"), True)


def kept_when(R, C, b, c, imm, fl):
    """a cache is kept when it is the same as none of the flushed ones"""
    it = ("ok", imm)
    def same(t):
        if t[0] == "call" and t[1].endswith("ptr_eq"):
            xs = t[2]
        elif t[0] == "bin" and t[1] in ("Eq", "Ne"):
            xs = [t[2], t[3]]
            if not all(has(x, lambda y: call(y, "data_ptr") or call(y, "as_ptr")) for x in xs):
                return None
        else:
            return None
        a, d = (has(xs[0], lambda y: y == it), has(xs[1], lambda y: y == it))
        f = lambda x: has(x, lambda y: y[0] == "ok" and has(y, lambda z: z == fl))
        if a and f(xs[1]) and not f(xs[0]) or d and f(xs[0]) and not f(xs[1]):
            return True
        return None
    # the inner loop over the flushed caches, or any()/iter
    found = 0
    lp = C.loop_of(b, c.bb)
    for n, blk in blocks(b):
        if blk["t"][0] != "switch" or lp is None or n not in lp[1]:
            continue
        for d in sorted(set(b.succs(n))):
            for cj in C.edge(b, n, d):
                for l in cj:
                    if same(l[0]):
                        tv = truth(l)
                        if tv is None:
                            continue
                        tv = tv == (l[0][1] == "Eq" if l[0][0] == "bin" else True)
                        if l in {x for q in C.rc(b, n) for x in q}:
                            continue
                        found += 1
                        # equal: this element must not be kept any more; different: the others are looked at, or it is kept
                        flag = flags(b, lp)
                        if tv:
                            R.check(not reach_kept(b, d, c.bb, lp[0], flag), "fam-drop", b.relfile, "a flushed cache is not kept", f"bb{d}")
                        else:
                            R.check(reach(b, d, c.bb, lp[0]), "fam-keep", b.relfile, "a cache that is not flushed is kept", f"bb{d}")
    for cl in [x for x in C.F.family(b.id) if x.id != b.id]:
        for cd, t in C.ret_cases(cl):
            if same_cache(t):
                found += 2
    R.check(found >= 2, "fam-same", b.relfile, "flushed caches are told by identity", str(found))


def flags(b, lp):
    """bool variables set to constants inside the loop: [(local, block, value)]"""
    out = []
    for n, blk in blocks(b):
        if n in lp[1]:
            for s in blk["s"]:
                if s[0] == "=" and isinstance(s[1], str) and s[2][0] == "use" and s[2][1][0] == "k" and str(s[2][1][1]) in ("true", "false", "const true", "const false"):
                    out.append((s[1], n, "true" in str(s[2][1][1])))
    return out


def reach_kept(b, d, target, header, flag):
    """target reachable from d, following the value of boolean flags set on the way"""
    seen, st = set(), [(d, frozenset())]
    while st:
        n, env = st.pop()
        e = dict(env)
        for l, bb, v in flag:
            if bb == n:
                e[l] = v
        blk = b.blocks[n]
        for s in blk["s"]:
            if s[0] == "=" and isinstance(s[1], str) and s[2][0] == "use" and s[2][1][0] in ("c", "m") and s[2][1][1] in e:
                e[s[1]] = e[s[2][1][1]]
        env = frozenset(e.items())
        if (n, env) in seen:
            continue
        seen.add((n, env))
        if n == target:
            return True
        if n == header:
            continue
        t = blk["t"]
        nxt = b.succs(n)
        if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1] in e:
            val = "1" if e[t[1][1]] else "0"
            arms = dict((str(v), x) for v, x in t[2])
            nxt = [arms.get(val, t[3])]
        st.extend((x, env) for x in nxt if x is not None)
    return False


# ---------------------------------------------------------------- edits
def edits(R, F):
    C = Cond(F, no_inline=r"file_utils::|StorageOptions::")
    V = VE + "VersionEdit::"
    for n, act in (("new_add_vnode", "Add"), ("new_update_vnode", "Update"), ("new_del_vnode", "Delete")):
        b = R.body(V + n)
        for cd, t in C.ret_cases(b):
            ok = getf(t, "act_tsf") is not None and show(getf(t, "act_tsf")).split("{")[0].endswith(act) and getf(t, "tsf_id") == P(V + n, 1) and getf(t, "tsf_name") == P(V + n, 2) and getf(t, "seq_no") == P(V + n, 3)
            ok = ok and konst(getf(t, "file_id")) == 0 and all(call(getf(t, x), "new") for x in ("add_files", "del_files", "partly_del_files"))
            R.check(ok, "ed-new", b.relfile, f"{n}: action, vnode, owner and sequence number as given", show(t)[:120])
    b = R.body(V + "add_file")
    me, m = P(V + "add_file", 1), P(V + "add_file", 2)
    w = {p[3]: (a, cd) for p, a, cd in C.writes(b, ".*")}
    for f, o in (("file_id", ("fld", "file_id", m)), ("max_level_ts", P(V + "add_file", 3))):
        x = w.get(f)
        ok = x is not None and (x[0][0][0] == "call" and x[0][0][1].endswith("::max") and set(x[0][0][2]) == {("fld", f, me), o} and all(not cj for cj in x[1]) or x[0][0] == o and all(any(rels([l], ("fld", f, me), o) <= {"<", "="} for l in cj) for cj in x[1]))
        R.check(ok, "ed-max", b.relfile, f"add_file raises {f}", show(x[0][0])[:80] if x else "-")
    pu = own_sites(C, b, lambda c: c.name.endswith("::push"))
    R.check(len(pu) == 1 and pu[0][1][0] == ("fld", "add_files", me) and pu[0][1][1] == m and all(not cj for cj in pu[0][2]), "ed-add", b.relfile, "add_file adds the file")
    b = R.body(V + "del_file")
    me = P(V + "del_file", 1)
    pu = own_sites(C, b, lambda c: c.name.endswith("::push"))
    if R.check(len(pu) == 1 and pu[0][1][0] == ("fld", "del_files", me) and all(not cj for cj in pu[0][2]), "ed-del", b.relfile, "del_file removes the file"):
        t = pu[0][1][1]
        R.check(getf(t, "level") == P(V + "del_file", 2) and getf(t, "file_id") == P(V + "del_file", 3), "ed-del", b.relfile, "by level and id", show(t)[:90])
    b = R.body(V + "del_file_part")
    pu = own_sites(C, b, lambda c: c.name.endswith("::push"))
    if R.check(len(pu) == 1 and pu[0][1][0] == ("fld", "partly_del_files", P(V + "del_file_part", 1)), "ed-part", b.relfile, "del_file_part names a file deleted in part"):
        t = pu[0][1][1]
        R.check(getf(t, "level") == P(V + "del_file_part", 2) and getf(t, "file_id") == P(V + "del_file_part", 3) and delta(getf(t, "is_delta"), P(V + "del_file_part", 2)), "ed-part", b.relfile, "by level and id", show(t)[:90])
    fid = V + "update_vnode_id"
    b = R.body(fid)
    got = {}
    for p, a, cd in C.writes(b, "tsf_id"):
        base = a[1]
        k = "self" if base == P(fid, 1) else fld(base[1] if base[0] == "ok" else base, "add_files") is not None and "add" or fld(base[1] if base[0] == "ok" else base, "del_files") is not None and "del" or "?"
        got[k] = a[0] == P(fid, 2) and all(all(l[0][0] == "disc" for l in cj) for cj in cd)
    R.check(got == {"self": True, "add": True, "del": True}, "ed-id", b.relfile, "a new vnode id is given to the edit and its files", str(got))
    enc = [c for c in R.body(V + "encode").calls() if c.name.endswith("::serialize")]
    dec = [c for c in R.body(V + "decode").calls() if c.name.endswith("::deserialize")]
    R.check(len(enc) == 1 and len(dec) == 1 and enc[0].name.split("::")[0] == dec[0].name.split("::")[0], "ed-codec", "tskv/src/tsfamily/version.rs", "edits are written and read by one codec")
    # metas
    fid = VE + "CompactMeta::new"
    b = R.body(fid)
    for cd, t in C.ret_cases(b):
        q = [P(fid, i) for i in range(1, 7)]
        ok = [getf(t, x) for x in ("tsf_id", "file_id", "file_size", "level", "min_ts", "max_ts")] == q and delta(getf(t, "is_delta"), q[3])
        R.check(ok, "meta-new", b.relfile, "a meta has its fields as given; level 0 is delta", show(t)[:100])
    fid = "<tskv::tsfamily::version::CompactMeta as core::convert::From<&tskv::tsfamily::column_file::ColumnFile>>::from"
    b = R.body(fid)
    f = P(fid, 1)
    for cd, t in C.ret_cases(b):
        ok = getf(t, "file_id") == ("fld", "file_id", f) and getf(t, "file_size") == ("fld", "size", f) and getf(t, "level") == ("fld", "level", f) and fld(getf(t, "min_ts"), "time_range", "min_ts") == f and fld(getf(t, "max_ts"), "time_range", "max_ts") == f and delta(getf(t, "is_delta"), ("fld", "level", f))
        R.check(ok, "meta-from", b.relfile, "a file's meta is the file's", show(t)[:120])
    fid = "tskv::tsfamily::column_file::ColumnFile::with_compact_data"
    b = R.body(fid)
    m = P(fid, 1)
    for cd, t in C.ret_cases(b):
        tr = getf(t, "time_range")
        ok = getf(t, "file_id") == ("fld", "file_id", m) and getf(t, "size") == ("fld", "file_size", m) and getf(t, "level") == ("fld", "level", m) and tr is not None and [x for x in (getf(tr, "min_ts"), getf(tr, "max_ts"))] == [("fld", "min_ts", m), ("fld", "max_ts", m)]
        R.check(ok and getf(t, "path") == P(fid, 2), "meta-file", b.relfile, "and a file is made of its meta", show(t)[:120])
        R.check(call(getf(t, "deleted"), "new") and konst(getf(t, "deleted")[2][0]) in (0, False), "meta-file", b.relfile, "not deleted")
    for fid, dirs in ((VE + "CompactMeta::file_path", ("delta_dir", "tsm_dir")), (VE + "CompactMeta::relative_path", ("DELTA_PATH", "TSM_PATH"))):
        b = R.body(fid)
        n = set()
        for cd, t in C.ret_cases(b):
            d = [truth(l) for cj in cd for l in cj if l[0] == ("fld", "is_delta", P(fid, 1))]
            isd = bool(d) and all(d)
            n.add(isd)
            R.check(len(d) >= 1 and call(t, "make_delta_file" if isd else "make_tsm_file") and dirs[0 if isd else 1] in show(t[2][0]) and t[2][1] == ("fld", "file_id", P(fid, 1)), "meta-path", b.relfile, "delta files and others have their own directory", show(t)[:90])
        R.check(n == {True, False}, "meta-path", b.relfile, "for both kinds")
    b = R.body(VE + "CompactMeta::rename_file::{closure#0}")
    rn = own_sites(C, b, lambda c: c.name.endswith("::rename"))
    me, od, nd, ni = [P(VE + "CompactMeta::rename_file", i) for i in (1, 2, 3, 4)]
    for c, a, cd in rn:
        for x, dr, idt in ((a[0], od, ("fld", "file_id", me)), (a[1], nd, ni)):
            al = [y for y in alts(x)]
            R.check({y[1].rsplit("::", 1)[1] for y in al if y[0] == "call"} == {"make_delta_file", "make_tsm_file"} and all(has(y[2][0], lambda z: z == dr) and y[2][1] == idt and ("DELTA" if call(y, "make_delta_file") else "TSM") in show(y[2][0]) for y in al), "meta-rename", c.where, "a file is renamed within its kind", show(x)[:120])
    R.check(len(rn) == 1, "meta-rename", b.relfile, "renaming")


def delta(t, level):
    return t is not None and t[0] == "bin" and t[1] == "Eq" and {True} == {t[2] == level and konst(t[3]) == 0 or t[3] == level and konst(t[2]) == 0}


# ---------------------------------------------------------------- levels and files
def levels(R, F):
    C = Cond(F, no_inline=r"file_utils::|StorageOptions::|ColumnFile::with_compact_data")
    b = R.body(LI + "init_levels")
    for cd, t in C.ret_cases(b):
        R.check(t[0] == "agg" and len(t[2]) == 5 and [konst(getf(x, "level")) for x in t[2]] == list(range(5)), "lvl-init", b.relfile, "level i is at place i", show(t)[:100])
        for x in t[2] if t[0] == "agg" else ():
            R.check(getf(x, "tsf_id") == P(LI + "init_levels", 2) and call(getf(x, "files"), "new"), "lvl-init", b.relfile, "empty, of the vnode", show(x)[:80])
    fid = LI + "push_compact_meta"
    b = R.body(fid)
    me, m = P(fid, 1), P(fid, 2)
    pu = own_sites(C, b, lambda c: c.name.endswith("::push"))
    if R.check(len(pu) == 1 and pu[0][1][0] == ("fld", "files", me) and all(not cj for cj in pu[0][2]), "lvl-push", b.relfile, "the file is put into the level"):
        w = [x for x in walk(pu[0][1][1]) if call(x, "with_compact_data")]
        if R.check(len(w) == 1 and w[0][2][0] == m, "lvl-push", b.relfile, "made of the meta", show(pu[0][1][1])[:80]):
            site = [c for c in b.calls() if c.name.endswith("with_compact_data")][0]
            n = set()
            for cd, t in C.cases(b, site.args[1], (site.bb, None)):
                d = [truth(l) for cj in cd for l in cj if l[0] == ("fld", "is_delta", m)]
                isd = bool(d) and all(d)
                n.add(isd)
                R.check(len(d) >= 1 and call(t, "make_delta_file" if isd else "make_tsm_file") and call(t[2][0], "delta_dir" if isd else "tsm_dir") and t[2][1] == ("fld", "file_id", m), "lvl-path", b.relfile, "at the path flush and compaction wrote it to", show(t)[:100])
            R.check(n == {True, False}, "lvl-path", b.relfile, "for both kinds", str(n))
    fid = LI + "push_column_file"
    b = R.body(fid)
    pu = own_sites(C, b, lambda c: c.name.endswith("::push"))
    R.check(len(pu) == 1 and pu[0][1][0] == ("fld", "files", P(fid, 1)) and pu[0][1][1] == P(fid, 2) and all(not cj for cj in pu[0][2]), "lvl-push", b.relfile, "the file is put into the level")
    for fid, src in ((LI + "push_compact_meta", lambda x, f: x == ("fld", f, P(LI + "push_compact_meta", 2))), (LI + "push_column_file", lambda x, f: x[0] == "fld" and x[1] == f and has(x, lambda y: y == P(LI + "push_column_file", 2)))):
        b = R.body(fid)
        got = {}
        for p, a, cd in C.writes(b, "max_ts|min_ts"):
            f, t = p[3], a[0]
            op = "max" if f == "max_ts" else "min"
            old = lambda x: fld(x, "time_range", f) == P(fid, 1)
            got[f] = t[0] == "call" and t[1].endswith("::" + op) and any(old(x) for x in t[2]) and any(src(x, f) for x in t[2]) and all(not cj for cj in cd) or \
                src(t, f) and bool(cd) and all(len(cj) == 1 and rels(cj, lambda x: src(x, f), old) in ({">"}, {">", "="}) if op == "max" else len(cj) == 1 and rels(cj, lambda x: src(x, f), old) in ({"<"}, {"<", "="}) for cj in cd)
        R.check(got == {"max_ts": True, "min_ts": True}, "lvl-range", b.relfile, "the level's time range covers the file", str(got))
    fid = LI + "update_time_range"
    b = R.body(fid)
    me = P(fid, 1)
    w = C.writes(b, "time_range")
    for p, a, cd in w:
        t = a[0]
        for f, op in (("min_ts", "min"), ("max_ts", "max")):
            x = getf(t, f)
            R.check(x is not None and folded(C, b, x, lambda q: fld(q, "time_range", f) == ("ok", ("fld", "files", me)), lambda q: q[0] == "k", op), "lvl-range", b.relfile, f"the level's {f} is that of all files", show(x)[:100] if x else show(t)[:80])
    R.check(len(w) == 1, "lvl-range", b.relfile, "the level's range is set", str(len(w)))
    # deletion of files
    fid = "<tskv::tsfamily::column_file::ColumnFile as core::ops::drop::Drop>::drop"
    b = R.body(fid)
    C = Cond(F)
    n = 0
    for c, a, cd in own_sites(C, b, lambda c: c.name.endswith("fs::remove_file") or c.name.endswith("::remove_if_exists")):
        n += 1
        R.check(bool(cd) and all(any(has(l[0], lambda x: x[0] == "fld" and x[1] == "deleted" and x[2] == P(fid, 1)) and truth(l) is True for l in cj) for cj in cd), "file-drop", c.where, "a file goes away only if it was marked as deleted", show_dnf(cd)[:100])
        R.check(has(a[0], lambda x: x == ("fld", "path", P(fid, 1))), "file-drop", c.where, "this one (or its tombstone)", show(a[0])[:80])
    R.check(n >= 1, "file-drop", b.relfile, "files are removed when dropped")
    n = 0
    for bb in F.bodies("tskv"):
        for c in bb.calls():
            if c.name.endswith("ColumnFile::mark_deleted"):
                n += 1
                R.check(bb.id.startswith(VE + "Version::copy_apply_version_edits"), "file-mark", c.where, "files are marked as deleted by a new version only", bb.id)
    fid = "tskv::tsfamily::column_file::ColumnFile::mark_compacting"
    b = core_of(R, fid)
    st = deref_stores(C, b)
    R.check(len(st) >= 1 and all(konst(v) in (1, True) for bb, i, tg, v in st), "file-comp", b.relfile, "a file is marked as being compacted")
    for cd, t in C.ret_cases(b):
        if cd and t[0] == "k":
            want = [truth(l) for cj in cd for l in cj if has(l[0], lambda x: x == ("fld", "compacting", P(fid, 1)))]
            R.check(bool(want) and all(w != (konst(t) in (1, True)) for w in want), "file-comp", b.relfile, "by one compaction at a time", show_dnf(cd)[:80])
