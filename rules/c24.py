"""The raft storage gives consensus back what it stored: log positions, vote, membership, snapshots."""
import re
from va.cond import Cond, TRUE, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L

PKGS = ["replication"]
CRATES = ["replication"]
RULE = """(1) StateStorage: the keys of different kinds or groups are different strings; every set_x writes the JSON of its value under the key
get_x reads, in one transaction that is committed before OK; del_group deletes every kind of key; a membership is also listed
under its index, and clearing keeps the newest at or below the index and everything above it. (2) NodeStorage: every state access uses the
node's own group; append cuts from the first index and appends all, under one lock; purge remembers the id, then cuts below id+1;
conflicts are cut from their index; the log state is the last entry or, if there is none, the purged id; ranges keep their bounds; applying goes
over all entries in order, by payload, one answer each, its id recorded; a snapshot's id and membership are those at the index the engine
snapshotted, and it is claimed only after it was restored. Errors are returned. (3) HeedEntryStorage stores each entry under its index and cuts [i..] or [..i]."""
SS = "replication::state_store::StateStorage::"
NS = "replication::node_store::NodeStorage::"
AR = "<alloc::rcs::arc::Arc as openraft::"
RS = AR + "RaftStorage<replication::TypeConfig>>::"
CO = "::{closure#0}"
STO = r"(StateStorage|EntryStorage|ApplyStorage)(>)?::"


def P(f, n):
    return ("param", f, n)


def call(t, suffix):
    return t[0] == "call" and t[1].endswith("::" + suffix)


def unaw(t):
    """through awaits and unwrapped results"""
    while t[0] in ("await", "ok") or t[0] == "call" and t[1] == "await" and len(t[2]) == 1:
        t = t[1] if t[0] != "call" else t[2][0]
    return t


def body(R, fid):
    b = R.body(fid)
    while R.F.get(b.id + CO) is not None and R.F.get(b.id + CO).co:
        b = R.F.get(b.id + CO)
    return b


def fid_of(b):
    return re.sub(r"(::\{closure#0\})+$", "", b.id)


def group(t, me):
    return t[0] == "fld" and t[1] == "group_id" and t[2][0] == "fld" and t[2][1] == "info" and t[2][2] == me


def run(R):
    F = R.F
    states(R, F)
    adapter(R, F)
    heed(R, F)


# ---------------------------------------------------------------- state store
def keyterm(C, F, t):
    """a call of a Key function -> its template with arguments put in"""
    return fmt_parts(t)


def states(R, F):
    C = Cond(F, no_inline=r"state_store::Key::|to_vec$|from_slice$|StateStorage::(get_membership_list|del_keys|del|reader_txn|writer_txn)$")
    keys = {}
    for b in F.bodies("replication"):
        m = re.match(r"replication::state_store::Key::(\w+)$", b.id)
        if not m:
            continue
        rs = [t for cd, t in C.ret_cases(b) if cd]
        p = fmt_parts(rs[0]) if len(rs) == 1 else None
        R.check(p is not None and all(isinstance(x, str) or x[0] == "display" and x[1][0] == "param" and not any(x[2] or ()) for x in p), "k-form", b.relfile, f"the key {m.group(1)} is a text of its arguments", f"{p}")
        keys[m.group(1)] = ["#" if not isinstance(x, str) else x for x in p or []]
        if "prefix" not in m.group(1):
            n = len(b.params()) if hasattr(b, "params") else None
            used = [x[1][2] for x in p or [] if not isinstance(x, str)]
            R.check(used == sorted(set(used)) and used[:1] == [1], "k-args", b.relfile, f"{m.group(1)} is told by its group", f"{used}")
    R.floor(len(keys), 9, "kinds of state key")
    flat = {}
    for k, p in keys.items():
        if "prefix" in k:
            continue
        R.check(not any(re.search(r"\d", x) for x in p) and all(not (p[i] == "#" and p[i + 1] == "#") for i in range(len(p) - 1)), "k-text", "replication/src/state_store.rs", f"{k}: numbers stand apart", f"{p}")
        s = "".join(p)
        R.check(s not in flat, "k-unique", "replication/src/state_store.rs", f"{k} has keys of its own", f"{s} is also {flat.get(s)}")
        flat[s] = k
    isk = lambda t: t[0] == "call" and t[1].startswith("replication::state_store::Key::")
    kn = lambda t: t[1].rsplit("::", 1)[1]
    dbm = lambda n: lambda c: re.search(r"Database(<.*>)?::%s$" % n, c.fid or c.name)
    rd, wr = {}, {}
    for b in F.bodies("replication", pat="^" + re.escape(SS) + r"\w+$"):
        name = b.id[len(SS):]
        if name in ("get", "set", "del", "open", "debug", "reader_txn", "writer_txn"):
            continue
        evs = call_events(C, b, lambda c: re.search(r"Database(<.*>)?::(put|delete|get|clear|delete_range)$|RwTxn(<.*>)?::(commit|abort)$", c.fid or c.name))
        puts = [(c, a, cd, ch) for c, a, cd, ch in evs if c.name.endswith("::put")]
        coms = [(c, a, cd, ch) for c, a, cd, ch in evs if c.name.endswith("::commit")]
        dels = [(c, a, cd, ch) for c, a, cd, ch in evs if c.name.endswith("::delete")]
        gets = [(c, a, cd, ch) for c, a, cd, ch in evs if c.name.endswith("::get")]
        if any(a[2][0] == "param" for c, a, cd, ch in puts + gets):
            # an accessor like get and set: what it is called with is seen at its callers
            R.check(all(a[2][0] == "param" for c, a, cd, ch in puts + gets) and not dels, "s-key", b.relfile, f"{name}: its key is given")
            continue
        for c, a, cd, ch in puts + gets:
            g = a[2]
            R.check(isk(g) and g[2][0] == P(b.id, 2), "s-key", c.where, f"{name}: the key is made of the group", show(g)[:80])
        if puts or dels or any(c.name.endswith("del_keys") for c in b.calls()):
            direct = bool(puts or dels)
            if direct and name != "clear_memberships":
                R.check(len({show(a[0]) for c, a, cd, ch in coms}) == 1 and all(strip(x[1][1]) == strip(coms[0][1][0]) for x in puts + dels), "s-txn", b.relfile, f"{name}: all in the transaction that is committed")
                for x in puts + dels:
                    R.check(ev_before(F, x[3], coms[0][3]), "s-commit", x[0].where, f"{name}: the commit comes after")
            for cd, t in C.full_cases(b):
                if not cd or is_err(t) or name == "clear_memberships":
                    continue
                R.check(any(l[0][0] == "disc" and has(l[0][1], lambda x: x[0] == "call" and x[1].endswith("RwTxn::commit")) and ("0" in l[1]) == l[2] for cj in cd for l in cj) and all(any(l[0][0] == "disc" and l[0][1][0] == "call" and l[0][1][1].endswith("commit") and l[1] == frozenset("0") and l[2] or has(l[0], lambda x: x[0] == "call" and x[1].endswith("commit")) for l in cj) for cj in cd) or has(t, lambda x: x[0] == "call" and x[1].endswith("commit")), "s-ok", b.relfile, f"{name}: OK only when it was committed", show_dnf(cd)[:100])
            propagates(R, F, b, lambda c: bool(re.search(r"Database(<.*>)?::(put|delete)$|RwTxn(<.*>)?::commit$|StateStorage::(set|del|del_keys|get_membership_list)$", c.fid or c.name)), "s-err", f"{name}: errors are returned")
        m = re.match(r"set_(\w+)$", name)
        if m:
            R.check(len(puts) >= 1, "s-set", b.relfile, f"{name} stores")
            v = P(b.id, 3)
            for c, a, cd, ch in puts:
                if m.group(1) == "init_flag":
                    wr.setdefault("already_init", set()).add(kn(a[2]) if isk(a[2]) else None)
                    continue
                R.check(a[3][0] == "ok" and call(a[3][1], "to_vec") and a[3][1][2][0] == v, "s-val", c.where, f"{name} stores the value it was given", show(a[3])[:80])
                if isk(a[2]) and kn(a[2]) == "membership_list":
                    ix = a[2][2][1] if len(a[2][2]) > 1 else ("?",)
                    R.check(ix[0] == "fld" and ix[1] == "index" and ix[2][0] == "ok" and call(ix[2][1], "log_id") and ix[2][1][2][0] == v, "s-list", c.where, "and lists it under the index it was decided at", show(a[2])[:100])
                    continue
                wr.setdefault(m.group(1), set()).add(kn(a[2]) if isk(a[2]) else None)
                # unconditional but for earlier failures
                stored = lambda l: l[0][0] == "disc" and not has(l[0], lambda x: x == v and not call(x, "to_vec")) or has(l[0], lambda x: call(x, "to_vec") or call(x, "set"))
                ok = C.simp({frozenset(l for l in cj if not stored(l)) for cj in cd}) == frozenset([frozenset()])
                R.check(ok, "s-always", c.where, f"{name} stores always", show_dnf(cd)[:100])
            if m.group(1) == "last_membership":
                R.check(any(isk(a[2]) and kn(a[2]) == "membership_list" for c, a, cd, ch in puts), "s-list", b.relfile, "a membership is listed under its index")
        m = re.match(r"get_(\w+)$", name)
        if m and name != "get_membership_list":
            R.check(len(gets) == 1, "s-get", b.relfile, f"{name} reads one key")
            for c, a, cd, ch in gets:
                rd.setdefault(m.group(1), set()).add(kn(a[2]) if isk(a[2]) else None)
            for cd, t in C.full_cases(b):
                if is_err(t):
                    continue
                for x in alts(t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t):
                    while x[0] == "agg" and x[1].endswith("::Some"):
                        x = x[2][0]
                    if x[0] == "agg" and x[1].endswith("::None") or konst(x) == 0 or x[0] == "call" and x[1].endswith("::default"):
                        continue
                    R.check((unaw(x)[0] == "call" and unaw(x)[1] == SS + "get" and isk(unaw(x)[2][2])) or x[0] == "ok" and call(x[1], "from_slice") and dbget(unaw(x[1][2][0])), "s-read", b.relfile, f"{name} gives what is stored", show(x)[:100])
        if name == "is_already_init":
            for c, a, cd, ch in gets:
                rd.setdefault("already_init", set()).add(kn(a[2]) if isk(a[2]) else None)
            for cd, t in C.ret_cases(b):
                if cd and not is_err(t):
                    v = show(t[2][0])
                    if v not in ("true", "false"):
                        for tv in (True, False):
                            for cj in C.conj(cd, C.norm(t[2][0], ["1"], tv)):
                                R.check(any(l[0][0] == "disc" and l[0][1][0] == "ok" and dbget(l[0][1][1]) and (("1" in l[1]) == l[2]) == tv for l in cj), "s-init", b.relfile, "initialised exactly when the flag is stored", f"{v} if {show_dnf(cd)[:100]}")
                        continue
                    some = all(any(l[0][0] == "disc" and l[0][1][0] == "ok" and dbget(l[0][1][1]) and (("1" in l[1]) == l[2]) == (v == "true") for l in cj) for cj in cd)
                    R.check(some and v in ("true", "false"), "s-init", b.relfile, "initialised exactly when the flag is stored", f"{v} if {show_dnf(cd)[:100]}")
        if name == "del_group":
            gone = {kn(a[2]) for c, a, cd, ch in dels if isk(a[2])}
            need = {k for k in keys if "prefix" not in k and k != "membership_list"}
            for k in sorted(need):
                R.check(k in gone, "d-all", b.relfile, f"removing a group removes its {k}")
            ml = [a for c, a, cd, ch in dels if not isk(a[2])]
            R.check(any(has(a[2], lambda x: call(x, "get_membership_list") and x[2][1] == P(b.id, 2)) for a in ml), "d-list", b.relfile, "and its listed memberships")
            for c, a, cd, ch in dels:
                if isk(a[2]):
                    R.check(a[2][2] == (P(b.id, 2),), "d-own", c.where, "of that group only", show(a[2])[:60])
        if name == "get_membership_list":
            s = own_sites(C, b, lambda c: re.search(r"prefix_iter$", c.name))
            pf = keys.get("membership_list_prefix")
            R.check(len(s) == 1 and isk(s[0][1][2]) and kn(s[0][1][2]) == "membership_list_prefix" and s[0][1][2][2] == (P(b.id, 2),) and keys.get("membership_list", [])[: len(pf or [1])] == pf and (pf or "#")[-1] != "#", "l-prefix", b.relfile, "the listed memberships of the group are those with its prefix", f"{pf} {keys.get('membership_list')}")
            for c, a, cd in own_sites(C, b, lambda c: re.search(r"Map(<.*>)?::insert$", c.name)):
                it = lambda t: unaw(t)
                R.check(a[1][0] == "fld" and a[1][1] == "0" and a[2][0] == "ok" and call(a[2][1], "from_slice") and a[2][1][2][0] == ("fld", "1", a[1][2]), "l-pair", c.where, "each under its own key", show(a[1])[:60])
        if name == "clear_memberships":
            window(R, F, C, b, "c")
            pops = own_sites(C, b, lambda c: c.name.endswith("Vec::pop"))
            s = own_sites(C, b, lambda c: c.name.endswith("del_keys"))
            R.check(len(pops) == 1 and len(s) == 1 and any(precedes_c(F, p[0], s[0][0]) for p in pops), "c-keep", b.relfile, "clearing keeps the newest of them")
            for c, a, cd in s:
                cl = next((closure_id(x) for x in walk(a[1]) if closure_id(x)), None)
                g = F.get(cl) if cl else None
                pu = [(p, pa, pc) for p, pa, pc in own_sites(C, b, lambda c: c.name.endswith("Vec::push")) if pa[0] == a[1]]
                if g is None and len(pu) == 1:
                    p, pa, pc = pu[0]
                    lst = pa[1][2][1] if pa[1][0] == "fld" and pa[1][1] == "0" and pa[1][2][0] == "ok" else None
                    R.check(lst is not None and has(lst, lambda x: call(x, "get_membership_list")) and all(l[0][0] == "disc" and (l[0][1][0] == "call" and l[0][1][1].endswith("::next") or l[0][1] == lst or mentions(lst, l[0][1])) for cj in pc for l in cj), "c-del", p.where, "and deletes the keys of the others", f"{show(pa[1])[:80]} if {show_dnf(pc)[:100]}")
                    continue
                ok = g is not None and all(t[0] == "fld" and t[1] == "0" for cd2, t in C.ret_cases(g) if cd2) or a[1][0] == "fld" and a[1][1] == "0"
                R.check(ok and has(a[1], lambda x: call(x, "get_membership_list")), "c-del", c.where, "and deletes the keys of the others", show(a[1])[:80])
    for k in sorted(set(rd) | set(wr)):
        R.check(rd.get(k) == wr.get(k) and len(rd.get(k, ())) == 1 and None not in rd.get(k, ()), "s-pair", "replication/src/state_store.rs", f"{k} is read where it is written", f"{rd.get(k)} {wr.get(k)}")
    owner = {}
    for k, v in wr.items():
        for x in v:
            R.check(x not in owner, "s-own", "replication/src/state_store.rs", f"{k} has a key of its own", f"{x} is also {owner.get(x)}'s")
            owner[x] = k
    R.floor(len(wr), 8, "stored states")
    b = R.body(SS + "all_nodes_summary")
    s = own_sites(C, b, lambda c: c.name.endswith("prefix_iter"))
    R.check(len(s) == 1 and "".join(keys.get("node_summary", []))[:-1] == show(s[0][1][2]).strip('"'), "n-prefix", b.relfile, "all summaries are listed by their prefix", show(s[0][1][2]) if s else "")
    b = F.get(SS + "get")
    if b is not None:
        for cd, t in C.ret_cases(b):
            if not cd or is_err(t):
                continue
            x = t[2][0]
            if x[0] == "agg" and x[1].endswith("::None"):
                R.check(all(any(l[0][0] == "disc" and l[0][1][0] == "ok" and dbget(l[0][1][1]) and ("1" in l[1]) != l[2] for l in cj) for cj in cd), "s-none", b.relfile, "nothing only when nothing is stored", show_dnf(cd)[:100])
            else:
                v = x[2][0] if x[0] == "agg" and x[1].endswith("::Some") else x
                if v[0] == "call" and v[1].endswith("::map"):
                    v = C.T.ok(C.T.ok(v))
                g = [y for y in walk(v) if dbget(y)]
                R.check(v[0] == "ok" and call(v[1], "from_slice") and len(g) == 1 and g[0][2][2] == P(b.id, 3) and unaw(v[1][2][0]) == g[0], "s-some", b.relfile, "what is stored under the key is read", show(v)[:100])
    for sub, want in (("writer_txn", "write_txn"), ("reader_txn", "read_txn")):
        b = R.body(SS + sub)
        R.check(any(c.name.endswith("::" + want) for c in b.calls()), "s-kind", b.relfile, f"{sub} is a {want}")


def dbget(t):
    return t[0] == "call" and bool(re.search(r"Database(<.*>)?::get$", t[1]))


def strip(t):
    return L.strip_site(t)


def precedes_c(F, c, d):
    return c.body.id == d.body.id and precedes(c.body, c.bb, d.bb)


def window(R, F, C, b, tag):
    """the list is sorted by index and cut to those at or below the index given"""
    idx = P(b.id, 3) if tag == "c" else P(b.id, 2)
    so = own_sites(C, b, lambda c: re.search(r"::sort(_unstable)?_by(_cached)?_key$", c.name))
    re_ = own_sites(C, b, lambda c: re.search(r"::retain$|Iterator(<.*>)?>?::filter$", c.fid or c.name))
    if not so:
        so = own_sites(C, b, lambda c: re.search(r"::max_by_key$", c.fid or c.name))
    ismine = lambda t: t[0] == "fld" and t[1] == "index" and has(t, lambda x: call(x, "log_id"))
    R.check(len(so) == 1 and all(ismine(t) for cd, t in C.ret_cases(F.get(closure_id(so[0][1][1]))) if cd), tag + "-sort", b.relfile, "memberships are ordered by their index")
    ok = len(re_) == 1 and closure_id(re_[0][1][1])
    if ok:
        g = F.get(closure_id(re_[0][1][1]))
        d = closure_true(C, g.id)
        ok = bool(d) and all(rels(cj, ismine, lambda x: x == idx or x[0] in ("upvar", "param", "fld") and not ismine(x)) == {"<", "="} for cj in d)
    R.check(ok, tag + "-upto", b.relfile, "those at or below the index are taken")
    R.check(len(so) == 1 and len(re_) == 1, tag + "-list", b.relfile, "once")


# ---------------------------------------------------------------- adapter
def sub1(t):
    """x for x + 1"""
    p = L.lin(t)
    return p


def adapter(R, F):
    C = Cond(F, no_inline=STO)
    METH = {}
    for b in F.bodies("replication"):
        m = re.match(re.escape(AR) + r"(RaftStorage|RaftLogReader|RaftSnapshotBuilder)<replication::TypeConfig>>::(\w+)$", b.id)
        if m:
            METH[m.group(2)] = body(R, b.id)
    R.floor(len(METH), 12, "storage callbacks")
    own = {n: body(R, NS + n) for n in ("get_snapshot_log_id", "get_snapshot_membership", "get_snapshot_meta", "create_snapshot", "apply_snapshot", "destory")}
    n = 0
    for nm, b in list(METH.items()) + list(own.items()):
        me = P(fid_of(b), 1)
        for c, a, cd in own_sites(C, b, lambda c: re.search(r"StateStorage::\w+$", c.fid or c.name)):
            n += 1
            R.check(group(a[1], me), "a-group", c.where, "the node's own group is meant", show(a[1])[:80])
        # the clearing of old memberships only frees space: it may fail
        propagates(R, F, b, lambda c: bool(re.search(STO + r"(?!clear_memberships)\w+$", c.fid or c.name)), "a-err", f"{nm}: errors are returned")
    R.floor(n, 15, "state accesses")

    def sites(b, suf):
        return own_sites(C, b, lambda c: (c.fid or c.name).endswith("::" + suf))

    def okrets(b):
        return [(cd, t) for cd, t in C.full_cases(b) if cd and not is_err(t)]

    # log
    b = METH["append_to_log"]
    f = fid_of(b)
    ents = P(f, 2)
    ap, de = sites(b, "append"), sites(b, "del_after")
    if R.check(len(ap) == 1 and len(de) == 1, "g-append", b.relfile, "entries are appended once, after one cut"):
        R.check(ap[0][1][1] == ents, "g-all", ap[0][0].where, "all of them", show(ap[0][1][1])[:80])
        R.check(firstidx(C, F, de[0][1][1], ents), "g-cut", de[0][0].where, "the log is cut from the first new index", show(de[0][1][1])[:100])
        R.check(ap[0][1][0] == de[0][1][0], "g-lock", ap[0][0].where, "under one lock", f"{show(ap[0][1][0])} / {show(de[0][1][0])}")
        R.check(precedes_c(F, de[0][0], ap[0][0]) and not precedes_c(F, ap[0][0], de[0][0]), "g-order", ap[0][0].where, "the cut comes first")
        for cd, t in okrets(b):
            for cj in cd:
                em = any(l[0][0] == "call" and l[0][1].endswith("is_empty") and ("1" in l[1]) == l[2] or l[0] == ("disc", ents) and ("1" in l[1]) != l[2] for l in cj)
                did = any(l[0][0] == "disc" and call(unaw(l[0][1]), "append") and ("0" in l[1]) == l[2] for l in cj)
                R.check(em or did, "g-ok", b.relfile, "OK means appended", show_dnf(frozenset([cj]))[:120])
    b = METH["delete_conflict_logs_since"]
    s = sites(b, "del_after")
    R.check(len(s) == 1 and s[0][1][1] == ("fld", "index", P(fid_of(b), 2)) and s[0][2] == TRUE, "g-conflict", b.relfile, "conflicting entries are cut from the index given", show(s[0][1][1])[:80] if s else "")
    b = METH["purge_logs_upto"]
    p2 = P(fid_of(b), 2)
    s, d = sites(b, "set_last_purged"), sites(b, "del_before")
    R.check(len(s) == 1 and s[0][1][2] == p2 and s[0][2] == TRUE, "p-mark", b.relfile, "the purged id is remembered", show(s[0][1][2])[:60] if s else "")
    ok = len(d) == 1 and L.lin(d[0][1][1]) is not None and L.lin(d[0][1][1]) == L.add(L.lin(("fld", "index", p2)), {(): 1})
    if d and not ok:
        ok = show(d[0][1][1]) == f"({show(('fld', 'index', p2))} Add 1_u64)"
    R.check(ok, "p-cut", b.relfile, "the log is cut below the next index", show(d[0][1][1])[:80] if d else "")
    R.check(s and d and precedes_c(F, s[0][0], d[0][0]) and not precedes_c(F, d[0][0], s[0][0]), "p-order", b.relfile, "remembered before it is cut")
    b = METH["get_log_state"]
    for cd, t in okrets(b):
        t = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
        pu, la = getf(t, "last_purged_log_id"), getf(t, "last_log_id")
        ispu = lambda x: x[0] == "ok" and call(x[1], "get_last_purged")
        R.check(ispu(pu), "q-purged", b.relfile, "the purged id is the one remembered", show(pu)[:80])
        kinds = set()
        las = [y for x in alts(la) for y in (x[2] if x[0] == "call" and re.search(r"Option(<.*>)?::or$", x[1]) else [x])]
        for x in las:
            if x[0] == "call" and re.search(r"Option(<.*>)?::map$", x[1]) and F.get(closure_id(x[2][1]) or ""):
                x = next((r if r[0] != "fld" or r[1] != "log_id" else ("fld", "log_id", x[2][0]) for cd2, r in C.ret_cases(F.get(closure_id(x[2][1]))) if cd2), x)
            if ispu(x):
                kinds.add("purged")
            elif x[0] == "agg" and x[1].endswith("::Some") and x[2][0][0] == "fld" and x[2][0][1] == "log_id" and call(unaw(x[2][0][2]), "last_entry"):
                kinds.add("entry")
            elif x[0] == "fld" and x[1] == "log_id" and call(unaw(x[2]), "last_entry"):
                kinds.add("entry")
            else:
                kinds.add(show(x)[:60])
        R.check(kinds == {"purged", "entry"}, "q-last", b.relfile, "the last id is that of the last entry, else the purged one", f"{kinds}")
    b = METH["try_get_log_entries"]
    s = sites(b, "entries")
    if R.check(len(s) == 1, "r-read", b.relfile, "a range is read"):
        rg = P(fid_of(b), 2)
        for k, fn, pl in ((1, "start_bound", "Excluded"), (2, "end_bound", "Included")):
            seen = set()
            for x in alts(s[0][1][k]):
                bd = [y for y in walk(x) if y[0] == "fld" and y[1] == "0" and y[2][0] == "fld" and y[2][1] in ("Included", "Excluded") or y[0] == "fld" and re.match(r"(Included|Excluded)\.0", str(y[1]))]
                v = re.search(r"(Included|Excluded)", show(x))
                plus = show(x).endswith(" Add 1_u64)")
                if v:
                    R.check(f"::{fn}" in show(x) and (v.group(1) == pl) == plus and re.sub(r"[()]|Add 1_u64| ", "", show(x)).count("Add") == 0, "r-bound", s[0][0].where, f"the {fn.replace('_', ' ')} is kept", show(x)[:90])
                    seen.add(v.group(1))
                else:
                    lim = konst(x)
                    R.check((lim == 0 or show(x) in ("0", "0_u64")) if k == 1 else ("MAX" in show(x) or lim == 2**64 - 1), "r-open", s[0][0].where, "an open end takes everything", show(x)[:60])
                    seen.add("open")
            R.check(seen == {"Included", "Excluded", "open"}, "r-all", s[0][0].where, f"every kind of {fn.replace('_', ' ')}", f"{seen}")
        for cd, t in okrets(b):
            t = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
            R.check(call(unaw(t), "entries"), "r-ret", b.relfile, "what was read is given", show(t)[:80])
    # vote
    b = METH["save_vote"]
    s = sites(b, "set_vote")
    R.check(len(s) == 1 and s[0][1][2] == P(fid_of(b), 2) and s[0][2] == TRUE, "v-save", b.relfile, "the vote is stored")
    b = METH["read_vote"]
    for cd, t in okrets(b):
        t = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
        R.check(t[0] == "ok" and call(t[1], "get_vote"), "v-read", b.relfile, "the stored vote is given", show(t)[:80])
    b = METH["last_applied_state"]
    for cd, t in okrets(b):
        t = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
        R.check(t[0] == "agg" and len(t[2]) == 2 and t[2][0][0] == "ok" and call(t[2][0][1], "get_last_applied_log") and t[2][1][0] == "ok" and call(t[2][1][1], "get_last_membership"), "v-applied", b.relfile, "the applied id and membership are the stored ones", show(t)[:100])
    applying(R, F, C, METH["apply_to_state_machine"])
    snapshots(R, F, C, METH, own)


def unaw_ok(t, suf):
    return call(unaw(t), suf) and t[0] == "ok"


def firstidx(C, F, t, ents):
    x = t
    fst = lambda y: y == ents or y[0] == "call" and y[1].endswith("[T]::first") and y[2][0] == ents
    if x[0] == "call" and re.search(r"Option(<.*>)?::(map_or|map_or_else)$", x[1]):
        g = F.get(closure_id(x[2][-1])) if closure_id(x[2][-1]) else None
        if not fst(x[2][0]) or g is None:
            return False
        return all(r[0] == "fld" and r[1] == "index" and r[2][0] == "fld" and r[2][1] == "log_id" for cd, r in C.ret_cases(g) if cd)
    if x[0] == "phi" or x[0] == "alt":
        ys = [y for y in alts(x) if konst(y) != 0]
        return len(ys) == 1 and firstidx(C, F, ys[0], ents)
    if x[0] == "ok":
        return firstidx(C, F, x[1], ents)
    if x[0] == "fld" and x[1] == "index" and x[2][0] == "fld" and x[2][1] == "log_id":
        y = x[2][2]
        return y[0] == "ok" and fst(y[1]) or y[0] == "idx" and y[1] == ents and konst(y[2]) == 0
    return False


def applying(R, F, C, b):
    f = fid_of(b)
    ents = P(f, 2)
    it = ("ok", ents)
    lid = ("fld", "log_id", it)
    s = own_sites(C, b, lambda c: re.search(STO + r"\w+$", c.fid or c.name))
    by = {}
    for c, a, cd in s:
        by.setdefault((c.fid or c.name).rsplit("::", 1)[1], []).append((c, a, cd))
    la = by.get("set_last_applied_log", [])
    R.check(len(la) >= 1, "y-mark", b.relfile, "the applied id is recorded")
    for c, a, cd in la:
        R.check(a[2] == lid, "y-mark", c.where, "the entry's own id is recorded as applied", show(a[2])[:60])
    pay = lambda l: l[0][0] == "disc" and l[0][1] == ("fld", "payload", it)
    NORM, MEMB = discr(F, "EntryPayload", "Normal") or "1", discr(F, "EntryPayload", "Membership") or "2"
    ap = by.get("apply", [])
    R.check(len(ap) == 1, "y-apply", b.relfile, "a command is applied")
    for c, a, cd in ap:
        R.check(all(any(pay(l) and l[1] == frozenset([NORM]) and l[2] for l in cj) for cj in cd), "y-normal", c.where, "exactly for a command", show_dnf(cd)[:140])
        R.check(len(cd) == 1 and all(pay(l) or unaw(l[0][1]) == ents or l[0][1] == ents or call(unaw(l[0][1]), "set_last_applied_log") for cj in cd for l in cj), "y-normal", c.where, "under no other condition", show_dnf(cd)[:160])
        ctx = a[1]
        if R.check(ctx[0] == "agg", "y-ctx", c.where, "with its context", show(ctx)[:60]):
            R.check(getf(ctx, "index") == ("fld", "index", lid) and getf(ctx, "raft_id") == ("fld", "id", P(f, 1)) and show(getf(ctx, "apply_type")).endswith("APPLY_TYPE_WRITE"), "y-ctx", c.where, "the entry's index and this node, as a write", show(ctx)[:120])
        R.check(has(a[2], lambda x: x == ("fld", "payload", it)) and "Normal" in show(a[2]), "y-cmd", c.where, "the entry's command", show(a[2])[:80])
        early = any(precedes_c(F, x[0], c) for x in la)
        R.check(not early, "applied-early", b.relfile, "an entry counts as applied only once the engine has taken it", "set_last_applied_log is committed before engine.apply")
    me = by.get("set_last_membership", [])
    R.check(len(me) == 1, "y-memb", b.relfile, "a membership is stored")
    for c, a, cd in me:
        R.check(all(any(pay(l) and l[1] == frozenset([MEMB]) and l[2] for l in cj) for cj in cd), "y-memb", c.where, "exactly for a membership entry", show_dnf(cd)[:140])
        t = a[2]
        R.check(t[0] in ("call", "agg") and t[2][0][0] == "agg" and t[2][0][2] == (lid,) and "Membership" in show(t[2][1]) and has(t[2][1], lambda x: x == ("fld", "payload", it)), "y-memb", c.where, "with the id it was decided at", show(t)[:100])
    # one answer per entry
    pu = own_sites(C, b, lambda c: c.name.endswith("Vec::push"))
    seen = {}
    buf = {show(a[0]) for c, a, cd in pu}
    for c, a, cd in pu:
        ks = {frozenset(l[1]) if l[2] else None for cj in cd for l in cj if pay(l)}
        for k in ks or {None}:
            for v in (k or {"any"}):
                seen.setdefault(v, []).append(c.where)
        if ks == {frozenset([NORM])}:
            R.check(call(unaw(a[1]), "apply"), "y-ans", c.where, "a command's answer is the engine's", show(a[1])[:80])
    R.check({k: len(v) for k, v in seen.items()} in ({"0": 1, NORM: 1, MEMB: 1}, {"any": 1}), "y-one", b.relfile, "one answer for each entry", f"{ {k: len(v) for k, v in seen.items()} }")
    for cd, t in C.full_cases(b):
        if cd and not is_err(t):
            R.check(t[0] == "agg" and len(buf) == 1 and show(t[2][0]) in buf, "y-ret", b.relfile, "all answers are given", show(t)[:80])
    cls = lambda c: {"mark"} if (c.fid or c.name).endswith("set_last_applied_log") else {"push"} if c.name.endswith("Vec::push") else ()
    every_item(R, F, b.id, lambda t: t == ents, cls, {"mark", "push"}, "y-each", "every entry is recorded and answered")
    # one critical section
    R.check(all(len({show(x[1][0]) for x in by.get("apply", [])}) == 1 for _ in (0,)), "y-lock", b.relfile, "in one critical section of the engine")


def snapshots(R, F, C, METH, own):
    def sites(b, suf):
        return own_sites(C, b, lambda c: (c.fid or c.name).endswith("::" + suf))
    b = own["apply_snapshot"]
    f = fid_of(b)
    meta = ("fld", "meta", P(f, 2))
    rs = sites(b, "restore")
    R.check(len(rs) == 1 and rs[0][1][1] == ("fld", "data", P(f, 2)) and rs[0][2] == TRUE, "z-restore", b.relfile, "the snapshot's data is restored", show(rs[0][1][1])[:60] if rs else "")
    for nm in ("set_last_applied_log", "set_snapshot_applied_log", "set_last_membership"):
        s = sites(b, nm)
        if R.check(len(s) == 1, "z-claim", b.relfile, f"{nm} is done"):
            v = s[0][1][2]
            vs = [x for x in alts(v) if not (x[0] == "call" and x[1].endswith("::default"))]
            want = ("fld", "last_membership", meta) if "member" in nm else ("fld", "last_log_id", meta)
            R.check(len(vs) == 1 and (vs[0] == want or vs[0] == ("ok", want)), "z-value", s[0][0].where, "with the snapshot's own", show(v)[:80])
            R.check(rs and precedes_c(F, rs[0][0], s[0][0]) and not precedes_c(F, s[0][0], rs[0][0]), "z-order", s[0][0].where, "only after the data was restored")
    b = METH["install_snapshot"]
    f = fid_of(b)
    s = sites(b, "apply_snapshot")
    ok = len(s) == 1 and s[0][1][0] == P(f, 1) and s[0][1][1][0] == "agg" and getf(s[0][1][1], "meta") == P(f, 2) and getf(s[0][1][1], "data") == P(f, 3)
    R.check(ok, "z-install", b.relfile, "the snapshot that came is applied", show(s[0][1][1])[:100] if s else "")
    R.check(len(sites(b, "create_snapshot")) >= 1 and s and all(precedes_c(F, s[0][0], x[0]) for x in sites(b, "create_snapshot") if x[0].body.id == s[0][0].body.id), "z-own", b.relfile, "and a snapshot of its own is taken")
    # building
    C2 = Cond(F, no_inline=STO + r"|get_snapshot_meta$|get_snapshot_log_id$|get_snapshot_membership$")
    for b, fn in ((own["create_snapshot"], "create_snapshot"), (METH["get_current_snapshot"], "get_snapshot")):
        got = 0
        for cd, t in C2.full_cases(b):
            if not cd or is_err(t):
                continue
            x = t
            while x[0] == "agg" and x[1].endswith(("::Ok", "::Some")):
                x = x[2][0]
            if x[0] == "agg" and x[1].endswith("::None"):
                R.check(all(any(l[0][0] == "disc" and unaw_ok(l[0][1], fn) and ("1" in l[1]) != l[2] for l in cj) for cj in cd), "b-none", b.relfile, "no snapshot only when the engine has none", show_dnf(cd)[:120])
                continue
            data, m = getf(x, "data") if fn == "create_snapshot" else getf(x, "snapshot"), getf(x, "meta")
            if not has(data, lambda y: call(y, fn)):
                R.check(all(any(l[0][0] == "disc" and unaw_ok(l[0][1], "get_last_applied_log") and ("1" in l[1]) != l[2] for l in cj) for cj in cd), "b-empty", b.relfile, "an empty snapshot only when nothing was applied", show_dnf(cd)[:120])
                continue
            got += 1
            eng = [y for y in walk(data) if call(y, fn)][0]
            mc = [y for y in walk(m) if call(y, "get_snapshot_meta") or y[0] == "agg" and "get_snapshot_meta" in y[1]]
            R.check(len(mc) == 1 and mc[0][2][1][0] == "fld" and mc[0][2][1][1] == "1" and unaw(mc[0][2][1][2]) == eng, "b-index", b.relfile, "the snapshot is described at the index the engine snapshotted", show(m)[:120])
            dd = [y for y in walk(data) if y[0] == "fld" and unaw(y[2]) == eng]
            R.check(len(dd) == 1 and dd[0][1] == "0", "b-data", b.relfile, "with the engine's data", show(data)[:80])
            if fn == "create_snapshot":
                R.check(eng[2][1][0] == "fld" and eng[2][1][1] == "index" and call(unaw(eng[2][1][2]), "get_last_applied_log"), "b-applied", b.relfile, "taken at the applied index", show(eng[2][1])[:80])
        R.check(got == 1, "b-some", b.relfile, "a snapshot is given")
    b = METH["build_snapshot"]
    for cd, t in C2.full_cases(b):
        if cd and not is_err(t):
            x = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
            m, d = getf(x, "meta"), getf(x, "snapshot")
            R.check(m[0] == "fld" and m[1] == "meta" and has(d, lambda y: y == ("fld", "data", m[2])) or has(m, lambda y: "get_snapshot_meta" in str(y[1]) if len(y) > 1 else False) or has(x, lambda y: call(y, "default")), "b-built", b.relfile, "description and data belong together", show(x)[:120])
    b = own["get_snapshot_meta"]
    for cd, t in C2.full_cases(b):
        if not cd or is_err(t):
            continue
        x = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else t
        i = P(fid_of(b), 2)
        li, lm, si = getf(x, "last_log_id"), getf(x, "last_membership"), getf(x, "snapshot_id")
        nm = lambda t, s: [y for y in walk(t) if (y[0] == "call" or y[0] == "agg") and s in y[1]]
        R.check(nm(li, "get_snapshot_log_id") and nm(li, "get_snapshot_log_id")[0][2][1] == i, "m-id", b.relfile, "the id at that index", show(li)[:80])
        R.check(nm(lm, "get_snapshot_membership") and nm(lm, "get_snapshot_membership")[0][2][1] == i, "m-memb", b.relfile, "the membership at that index", show(lm)[:80])
    b = own["get_snapshot_log_id"]
    i = P(fid_of(b), 2)
    k = 0
    for cd, t in C.full_cases(b):
        if not cd or is_err(t):
            continue
        x = t[2][0]
        if x[0] == "agg" and x[1].endswith("::None"):
            continue
        v = x[2][0] if x[0] == "agg" and x[1].endswith("::Some") else C.T.ok(x)
        if x[0] == "call":
            # returned as it is: what its being Some means
            cd = C.conj(cd, C.norm(("disc", x), ["1"], True))
        k += 1
        src = unaw(v if v[0] != "fld" else v[2])
        R.check(any(call(src, s) for s in ("entry", "get_snapshot_applied_log", "get_last_applied_log")) and (not call(src, "entry") or v[0] == "fld" and v[1] == "log_id" and src[2][1] == i), "m-from", b.relfile, "an id that was decided", show(v)[:80])
        isx = lambda y: y == ("fld", "index", v)
        R.check(all(rels(cj, isx, i) == {"="} for cj in cd), "m-same", b.relfile, "of exactly that index", f"{show(v)[:60]} if {show_dnf(cd)[:120]}")
    R.floor(k, 3, "sources of a snapshot's id")
    b = own["get_snapshot_membership"]
    window(R, F, C, b, "m")
    for cd, t in C.full_cases(b):
        if not cd or is_err(t):
            continue
        for x in alts(t[2][0] if t[0] == "agg" else C.T.ok(t)):
            a = x[0] == "ok" and call(x[1], "get_last_membership")
            e = x[2] if x[0] == "fld" and x[1] == "1" else x
            l = x[0] == "fld" and x[1] == "1" and has(x, lambda y: y[0] == "call" and re.search(r"::last$|::pop$", y[1])) and has(x, lambda y: call(y, "get_membership_list"))
            l = l or e[0] == "ok" and e[1][0] == "call" and e[1][1].endswith("::max_by_key") and has(e, lambda y: call(y, "get_membership_list"))
            R.check(a or l, "m-newest", b.relfile, "the newest of them, else the stored one", show(x)[:100])
    b = own["destory"]
    for s in ("del_group", "destory", "destroy"):
        R.check(len(own_sites(C, b, lambda c: (c.fid or c.name).endswith("::" + s))) >= 1, "x-all", b.relfile, "destroying removes state, engine and log", s)


# ---------------------------------------------------------------- heed log
def heed(R, F):
    E = "<replication::entry_store::HeedEntryStorage as replication::EntryStorage>::"
    C = Cond(F)

    def db(b, n):
        return own_sites(C, b, lambda c: re.search(r"Database(<.*>)?::%s$" % n, c.fid or c.name))

    def hb(n):
        b = R.body(E + n)
        return R.F.get(b.id + CO) or b
    b = hb("append")
    f = fid_of(b)
    s = db(b, "put")
    it = ("ok", P(f, 2))
    R.check(len(s) == 1 and s[0][1][2] == ("fld", "index", ("fld", "log_id", it)) and s[0][1][3][0] == "ok" and call(s[0][1][3][1], "serialize") and s[0][1][3][1][2][0] == it, "h-put", b.relfile, "each entry is stored under its index", f"{[show(x)[:60] for x in s[0][1]]}" if s else "")
    every_item(R, F, b.id, lambda t: t == P(f, 2), lambda c: {"put"} if re.search(r"Database(<.*>)?::put$", c.fid or c.name) else (), {"put"}, "h-each", "every entry is stored")
    for n in ("append", "del_after", "del_before"):
        b = hb(n)
        cm = own_sites(C, b, lambda c: c.name.endswith("::commit"))
        w = own_sites(C, b, lambda c: re.search(r"Database(<.*>)?::(put|delete_range)$", c.fid or c.name))
        R.check(len(cm) == 1 and w and all(x[1][1] == cm[0][1][0] and precedes_c(F, x[0], cm[0][0]) for x in w), "h-commit", b.relfile, f"{n}: committed after it was written")
        propagates(R, F, b, lambda c: bool(re.search(r"Database(<.*>)?::(put|delete_range)$|::commit$|::serialize$", c.fid or c.name)), "h-err", f"{n}: errors are returned")
        for cd, t in C.ret_cases(b):
            if cd and not is_err(t):
                R.check(all(any(l[0][0] == "call" and l[0][1].endswith("is_empty") and ("1" in l[1]) == l[2] for l in cj) or any(l[0][0] == "disc" and call(l[0][1], "commit") and ("0" in l[1]) == l[2] for l in cj) for cj in cd) or n == "append" and any("commit" in show(l[0]) for cj in cd for l in cj), "h-ok", b.relfile, f"{n}: OK means committed", show_dnf(cd)[:100])
    for n, kind in (("del_after", "RangeFrom"), ("del_before", "RangeTo")):
        b = hb(n)
        s = db(b, "delete_range")
        r = s[0][1][2] if s else ("?",)
        R.check(len(s) == 1 and r[0] == "agg" and r[1].split("::")[-1] == kind and r[2] == (P(fid_of(b), 2),), "h-range", b.relfile, f"{n} removes exactly its side", show(r)[:60])
    b = hb("entries")
    s = db(b, "range")
    f = fid_of(b)
    r = s[0][1][2] if s else ("?",)
    R.check(len(s) == 1 and r[0] == "agg" and r[1].split("::")[-1] == "Range" and r[2] == (P(f, 2), P(f, 3)), "h-slice", b.relfile, "a range is read from low to below high", show(r)[:80])
    de = lambda t: t[0] == "ok" and call(t[1], "deserialize")
    pu = own_sites(C, b, lambda c: c.name.endswith("Vec::push"))
    R.check(len(pu) == 1 and de(pu[0][1][1]) and has(pu[0][1][1], lambda x: x[0] == "fld" and x[1] == "1" and has(x, lambda y: call(y, "range"))), "h-read", b.relfile, "each entry of it", show(pu[0][1][1])[:80] if pu else "")
    for n, src in (("entry", "get"), ("last_entry", "last")):
        b = hb(n)
        for cd, t in C.full_cases(b):
            if not cd or is_err(t):
                continue
            x = t[2][0]
            if x[0] == "agg" and x[1].endswith("::None"):
                R.check(all(any(l[0][0] == "disc" and l[0][1][0] == "ok" and call(l[0][1][1], src) and ("1" in l[1]) != l[2] for l in cj) for cj in cd), "h-none", b.relfile, f"{n}: none only when none is stored", show_dnf(cd)[:100])
                continue
            v = x[2][0] if x[0] == "agg" else x
            g = [y for y in walk(v) if call(y, src)]
            R.check(de(v) and len(g) == 1 and (src == "last" or g[0][2][2] == P(fid_of(b), 2)), "h-found", b.relfile, f"{n}: the stored entry", show(v)[:100])
