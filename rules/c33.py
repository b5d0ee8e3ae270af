"""The metadata store: every command changes exactly what it names, and says so."""
import re
from va.cond import Cond, konst, show_dnf
from va.terms import walk, show, alts, getf
from va.lib import *
from va import lin as L

PKGS = ["meta"]
CRATES = ["meta", "models"]
RULE = """(1) Keys: every KeyPath function writes its own template, all arguments once and in order, cluster first; two kinds of entity never share
a key; a collection is the parent of its entries. (2) insert/remove write the pair (or its absence) and version+1 in one transaction, commit, and
announce the same version, key and value; failures are returned. (3) For every WriteCommand the set of inserts and removes reached from
process_write_command, with keys and values as terms over the command's fields and the conditions they stand under, is compared with the
command's effect table. (4) For every ReadCommand likewise the keys it reads. (5) Sequence numbers are never handed out twice.
(6) A snapshot holds every pair and restoring replaces everything, in one transaction, and empties the change log."""
SM = "meta::store::storage::StateMachine::"
KP = "meta::store::key_path::KeyPath::"
ST = "meta/src/store/storage.rs"
TYE = {}
CC = []


def P(f, n):
    return ("param", f, n)


def call(t, suffix):
    return t[0] == "call" and (t[1].endswith("::" + suffix) or t[1] == suffix)


def unok(t):
    while t[0] in ("ok", "await"):
        t = t[1]
    return t


def run(R):
    F = R.F
    keys = templates(R, F)
    primitives(R, F)
    commands(R, F)
    reads(R, F)
    ids(R, F)
    snapshot(R, F)


# ---------------------------------------------------------------- keys
COLL = {"users": "user", "data_nodes": "data_node_id", "data_nodes_metrics": "data_node_metrics", "tenant_dbs": "tenant_db_name",
        "tenant_db_buckets": "tenant_bucket_id", "tenant_schemas": "tenant_schema_name", "tenants": "tenant", "roles": "role",
        "members": "member", "queries": "query"}
GLOBAL = ("version", "test_alive", "already_init")


def templates(R, F):
    C = Cond(F)
    out = {}
    for b in F.bodies("meta", pat="^" + re.escape(KP) + r"\w+$"):
        n = b.id[len(KP):]
        rs = [t for cd, t in C.ret_cases(b) if cd]
        p = None
        if len(rs) == 1:
            p = fmt_parts(rs[0])
            if p is None:
                try:
                    p = [re.match(r'^(?:\w+::)*(?:to_string|from|to_owned|into|clone)?\(?"(.*)"\)?$', show(rs[0])).group(1)]
                except AttributeError:
                    p = None
        ok = p is not None and all(isinstance(x, str) or x[0] == "display" and x[1][0] == "param" and not any(x[2] or ()) for x in p)
        R.check(ok, "k-form", b.relfile, f"the key {n} is made of text and its arguments", show(rs[0])[:140] if rs else "nothing")
        if not ok:
            continue
        used = [x[1][2] for x in p if not isinstance(x, str)]
        R.check(used == list(range(1, b.argc + 1)), "k-args", b.relfile, f"{n} uses its arguments once and in order", str(used))
        s = "".join("#" if not isinstance(x, str) else x for x in p)
        R.check(s.startswith("/#/") if n not in GLOBAL else s.startswith("/") and "#" not in s, "k-cluster", b.relfile, f"{n} belongs to a cluster", s)
        segs = s.strip("/").split("/")
        R.check(all(x == "#" or "#" not in x for x in segs), "k-seg", b.relfile, f"{n}: arguments are whole path segments", s)
        out[n] = s
    R.floor(len(out), 24, "key templates")
    items = {n: s for n, s in out.items() if n not in ("cluster_prefix",)}
    names = sorted(items)
    for i, a in enumerate(names):
        for c in names[i + 1:]:
            x, y = items[a].strip("/").split("/"), items[c].strip("/").split("/")
            clash = len(x) == len(y) and all(p == q or "#" in (p, q) for p, q in zip(x, y)) and items[a].endswith("/") == items[c].endswith("/")
            R.check(not clash, "k-unique", "meta/src/store/key_path.rs", f"{a} and {c} never meet", f"{items[a]} and {items[c]} can be the same key")
    for c, i in COLL.items():
        if R.check(c in out and i in out, "k-coll", "meta/src/store/key_path.rs", f"{c} and {i} are keys"):
            R.check(out[c].rstrip("/") + "/#" == out[i], "k-parent", "meta/src/store/key_path.rs", f"{c} is the parent of {i}", f"{out[c]} / {out[i]}")
    if "resourceinfos" in out:
        R.check(re.match(r"^/#/\w+/#$", out["resourceinfos"]), "k-parent", "meta/src/store/key_path.rs", "resourceinfos with an empty name is the parent of them all", out["resourceinfos"])
    return out


# ---------------------------------------------------------------- the store itself
def dbm(n):
    return lambda c: bool(re.search(r"Database(<.*>)?::(%s)$" % n, c.fid or c.name))


def primitives(R, F):
    C = Cond(F, no_inline=r"KeyPath::|StateMachine::(version|get)$|Watch::writer_log$")
    isdb = lambda t, me: t == ("fld", "db", me)
    ver = lambda t: call(t, "KeyPath::version")
    for n, tye in (("insert", "ENTRY_LOG_TYPE_SET"), ("remove", "ENTRY_LOG_TYPE_DEL")):
        b = R.body(SM + n)
        me, k, v = P(b.id, 1), P(b.id, 2), P(b.id, 3)
        evs = call_events(C, b, lambda c: bool(re.search(r"Database(<.*>)?::(put|delete|clear|delete_range)$|RwTxn(<.*>)?::(commit|abort)$|Watch::writer_log$", c.fid or c.name)))
        puts = [e for e in evs if e[0].name.endswith("::put")]
        dels = [e for e in evs if e[0].name.endswith("::delete")]
        coms = [e for e in evs if e[0].name.endswith("::commit")]
        logs = [e for e in evs if e[0].name.endswith("writer_log")]
        R.check(len(evs) == len(puts) + len(dels) + len(coms) + len(logs) and len(coms) == 1 and len(logs) == 1, "s-ops", b.relfile, f"{n}: one transaction, one announcement", f"{len(coms)} commits, {len(logs)} announcements")
        main = puts if n == "insert" else dels
        mine = [e for e in main if e[1][2] == k and (n == "remove" or e[1][3] == v)]
        R.check(len(mine) == 1, "s-pair", b.relfile, f"{n}: the named pair is {'stored' if n == 'insert' else 'deleted'}", str([show(x)[:60] for e in main for x in e[1]]))
        vp = [e for e in puts if ver(e[1][2])]
        R.check(len(vp) == 1 and len(puts) + len(dels) == 2, "s-ver", b.relfile, f"{n}: and the version, nothing else", str([show(e[1][2])[:60] for e in puts]))
        new = None
        for e in vp:
            x = e[1][3]
            while x[0] == "call" and re.search(r"to_string$|as_str$", x[1]):
                x = x[2][0]
            new = x
            calls = [y for y in walk(x) if call(y, "StateMachine::version")]
            R.check(len({strip(y) for y in calls}) == 1 and plus_one(x, lambda t: t[0] == "ok" and call(t[1], "StateMachine::version") and t[1][2][0] == me), "s-next", e[0].where, f"{n}: the version grows by one", show(x)[:100])
        for e in puts + dels:
            R.check(isdb(e[1][0], me), "s-db", e[0].where, f"{n}: in the store", show(e[1][0])[:60])
            for cm in coms:
                R.check(strip(e[1][1]) == strip(cm[1][0]) and call(unok(e[1][1]), "write_txn"), "s-txn", e[0].where, f"{n}: in the transaction that is committed", f"{show(e[1][1])[:60]} / {show(cm[1][0])[:60]}")
                R.check(ev_before(F, e[3], cm[3]), "s-order", e[0].where, f"{n}: before the commit")
        for e in logs:
            R.check(all(ev_before(F, cm[3], e[3]) for cm in coms), "s-log", e[0].where, f"{n}: announced after the commit")
            x = e[1][1]
            R.check(e[1][0] == ("fld", "watch", me) and x[0] == "agg", "s-log", e[0].where, "to the watchers", show(x)[:100])
            f = lambda q: getf(x, q)
            TYE[n] = konst(f("tye"))
            R.check(isinstance(TYE[n], int), "s-tye", e[0].where, f"{n}: announced by its kind", show(f("tye")))
            R.check(new is not None and strip(f("ver")) == strip(new), "s-logver", e[0].where, f"{n}: with the version that was stored", show(f("ver"))[:100])
            R.check(tostr(f("key")) == k, "s-logkey", e[0].where, f"{n}: with the key", show(f("key"))[:80])
            if n == "insert":
                R.check(tostr(f("val")) == v, "s-logval", e[0].where, "with the value", show(f("val"))[:80])
        propagates(R, F, b, lambda c: bool(re.search(r"Database(<.*>)?::(put|delete)$|RwTxn(<.*>)?::commit$|StateMachine::version$|write_txn$", c.fid or c.name)), f"s-fail:{n}", n)
        for cd, t in C.ret_cases(b):
            if cd and not is_err(t):
                R.check(all(any(l[0][0] == "disc" and has(l[0][1], lambda x: call(x, "RwTxn::commit")) and ("0" in l[1]) == l[2] for l in cj) for cj in cd), "s-ok", b.relfile, f"{n}: OK only once committed", show_dnf(cd)[:120])
    R.check(len(set(TYE.values())) == 2, "s-tyes", "meta/src/store/command.rs", "storing and deleting are told apart", str(TYE))
    # reading
    b = R.body(SM + "version")
    for cd, t in C.ret_cases(b):
        if is_err(t) or not cd:
            continue
        for x in alts(t[2][0]):
            R.check(konst(x) == 0 or has(x, lambda y: call(y, "StateMachine::get") and ver(y[2][1])), "v-read", b.relfile, "the version is the stored one", show(x)[:100])
    b = R.body(SM + "get")
    C1 = Cond(F)
    for cd, t in C1.ret_cases(b):
        if is_err(t) or not cd:
            continue
        x = t[2][0] if t[0] == "agg" else t
        some = x[0] == "agg" and x[1].endswith("::Some")
        none = x[0] == "agg" and x[1].endswith("::None")
        if some or none:
            pres = lambda tt, vs, pos: tt[0] == "disc" and has(tt[1], lambda y: dbget(y) and y[2][2] == P(b.id, 2)) and tt[1][0] == "ok" and (("1" in vs) == pos) == some
            R.check(forced(cd, pres), "g-get", b.relfile, "a stored pair is found, and only a stored one", show_dnf(cd)[:140])
        if some:
            R.check(has(x, lambda y: dbget(y) and y[2][0] == ("fld", "db", P(b.id, 1)) and y[2][2] == P(b.id, 2)), "g-val", b.relfile, "with its value", show(x)[:120])
        elif not none:
            R.check(has(x, lambda y: dbget(y) and y[2][2] == P(b.id, 2)), "g-val", b.relfile, "with its value", show(x)[:120])
    b = R.body(SM + "contains_key")
    for cd, t in C.ret_cases(b):
        if is_err(t) or not cd:
            continue
        want = show(t[2][0])
        ok = want in ("true", "false") and forced(cd, lambda tt, vs, pos: tt[0] == "disc" and tt[1][0] == "ok" and call(tt[1][1], "StateMachine::get") and tt[1][1][2][1] == P(b.id, 2) and (("1" in vs) == pos) == (want == "true")) \
            or has(t, lambda y: call(y, "is_some")) and has(t, lambda y: call(y, "StateMachine::get") and y[2][1] == P(b.id, 2))
        R.check(ok, "g-has", b.relfile, "a key is there when it is stored", f"{want} if {show_dnf(cd)[:120]}")
    b = R.body(SM + "get_struct")
    for cd, t in C.ret_cases(b):
        if is_err(t) or not cd or t[0] != "agg":
            continue
        x = t[2][0]
        if x[0] == "agg" and x[1].endswith("::Some"):
            R.check(x[2][0][0] == "ok" and call(x[2][0][1], "from_str") and has(x, lambda y: call(y, "StateMachine::get") and y[2][1] == P(b.id, 2)), "g-struct", b.relfile, "the value is decoded from the stored text", show(x)[:120])
        elif x[0] == "agg" and x[1].endswith("::None"):
            R.check(forced(cd, lambda tt, vs, pos: tt[0] == "disc" and tt[1][0] == "ok" and call(tt[1][1], "StateMachine::get") and ("0" in vs) == pos), "g-none", b.relfile, "nothing only when nothing is stored", show_dnf(cd)[:120])
    b = R.body("meta::store::storage::value_encode")
    for cd, t in C.ret_cases(b):
        if cd and not is_err(t):
            R.check(has(t, lambda y: y[0] == "call" and y[1].endswith("to_string") and y[2] and y[2][0] == P(b.id, 1)), "g-enc", b.relfile, "values are stored as their JSON", show(t)[:100])
    # children
    for n in ("children_data", "children_fullpath"):
        b = R.body(SM + n)
        it = [(c, a) for c, a, cd in own_sites(C1, b, lambda c: c.name.endswith("prefix_iter"))]
        R.check(len(it) == 1 and it[0][1][0] == ("fld", "db", P(b.id, 1)) and has(it[0][1][2], lambda x: x == P(b.id, 2)), "c-iter", b.relfile, f"{n}: the entries with the prefix")
        pu = own_sites(C1, b, lambda c: c.name.endswith("String::push") or c.name.endswith("push_str"))
        for c, a, cd in pu:
            R.check(show(a[1]) in ("'/'", '"/"') and forced(cd, lambda t, vs, pos: call(t, "ends_with") and ("1" in vs) != pos), "c-slash", c.where, f"{n}: the prefix ends with a slash", show(a[1]))
        R.check(len(pu) == 1, "c-slash", b.relfile, f"{n}: the prefix ends with a slash")
        every_child(R, F, C1, b, n)


def plus_one(x, isv):
    if x[0] == "fld" and x[2][0] == "bin" and x[1] in ("0", 0):
        x = x[2]
    if x[0] == "bin" and x[1] in ("Add", "AddWithOverflow", "AddUnchecked"):
        return isv(x[2]) and konst(x[3]) == 1 or isv(x[3]) and konst(x[2]) == 1
    if call(x, "saturating_add") or call(x, "wrapping_add"):
        return isv(x[2][0]) and konst(x[2][1]) == 1
    return False


def dbget(t):
    return t[0] == "call" and re.search(r"Database(<.*>)?::get$", t[1])


def strip(t):
    return L.strip_site(t)


def tostr(t):
    while t[0] == "call" and re.search(r"(to_string|to_owned|into|from|clone)$", t[1]) and len(t[2]) == 1:
        t = t[2][0]
    return t


def every_child(R, F, C, b, n):
    """direct children are all collected: the loop passes over an element only when it is not a direct child"""
    ins = own_sites(C, b, lambda c: bool(re.search(r"Vec(<.*>)?::push$|HashMap(<.*>)?::insert$", c.fid or c.name)))
    R.check(len(ins) == 1, "c-take", b.relfile, f"{n}: children are collected")
    for c, a, cd in ins:
        elem = a[1]
        R.check(has(elem, lambda x: x[0] == "fld" and x[1] == "0" and has(x, lambda y: call(y, "prefix_iter"))), "c-key", c.where, f"{n}: by their key", show(elem)[:100])
        if n == "children_data":
            R.check(has(elem, lambda x: call(x, "strip_prefix")), "c-name", c.where, "by their name below the prefix", show(elem)[:100])
            R.check(a[2][0] == "ok" and call(a[2][1], "from_str") and has(a[2], lambda x: x[0] == "fld" and x[1] == "1" and has(x, lambda y: call(y, "prefix_iter"))), "c-val", c.where, "with their value", show(a[2])[:100])
        else:
            R.check(not has(elem, lambda x: call(x, "strip_prefix")), "c-full", c.where, "by their full key", show(elem)[:100])
        sub = [l for cj in cd for l in cj if has(l[0], lambda x: call(x, "strip_prefix")) and not has(l[0], lambda x: call(x, "from_str"))]
        kinds = set()
        for t, vs, pos in sub:
            if has(t, lambda x: x[0] == "call" and re.search(r"str::(find|contains)$", x[1]) and show(x[2][1]) in ("'/'", '"/"')):
                truth = ("1" in vs) == pos
                R.check(not truth, "c-direct", c.where, f"{n}: not what lies deeper", show(t)[:100])
                kinds.add("deep")
            elif has(t, lambda x: x[0] == "call" and x[1].endswith("is_empty")):
                R.check(("1" in vs) != pos, "c-empty", c.where, f"{n}: not the prefix itself", show(t)[:100])
                kinds.add("empty")
            elif t[0] == "disc":
                R.check(("1" in vs) == pos, "c-under", c.where, f"{n}: what lies below the prefix", show(t)[:100])
            else:
                R.bad("c-cond", c.where, f"{n}: a child is left out when {show(t)[:100]}")
        R.check("deep" in kinds, "c-direct", c.where, f"{n}: only direct children")
        oth = [l for cj in cd for l in cj if not has(l[0], lambda x: call(x, "strip_prefix"))]
        for t, vs, pos in oth:
            R.check(t[0] == "disc" and has(t, lambda x: x[0] == "call" and re.search(r"prefix_iter$|read_txn$", x[1])), "c-cond", c.where, f"{n}: every child is taken", f"a child is left out when {show(t)[:100]}")


# ---------------------------------------------------------------- commands
NOIN = (r"StateMachine::(insert|remove|get_struct|contains_key|fetch_and_add_incr_id|children_data|children_fullpath|version|get|to_tenant_meta_data|get_valid_node_list)$"
        r"|value_encode|response_encode|KeyPath::|allocation_replication_set$|get_time_range$|check_node_enough$|ReplicationSet::vnode$")


def rend(t, root, depth=0):
    """a term over the command's fields as text: $f is field f of the command, self and decoding layers are left out"""
    if t[0] in ("ok", "await"):
        return rend(t[1], root, depth)
    if t[0] == "param":
        return "@" if t[2] == 1 else "$" if t[2] == 2 else f"p{t[2]}"
    if t[0] == "fld":
        s = rend(t[2], root, depth)
        if str(t[1]) == "1" and re.match(r"^all\[[^\[\]]*\]$", s):
            return s        # the value of a pair of the map is what values() gives
        return "$" + str(t[1]).rsplit(".", 1)[-1] if s == "$" else s + "." + str(t[1])
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[1] if not re.search(r"::\{", t[1]) else t[1]
        a = [rend(x, root, depth + 1) for x in t[2]]
        if n == "value_encode":
            return a[0]
        if n in ("to_string", "to_owned", "clone", "into", "from", "as_str", "borrow", "deref") and len(a) == 1:
            return a[0]
        if a and a[0] == "@":
            a = a[1:]
        if n in ("find", "filter") and len(t[2]) == 2 and closure_id(t[2][1]):
            return a[0]
        if n in ("into_values", "values", "iter", "into_iter", "iter_mut", "collect", "drain", "values_mut") and len(a) == 1:
            return a[0]
        if n == "get_struct":
            return f"old[{a[0]}]"
        if n == "children_data":
            return f"all[{a[0]}]"
        if n == "children_fullpath":
            return f"keys[{a[0]}]"
        return f"{n}({', '.join(a)})"
    if t[0] == "agg":
        n = t[1].rsplit("::", 1)[-1]
        if t[1].startswith("closure:"):
            return "closure"
        return f"{n}{{{', '.join(rend(x, root, depth + 1) for x in t[2])}}}"
    if t[0] == "bin":
        return f"({rend(t[2], root, depth)} {t[1]} {rend(t[3], root, depth)})"
    if t[0] == "disc":
        return f"disc({rend(t[1], root, depth)})"
    if t[0] == "cast":
        return rend(t[2] if len(t) > 2 and isinstance(t[2], tuple) else t[1], root, depth)
    s = show(t)
    return s


def picked(t):
    """the closures by which the elements in t were found"""
    return [closure_id(y[2][1]) for y in walk(t) if y[0] == "call" and re.search(r"::(find|filter)$", y[1]) and len(y[2]) == 2 and closure_id(y[2][1])]


def guards(cj, root):
    """what a conjunction says about stored keys: has KEY / no KEY, as text"""
    out = set()
    for t, vs, pos in cj:
        if CC and t[0] == "disc" and vs == {"1"} and pos or vs == {"0"} and not pos:
            for cid in picked(t):
                if CC[0].F.get(cid) is not None:
                    d = closure_true(CC[0], cid)
                    if len(d) == 1:
                        out |= {re.sub(r"\$(?=[a-z_])", "$0.", x) for x in guards(next(iter(d)), None)}
    for t, vs, pos in cj:
        if not vs <= {"0", "1"} or len(vs) != 1:
            continue
        truth = ("1" in vs) == pos
        if t[0] == "ok" and call(t[1], "StateMachine::contains_key"):
            out.add(("has " if truth else "no ") + rend(t[1][2][1], root))
        elif t[0] == "disc" and t[1][0] == "ok" and call(t[1][1], "StateMachine::get_struct"):
            out.add(("has " if truth else "no ") + rend(t[1][1][2][1], root))
        elif t[0] == "call" and t[1].endswith("is_some") and call(unok(t[2][0]), "StateMachine::get_struct"):
            out.add(("has " if truth else "no ") + rend(unok(t[2][0])[2][1], root))
        else:
            out.add(("" if truth else "not ") + rend(t, root))
    return out


BK = "tenant_bucket_id($0.cluster, $0.tenant, $0.db_name, $0.bucket_id)"
BV = "tenant_bucket_id($0.cluster, $0.vnode_info.tenant, $0.vnode_info.db_name, $0.vnode_info.bucket_id)"
DB2 = "tenant_db_name($0, $1, $2.database)"
TB = "tenant_schema_name($0, $1, db($2), name($2))"
ROLEOK = [r"^has role\(\$0, \$3, name\(\$2\)\)$", r"^(not )?\(.*name\(\$2\) Eq \"(owner|member)\"\)$", r"^(not )?\(TenantRoleIdentifier::name\(.*\.2\) Eq \"(owner|member)\"\)$", r"^no role\(\$0, \$3, name\(\$2\)\)$"]
LIM = r"^map\(request_config\(%s\), fn .*RemoteRequestLimiter::new\)$"
OPT = r"TenantOptions\{old\[tenant\(\$0, \$1\)\]\.options\.comment, .*\}|old\[tenant\(\$0, \$1\)\]\.options"
# variant -> effects: (put/del, key, value or /regex/, guards that must hold, further guards that may stand)
EFFECTS = {
    "Set": [("put", "$key", "$value", [], [])],
    "AddDataNode": [("put", "data_node_id($0, $1.id)", "$1", ["check_node_ip_address($0, $1)"], []),
                    ("put", "resourceinfosmark($0)", "(){$1.id, true}", [], [r"^check_node_ip_address", r"^not process_read_resourceinfos_mark\(\$0\)\.1$"])],
    "ReportNodeMetrics": [("put", "data_node_metrics($0, $1.id)", "$1", [], [])],
    "CreateDB": [("put", DB2, "$2", ["no " + DB2], [r"^not \(.*shard_num Eq 0_u64\)$"])],
    "AlterDB": [("put", DB2, "$2", ["has " + DB2], [r"^not \(.*shard_num Eq 0_u64\)$"])],
    "SetDBIsHidden": [("put", "tenant_db_name($0, $1, $2)", "old[tenant_db_name($0, $1, $2)]", ["has tenant_db_name($0, $1, $2)"], [])],
    "DropDB": [("del", "tenant_db_name($0, $1, $2)", None, [], []), ("del", "keys[tenant_db_buckets($0, $1, $2)]", None, [], []), ("del", "keys[tenant_schemas($0, $1, $2)]", None, [], [])],
    "DropTable": [("del", "tenant_schema_name($0, $1, $2, $3)", None, ["has tenant_schema_name($0, $1, $2, $3)"], [])],
    "CreateTable": [("put", TB, "$2", ["has tenant_db_name($0, $1, db($2))", "no " + TB], [])],
    "UpdateTable": [("put", TB, "$2", [], [r".*"])],
    "CreateBucket": [("put", "tenant_bucket_id($0, $1, $2, fetch_and_add_incr_id($0, 1_u32))", r"/^BucketInfo\{fetch_and_add_incr_id\(\$0, 1_u32\), get_time_range\(\$3, .*vnode_duration.*precision.*\)\.0, get_time_range\(\$3, .*vnode_duration.*precision.*\)\.1, allocation_replication_set\(.*\)\.0\}$",
                      ["has tenant_db_name($0, $1, $2)"], [r".*"])],
    "DeleteBucket": [("del", "tenant_bucket_id($0, $1, $2, $3)", None, [], [])],
    "CreateUser": [("put", "user($0, $1.name)", "$1", ["no user($0, $1.name)"], [])],
    "AlterUser": [("put", "user($0, $1)", r"/^UserDesc\{old\[user\(\$0, \$1\)\]\.id, \$1, .*\$2.*, old\[user\(\$0, \$1\)\]\.is_root_admin\}$", ["has user($0, $1)"], [])],
    "RenameUser": [],
    "DropUser": [("del", "member($0, all[tenants($0)].name, old[user($0, $1)].id)", None, ["has user($0, $1)"], []), ("del", "user($0, $1)", None, ["has user($0, $1)"], [])],
    "CreateTenant": [("put", "tenant($0, $1.name)", "$1", ["no tenant($0, $1.name)"], []),
                     ("put", "limiter($0, $1.name)", "/" + LIM % r"\$1\.options", ["no tenant($0, $1.name)", "disc(request_config($1.options))"], []),
                     ("del", "limiter($0, $1.name)", None, ["no tenant($0, $1.name)", "not disc(request_config($1.options))"], [])],
    "AlterTenant": [("put", "tenant($0, $1)", "Tenant{old[tenant($0, $1)].id, $1, $2}", ["has tenant($0, $1)", "not old[tenant($0, $1)].options.tenant_is_hidden"], []),
                    ("put", "limiter($0, $1)", "/" + LIM % r"\$2", ["has tenant($0, $1)", "disc(request_config($2))"], [r"^not old.*hidden$"]),
                    ("del", "limiter($0, $1)", None, ["has tenant($0, $1)", "not disc(request_config($2))"], [r"^not old.*hidden$"])],
    "SetTenantIsHidden": [("put", "tenant($0, $1)", r"/^Tenant\{old\[tenant\(\$0, \$1\)\]\.id, \$1, (%s)\}$" % OPT, ["has tenant($0, $1)"], []),
                          ("put", "limiter($0, $1)", "/" + LIM % ("(%s)" % OPT), ["has tenant($0, $1)"], [r"^disc\(request_config\("]),
                          ("del", "limiter($0, $1)", None, ["has tenant($0, $1)"], [r"^not disc\(request_config\("])],
    "RenameTenant": [],
    "DropTenant": [("del", "tenant($0, $1)", None, [], []), ("del", "limiter($0, $1)", None, [], []),
                   ("del", "member($0, $1, process_read_users($0).id)", None, [], [r"^has member"]), ("del", "role($0, $1, process_read_roles($0, $1).name)", None, [], [r"^has role"])],
    "AddMemberToTenant": [("put", "member($0, $3, $1)", "$2", ["no member($0, $3, $1)"], ROLEOK)],
    "RemoveMemberFromTenant": [("del", "member($0, $2, $1)", None, ["has member($0, $2, $1)"], [])],
    "ReasignMemberRole": [("put", "member($0, $3, $1)", "$2", ["has member($0, $3, $1)"], ROLEOK)],
    "CreateRole": [("put", "role($0, $4, $1)", r"/^CustomTenantRole\{.*, \$1, \$2, \$3\}$", ["no role($0, $4, $1)"], [])],
    "DropRole": [("del", "role($0, $2, $1)", None, ["has role($0, $2, $1)"], [])],
    "GrantPrivileges": [("put", "role($0, $3, $2)", "old[role($0, $3, $2)]", ["has role($0, $3, $2)"], [])],
    "RevokePrivileges": [("put", "role($0, $3, $2)", "old[role($0, $3, $2)]", ["has role($0, $3, $2)"], [])],
    "RetainID": [("seq", "$0", "$1", [], [])],
    "UpdateVnodeReplSet": [("put", BK, f"old[{BK}]", ["has " + BK, f"not is_empty(old[{BK}].shard_group)"], []), ("del", BK, None, ["has " + BK, f"is_empty(old[{BK}].shard_group)"], [])],
    "ChangeReplSetLeader": [("put", BK, f"old[{BK}]", ["has " + BK], [])],
    "UpdateVnode": [("put", BV, f"old[{BV}]", ["has " + BV], [])],
    "LimiterRequest": [("put", "limiter($cluster, $tenant)", "old[limiter($cluster, $tenant)]", ["has limiter($cluster, $tenant)"], [r"^disc\(get\(old\[limiter"])],
    "ResourceInfo": [("put", "resourceinfos($0, $1)", "$2", [], [])],
    "ResourceInfosMark": [("put", "resourceinfosmark($0)", "(){$1, $2}", [], [r".*"])],
    "WriteQueryInfo": [("put", "query($0, $1)", "$2", [], [])],
    "RemoveQueryInfo": [("del", "query($0, $1)", None, [], [])],
    "MoveQueryInfo": [("put", "query($0, process_read_queries($0, $1).query_id.0)", "process_read_queries($0, $1)", [], [])],
}
SEQ = {"CreateBucket"}


def commands(R, F):
    C = Cond(F, no_inline=NOIN)
    CC[:] = [C]
    b = R.body(SM + "process_write_command")
    while F.get(b.id + "::{closure#0}") is not None and F.get(b.id + "::{closure#0}").co:
        b = F.get(b.id + "::{closure#0}")
    wc = next(it for k, it in F.items.items() if it["k"] == "enum" and k.endswith("command::WriteCommand"))
    names = {str(v["discr"]): v["name"] for v in wc["variants"]}
    R.check(set(names.values()) == set(EFFECTS), "w-known", "meta/src/store/command.rs", "the commands are those with an effect table", str(set(names.values()) ^ set(EFFECTS)))
    cmd = lambda t: t[0] == "disc" and t[1][0] == "param" and t[1][2] == 2 and t[1][1].endswith("process_write_command")

    def variants(cj):
        vs = set(names)
        for t, v, pos in cj:
            if cmd(t):
                vs &= set(v) if pos else vs - set(v)
        return {names[x] for x in vs}
    pred = lambda c: bool(re.search(r"StateMachine::(insert|remove|fetch_and_add_incr_id)$", c.name))
    evs = call_events(C, b, pred)
    seen = {n: set() for n in EFFECTS}
    res = {}
    n = 0
    for c, a, cd, ch in evs:
        op = {"insert": "put", "remove": "del"}.get(c.name.rsplit("::", 1)[1], "seq")
        key = rend(a[1], b)
        val = rend(a[2], b) if len(a) > 2 else None
        vs = set().union(*[variants(cj) for cj in cd]) if cd else set()
        per = [variants(cj) for cj in cd]
        for v in sorted(vs):
            n += 1
            if op == "seq" and v in SEQ:
                continue
            hit = [i for i, e in enumerate(EFFECTS.get(v, [])) if e[0] == op and e[1] == key]
            if not R.check(hit, "w-key", c.where, f"{v}: {op} {key}", f"{v} {dict(put='stores under', dele='deletes', seq='takes numbers of').get(op, 'deletes')} {key}, which is not what it names"):
                continue
            e = EFFECTS[v][hit[0]]
            if v != "LimiterRequest" or op != "del":
                seen[v].add(hit[0])
            if e[2] is not None:
                ok = re.match(e[2][1:], val) if e[2].startswith("/") else val == e[2]
                R.check(ok, "w-val", c.where, f"{v}: {key} gets its value", f"{v}: {key} gets {val[:160]}")
            for cj in cd:
                if v not in variants(cj):
                    continue
                g = guards([l for l in cj if not cmd(l[0])], b)
                for want in e[3]:
                    R.check(want in g, "w-guard", c.where, f"{v}: {key} only when {want}", f"{v}: {key} also when not: {sorted(g)[:4]}"[:200])
                for x in sorted(g - set(e[3])):
                    R.check(benign(F, x, cj, b, a) or any(re.match(p, x) for p in e[4]), "w-free", c.where, f"{v}: {key} under no other condition", f"{v}: {key} is left undone unless {x[:140]}")
    for v, es in EFFECTS.items():
        for i, e in enumerate(es):
            if v == "LimiterRequest" or e[0] == "seq" and v in SEQ:
                continue
            R.check(i in seen[v], "w-done", ST, f"{v}: {e[0]} {e[1]} happens", f"{v} never {e[0]}s {e[1]}")
    R.floor(n, 45, "effects of commands")
    details(R, F, C, b, cmd, names, variants)
    answers(R, F, C, b, cmd, names, variants)


def benign(F, x, cj, b, a):
    """a condition that only says an earlier step went well, or that a loop has an element"""
    for t, vs, pos in cj:
        if len(vs) != 1 or not vs <= {"0", "1"}:
            continue
        truth = ("1" in vs) == pos
        if (("" if truth else "not ") + rend(t, b)) != x:
            continue
        if t[0] == "disc" and not truth:
            q = t[1]
            q = q if q[0] == "call" else None
            if q is None:
                return False
            f = F.get(q[1])
            ty = f.lty(0) if f is not None else ""
            if f is None or "Result<" in ty or f.co or "Future" in ty:
                return True
        if t[0] == "disc" and truth:
            # a loop's next element: what is walked occurs in what is done
            q = t[1]
            return any(has(y, lambda z: z == ("ok", q) or z == q) for y in a)
    return False


# ---------------------------------------------------------------- what the stored values are made of
MUT = re.compile(r"(Vec|HashMap|HashSet|BTreeMap|VecDeque)(<.*>)?::(retain|push|insert|remove|clear|truncate|pop|swap_remove|extend|append|drain)$|_privilege$|acquire\w*$")
OB, OV = f"old[{BK}]", f"old[{BV}]"
LB = "get(old[limiter($cluster, $tenant)].buckets, $request.kind)"
# variant -> changes made to what was read: (kind, on, value, conditions that must hold)
CHANGES = {
    "UpdateVnode": [("=status", OV + ".shard_group.vnodes", "$0.vnode_info.status", [f"({OV}.shard_group.id Eq $0.vnode_info.repl_set_id)", f"({OV}.shard_group.vnodes.id Eq $0.vnode_info.vnode_id)"])],
    "ChangeReplSetLeader": [("=leader_node_id", OB + ".shard_group", "$0.leader_node_id", [f"({OB}.shard_group.id Eq $0.repl_id)"]),
                            ("=leader_vnode_id", OB + ".shard_group", "$0.leader_vnode_id", [f"({OB}.shard_group.id Eq $0.repl_id)"])],
    "UpdateVnodeReplSet": [("retain", OB + ".shard_group", "closure", []),
                           ("retain", OB + ".shard_group.vnodes", "closure", [f"({OB}.shard_group.id Eq $0.repl_id)", "disc($0.del_info)"]),
                           ("push", OB + ".shard_group.vnodes", "VnodeInfo{$0.add_info.id, $0.add_info.node_id, $0.add_info.status}", [f"({OB}.shard_group.id Eq $0.repl_id)", "disc($0.add_info)"]),
                           ("=leader_vnode_id", OB + ".shard_group", f"/.*\\.vnodes, 0_usize\\)\\.id$", [f"({OB}.shard_group.id Eq $0.repl_id)", f"not is_empty({OB}.shard_group.vnodes)", "!leader_vnode_id|any\\("]),
                           ("=leader_node_id", OB + ".shard_group", f"/.*\\.vnodes, 0_usize\\)\\.node_id$", [f"({OB}.shard_group.id Eq $0.repl_id)", f"not is_empty({OB}.shard_group.vnodes)", "!leader_vnode_id|any\\("])],
    "SetDBIsHidden": [("=is_hidden", "old[tenant_db_name($0, $1, $2)]", "$3", [])],
    "GrantPrivileges": [("grant_privilege", "old[role($0, $3, $2)]", "$1.1; $1.0", ["has tenant_db_name($0, $3, $1.1)"])],
    "RevokePrivileges": [("revoke_privilege", "old[role($0, $3, $2)]", "$1.1; $1.0", [])],
    "LimiterRequest": [("acquire_closed", LB, "$request.expected.max", [])],
}
OTHER = {"SetTenantIsHidden": ("=tenant_is_hidden", r"^TenantOptions\{old\[tenant\(\$0, \$1\)\]|^old\[tenant\(\$0, \$1\)\]\.options$", "$2"),
         "MoveQueryInfo": ("=node_id", r"^process_read_queries\(\$0, \$1\)$", "$2")}


def details(R, F, C, b, cmd, names, variants):
    evs = []
    for p, a, cd in C.writes(b, ".*"):
        evs.append(("=" + p[3], rend(a[1], b), rend(a[0], b), cd, f"{p[0].relfile}", a))
    for c, a, cd, ch in call_events(C, b, lambda c: bool(MUT.search(c.fid or c.name)) and "StateMachine" not in c.name):
        evs.append((c.name.rsplit("::", 1)[1], rend(a[0], b), "; ".join(rend(x, b) for x in a[1:]), cd, c.where, a))
    seen = set()
    n = 0
    for kind, on, val, cd, where, a in evs:
        for v in sorted(set().union(*[variants(cj) for cj in cd]) if cd else ()):
            if v in OTHER and kind == OTHER[v][0] and re.search(OTHER[v][1], on):
                n += 1
                seen.add((v, 0))
                R.check(val == OTHER[v][2], "d-val", where, f"{v}: the new {kind[1:]} is the given one", f"{v}: {kind[1:]} becomes {val[:120]}")
                free(R, C, F, b, cd, cmd, variants, v, [], kind, where, a)
            if not re.match(r"old\[|get\(old\[", on):
                continue
            n += 1
            es = CHANGES.get(v, [])
            hit = [i for i, e in enumerate(es) if e[0] == kind and e[1] == on]
            if not R.check(hit, "d-what", where, f"{v}: {kind} on what is stored", f"{v} also changes what is stored: {kind} on {on[:120]}"):
                continue
            e = es[hit[0]]
            seen.add((v, hit[0]))
            R.check(re.match(e[2][1:], val) if e[2].startswith("/") else val == e[2], "d-val", where, f"{v}: {kind} {e[2][:60]}", f"{v}: {kind} of {val[:140]}")
            free(R, C, F, b, cd, cmd, variants, v, e[3], kind, where, a)
            if kind == "retain":
                keep(R, F, C, v, on, a, where)
    for v, es in list(CHANGES.items()) + [(v, [e]) for v, e in OTHER.items()]:
        for i, e in enumerate(es):
            R.check((v, i) in seen, "d-done", ST, f"{v}: {e[0]} happens", f"{v} never does {e[0]} on {e[1][:100]}")
    R.floor(n, 13, "changes to stored values")
    # granting a role: only known roles
    for h in ("AddMemberToTenant", "ReasignMemberRole"):
        for c, a, cd, ch in call_events(C, b, lambda c: c.name.endswith("StateMachine::insert")):
            for cj in cd:
                if h in variants(cj):
                    g = guards([l for l in cj if not cmd(l[0])], b)
                    R.check(any(re.match(r"^has role\(", x) or re.match(r"^\(TenantRoleIdentifier::name", x) or re.match(r"^\(.* Eq \"(owner|member)\"\)$", x) for x in g),
                            "d-role", c.where, f"{h}: the role exists", f"{h}: a member gets a role nobody defined: {sorted(g)}"[:200])
    # altering a user merges option by option
    for c, a, cd, ch in call_events(C, b, lambda c: c.name.endswith("StateMachine::insert")):
        vs = set().union(*[variants(cj) for cj in cd]) if cd else set()
        if "AlterUser" in vs:
            opts = [x for x in walk(a[2]) if x[0] == "agg" and x[1].endswith("UserOptions")]
            for o in opts[:1]:
                for i, x in enumerate(o[2]):
                    fs = {str(y[1]) for y in walk(x) if y[0] == "fld" and (y[2] == ("fld", "AlterUser.2", ("param", b.id, 2)) or rend(y[2], b) in ("$2", "old[user($0, $1)].options"))}
                    nm = o[3][i] if len(o) > 3 else None
                    R.check(len(fs) == 1 and (nm is None or fs == {nm}), "d-user", c.where, "AlterUser: each option is the new one or the old one of the same name", f"{nm}: {sorted(fs)}")
        if "UpdateTable" in vs:
            for cj in cd:
                if "UpdateTable" in variants(cj):
                    g = guards([l for l in cj if not cmd(l[0])], b)
                    t = "old[" + TB + "]"
                    R.check("no " + TB in g or any(re.match(r"^\(\(%s\S*schema_version Add 1_u64\) Eq \$2\S*schema_version\)$" % re.escape(t), x) or re.match(r"^\(\$2\S*schema_version Eq \(%s\S*schema_version Add 1_u64\)\)$" % re.escape(t), x) for x in g),
                            "d-table", c.where, "UpdateTable: only the next version of the schema, or a first one", str(sorted(g))[:200])
        if "ResourceInfosMark" in vs:
            for cj in cd:
                if "ResourceInfosMark" in variants(cj):
                    g = guards([l for l in cj if not cmd(l[0])], b)
                    lock = "$2" in g and "not process_read_resourceinfos_mark($0).1" in g
                    free_ = "not $2" in g and ("(process_read_resourceinfos_mark($0).0 Eq $1)" in g or "($1 Eq process_read_resourceinfos_mark($0).0)" in g)
                    R.check(lock or free_, "d-mark", c.where, "the mark is taken when free and released by who holds it", str(sorted(g))[:200])
        if "CreateBucket" in vs:
            for cj in cd:
                if "CreateBucket" in variants(cj) and rend(a[1], b).startswith("tenant_bucket_id"):
                    g = guards([l for l in cj if not cmd(l[0])], b)
                    R.check(any(re.match(r"^not disc\(check_node_enough\(old\[tenant_db_name\(\$0, \$1, \$2\)\]\.options\.replica", x) for x in g), "d-bucket", c.where, "a bucket only with nodes for all its replicas", "a bucket is made without asking for enough nodes")
                    R.check(any(re.match(r"^not \(.*shard_num Eq 0_u64\)$", x) for x in g), "d-bucket", c.where, "a bucket only with shards")
    # a bucket is already there only when one holds the time
    n = 0
    for c, a, cd, ch in call_events(C, b, lambda c: c.name.endswith("StateMachine::to_tenant_meta_data")):
        for cj in cd:
            if variants(cj) == {"CreateBucket"}:
                bk = lambda f: (lambda t: t[0] == "fld" and t[1] == f and has(t, lambda x: call(x, "StateMachine::children_data")))
                ists = lambda t: rend(t, b) == "$3"
                if not any(call(unok(l[0][1]) if l[0][0] == "disc" else l[0], "StateMachine::insert") or l[0][0] == "disc" and has(l[0], lambda x: call(x, "StateMachine::insert")) for l in cj):
                    n += 1
                    lo, hi = rels(cj, ists, bk("start_time")), rels(cj, ists, bk("end_time"))
                    R.check(lo <= set(">=") and hi <= set("<"), "d-there", c.where, "CreateBucket leaves things alone only when a bucket holds the time", f"time against start {sorted(lo)}, against end {sorted(hi)}")
    R.check(n > 0, "d-there", ST, "CreateBucket leaves an existing bucket alone")
    # a dropped tenant's members
    for c, a, cd, ch in call_events(C, b, lambda c: bool(re.search(r"Vec(<.*>)?::retain$|Iterator::filter$", c.fid or c.name))):
        if set().union(*[variants(cj) for cj in cd]) == {"DropTenant"} and rend(a[0], b) == "process_read_users($0)":
            cid = closure_id(a[1])
            for cj in closure_true(C, cid) if cid else ():
                for t, vs, pos in cj:
                    if t[0] == "call" and t[1].endswith("Iterator::any") and closure_id(t[2][1]):
                        d = closure_true(C, closure_id(t[2][1]))
                        R.check(("1" in vs) == pos and all(len(k) == 1 and all((l[0][0] == "bin" and l[0][1] == "Eq" or l[0][0] == "call" and l[0][1].endswith("::eq")) and ("1" in l[1]) == l[2] for l in k) for k in d),
                                "d-members", c.where, "DropTenant: the users who are members", show_dnf(d)[:160])
    x = R.body(SM + "check_node_ip_address")
    some = False
    for cd, t in C.ret_cases(x):
        if t[0] == "agg" and t[1].endswith("::Ok") and show(t[2][0]) == "false":
            for cj in cd:
                g = guards(cj, x)
                R.check("not (all[data_nodes($)].id Eq p3.id)" in g or "not (p3.id Eq all[data_nodes($)].id)" in g, "d-addr", x.relfile, "an address is taken by another node", str(sorted(g))[:160])
                R.check(any(re.match(r"^(eq\(|\()all\[data_nodes\(\$\)\]\.grpc_addr(, | Eq )p3\.grpc_addr|^(eq\(|\()p3\.grpc_addr(, | Eq )all\[data", y) for y in g), "d-addr", x.relfile, "with the same address", str(sorted(g))[:160])
        elif t[0] == "agg" and t[1].endswith("::Ok"):
            for y in walk(t[2][0]):
                if y[0] == "call" and y[1].endswith("::any") and closure_id(y[2][1]):
                    some = True
                    neg = t[2][0] == ("un", "Not", y)
                    for cj in closure_true(C, closure_id(y[2][1])):
                        g = {q.replace("values(", "") for q in guards(cj, x)}
                        R.check(neg and any("grpc_addr" in q and not q.startswith("not ") for q in g) and any(q.startswith("not ") and ".id Eq" in q for q in g), "d-addr", x.relfile, "an address is taken by another node with the same address", str(sorted(g))[:160])
    R.check(some or any(show(t[2][0]) == "false" for cd, t in C.ret_cases(x) if t[0] == "agg" and t[1].endswith("::Ok")), "d-addr", x.relfile, "an address in use is refused")
    # the range of a bucket holds its time
    g = R.body("meta::store::storage::check_node_enough") if F.get("meta::store::storage::check_node_enough") is not None else None
    if g is not None:
        for cd, t in C.ret_cases(g):
            if cd and not is_err(t):
                for cj in cd:
                    r = rels(cj, lambda t: t == P(g.id, 1), lambda t: has(t, lambda q: q[0] == "call" and q[1].endswith("::len")) or t[0] == "len" or "len" in show(t))
                    R.check(r <= set("<="), "d-enough", g.relfile, "enough nodes means at least as many as replicas", f"{sorted(r)}: {show_dnf(cd)[:120]}")


def free(R, C, F, b, cd, cmd, variants, v, want, kind, where, a):
    for cj in cd:
        if v not in variants(cj):
            continue
        g = guards([l for l in cj if not cmd(l[0])], b)
        for w in want:
            m = re.match(r"^\((.*) Eq (.*)\)$", w)
            if w.startswith("!"):
                R.check(any(re.search(w[1:], x) for x in g), "d-guard", where, f"{v}: {kind} only when the present one is gone", f"{v}: {kind} also when the present one is still there")
                continue
            R.check(w in g or m and f"({m.group(2)} Eq {m.group(1)})" in g, "d-guard", where, f"{v}: {kind} only when {w}", f"{v}: {kind} also when not {w}"[:200])


def keep(R, F, C, v, on, a, where):
    cid = closure_id(a[1])
    x = F.get(cid) if cid else None
    if x is None:
        return
    if on.endswith(".vnodes"):
        # dropped: exactly when both the vnode and its node are those named
        isid = lambda f: (lambda l: l[0][0] == "bin" and l[0][1] == "Eq" and all(q[0] == "fld" and q[1] == f for q in l[0][2:4]) and "del_info" in show(l[0]))
        for cj in closure_true(C, cid):
            R.check(any(isid(f)(l) and ("1" in l[1]) != l[2] for f in ("id", "node_id") for l in cj), "d-keep", where, "a vnode stays unless it is the one named", show_dnf({cj})[:160])
        drop = [cj for cd, t in C.ret_cases(x) for cj in C.conj(cd, C.norm(t, ["0"], True))]
        R.check(bool(drop), "d-keep", where, "the vnode named goes")
        for cj in drop:
            R.check(all(any(isid(f)(l) and ("1" in l[1]) == l[2] for l in cj) for f in ("id", "node_id")), "d-keep", where, "only the vnode named goes", show_dnf({cj})[:160])
    else:
        d = closure_true(C, cid)
        R.check(bool(d) and all(any(l[0][0] == "call" and l[0][1].endswith("is_empty") and rend(l[0][2][0], None).endswith("vnodes") and ("1" in l[1]) != l[2] for l in cj) for cj in d), "d-keep", where, "sets without vnodes go, others stay", show_dnf(d)[:160])


# ---------------------------------------------------------------- answers
MUSTOK = re.compile(r"StateMachine::(insert|remove|get_struct|contains_key|fetch_and_add_incr_id|children_data|children_fullpath|version|set_tenant_limiter|to_tenant_meta_data|get_valid_node_list|check_\w+|process_\w+)$"
                    r"|::value_encode$|::check_node_enough$|serde_json::(\w+::)?(from_str|to_string|from_slice|to_vec)$|Database(<.*>)?::(put|delete|clear|get|iter|prefix_iter)$|RwTxn(<.*>)?::commit$|CustomTenantRole(<.*>)?::revoke_privilege$")


def answers(R, F, C, b, cmd, names, variants):
    n = 0
    for cd, t in C.ret_cases(b):
        if not cd:
            continue
        n += 1
        R.check(call(t, "response_encode"), "a-own", ST, "every command is answered by what came of it", show(t)[:120])
    R.floor(n, 30, "answers of commands")
    # success means done
    from va.okflow import OkFlow
    fl = OkFlow(F, lambda c: {"eff"} if re.search(r"StateMachine::(insert|remove|fetch_and_add_incr_id)$", c.fid or c.name) else ())
    n = 0
    for c in b.calls():
        m = re.search(r"StateMachine::(process_\w+)$", c.fid or c.name)
        vs = set().union(*[variants(cj) for cj in C.rc(b, c.bb)]) if m else set()
        if not m or len(vs) != 1 or not EFFECTS[next(iter(vs))] or vs & {"MoveQueryInfo", "LimiterRequest", "CreateBucket", "DropUser"}:
            continue
        n += 1
        h = c.fid or c.name
        if F.get(h + "::{closure#0}") is not None and F.get(h + "::{closure#0}").co:
            h += "::{closure#0}"
        R.check("eff" in fl.summary(h), "a-done", F.get(h).relfile, f"{next(iter(vs))}: success means that it was done", f"{next(iter(vs))} can succeed without storing anything")
    R.floor(n, 28, "commands whose success means an effect")
    n = 0
    for x in F.bodies("meta", pat=re.escape(SM) + r"(process_|check_|to_tenant|get_valid|set_tenant|set_already|backup|children_|get$|get_struct|contains_key|version|fetch_)\w*(::\{closure#\d+\})?$", file="store/storage.rs"):
        if x.id.rsplit("::", 1)[-1].startswith("process_write_command") or x.id.endswith("process_read_command") or "process_write_command::" in x.id:
            continue
        if "Result<" not in x.lty(0) and not x.co:
            continue
        tag = x.id[len(SM):]
        cs = propagates(R, F, x, lambda c: bool(MUSTOK.search(c.fid or c.name)) and not (tag == "process_add_date_node" and c.name.endswith("process_write_resourceinfos_mark")), "a-fail:" + tag.split("::")[0], tag.split("::")[0], deep=False)
        n += len(cs)
    R.floor(n, 90, "steps whose failure is an answer")


READS = {
    "DataNodes": ({"all data_nodes($0)"}, "Ok"), "NodeMetrics": ({"all data_nodes_metrics($0)"}, None), "TenantMetaData": ({"meta $0, $1"}, None),
    "CustomRole": ({"old role($0, $2, $1)"}, None), "CustomRoles": ({"all roles($0, $1)"}, None), "MemberRole": ({"old member($0, $1, $2)"}, None),
    "Members": ({"all members($0, $1)", "all users($0)"}, None), "User": ({"old user($0, $1)"}, None), "Users": ({"all users($0)"}, None),
    "Tenant": ({"old tenant($0, $1)"}, None), "Tenants": ({"all tenants($0)"}, None), "TableSchema": ({"old tenant_schema_name($0, $1, $2, $3)"}, None),
    "ResourceInfoByName": ({"old resourceinfos($0, $1)"}, None), "ResourceInfosByNodeid": ({'all resourceinfos($0, "")'}, None), "ResourceInfos": ({'all resourceinfos($0, "")'}, None),
    "ResourceInfosMark": ({"old resourceinfosmark($0)"}, None), "ReplicationSet": ({"all tenant_db_buckets($0, $1, $2)"}, None),
    "ReadQueryInfos": ({"all queries($0)"}, None), "ReadTableSchema": ({"old tenant_schema_name($0, $1, $2, $3)"}, None),
}
# variant -> the only reasons an entry is left out of the answer
FILTERS = {"Tenant": [("tenant_is_hidden", "0"), ("$2", "0")], "Tenants": [("tenant_is_hidden", "0")], "ResourceInfosByNodeid": [("execute_node_id Eq $1", "1")], "ReadQueryInfos": [("node_id Eq $1", "1")]}


def reads(R, F):
    C = Cond(F, no_inline=r"StateMachine::(get_struct|contains_key|children_data|to_tenant_meta_data|version)$|value_encode|response_encode|KeyPath::")
    b = R.body(SM + "process_read_command")
    rc = next(it for k, it in F.items.items() if it["k"] == "enum" and k.endswith("command::ReadCommand"))
    names = {str(v["discr"]): v["name"] for v in rc["variants"]}
    R.check(set(names.values()) == set(READS), "r-known", "meta/src/store/command.rs", "the questions are those with a table", str(set(names.values()) ^ set(READS)))

    def variants(cj):
        vs = set(names)
        for t, v, pos in cj:
            if t[0] == "disc" and t[1] == P(b.id, 2):
                vs &= set(v) if pos else vs - set(v)
        return {names[x] for x in vs}
    got = {v: set() for v in READS}
    for c, a, cd, ch in call_events(C, b, lambda c: bool(re.search(r"StateMachine::(get_struct|children_data|to_tenant_meta_data)$", c.name))):
        k = {"get_struct": "old ", "children_data": "all ", "to_tenant_meta_data": "meta "}[c.name.rsplit("::", 1)[1]]
        for v in set().union(*[variants(cj) for cj in cd]) if cd else ():
            x = k + ", ".join(rend(y, b) for y in a[1:])
            if len(variants(next(iter(cd)))) <= 2:
                got[v].add(x)
                R.check(x in READS.get(v, [()])[0], "r-key", c.where, f"{v} reads {x}", f"{v} reads {x}, which it does not name")
    for v, (want, _) in READS.items():
        for w in want:
            R.check(w in got[v], "r-all", ST, f"{v} is answered from {w}", f"{v} does not read {w}")
    filt = set()
    for c, a, cd, ch in call_events(C, b, lambda c: bool(re.search(r"Vec(<.*>)?::retain$|Option(<.*>)?::filter$|Iterator::filter$", c.fid or c.name))):
        cid = closure_id(a[1])
        if cid is None or F.get(cid) is None:
            continue
        h = cid.rsplit("::{", 1)[0]
        for v in set().union(*[variants(cj) for cj in cd]) if cd else ():
            if v in FILTERS:
                filt.add(v)
                d = closure_true(C, cid)
                idx = {2: "$0", 3: "$1", 4: "$2"}
                R.check(len(d) == len(FILTERS[v]), "r-filter", c.where, f"{v}: what is left out", show_dnf(d)[:160])
                for cj in d:
                    ok = False
                    for t, vs, pos in cj:
                        s = rend(t, None)
                        for i in (3, 4):
                            s = re.sub(r"\bp%d\b" % i, idx[i], s)
                        for f, tv in FILTERS[v]:
                            pat = f.split(" Eq ")
                            if (tv in vs) == pos and (len(pat) == 2 and s.strip("()").endswith(f) or len(pat) == 1 and (s == f or s.endswith("." + f))):
                                ok = True
                    R.check(ok and len(cj) == 1, "r-filter", c.where, f"{v}: only what was asked for", show_dnf({cj})[:160])
    for v in FILTERS:
        # a loop that picks, or a condition of its own, is judged by the reads and by r-own alone
        loops = any(has(l[0], lambda y: y[0] == "fld" and re.search(r"hidden|node_id", str(y[1]))) for c, a, cd, ch in call_events(C, b, lambda c: c.name.endswith("Vec::push")) for cj in cd if v in variants(cj) for l in cj)
        R.check(v in filt or loops, "r-filter", ST, f"{v}: leaves out what was not asked for", f"{v} answers with entries it was not asked for")
    for cd, t in C.ret_cases(b):
        if cd:
            R.check(call(t, "response_encode"), "r-own", ST, "every question is answered by what was read", show(t)[:120])
    # a tenant's metadata
    x = R.body(SM + "to_tenant_meta_data")
    n = 0
    for cd, t in C.ret_cases(x):
        m = t[2][0] if t[0] == "agg" and t[1].endswith("::Ok") else None
        if m is None or m[0] != "agg":
            continue
        n += 1
        g = lambda f: rend(getf(m, f), x) if getf(m, f) is not None else ""
        for f, w in (("version", "version()"), ("roles", "all[roles($, p3)]"), ("members", "all[members($, p3)]")):
            R.check(g(f) == w, "m-" + f, x.relfile, f"a tenant's metadata has its {f}", g(f)[:100])
    R.check(n == 1, "m-form", x.relfile, "a tenant's metadata is put together")
    ins = [(c, a, cd) for c, a, cd in own_sites(C, x, lambda c: c.name.endswith("HashMap::insert"))]
    R.check(len(ins) == 1, "m-dbs", x.relfile, "each database is added")
    for c, a, cd in ins:
        k, v = rend(a[1], x), a[2]
        R.check(k == "all[tenant_dbs($, p3)].0", "m-dbs", c.where, "under its name", k[:100])
        if v[0] == "agg":
            g = lambda f: rend(getf(v, f), x)
            for f, w in (("tables", "all[tenant_schemas($, p3, all[tenant_dbs($, p3)].0)]"), ("buckets", "all[tenant_db_buckets($, p3, all[tenant_dbs($, p3)].0)]")):
                R.check(g(f) == w, "m-" + f, c.where, f"with its {f}", g(f)[:140])
            R.check(re.search(r"all\[tenant_dbs\(\$, p3\)\](?!\.0)", g("schema")), "m-schema", c.where, "with its schema", g("schema")[:100])
        for cj in cd:
            for t, vs, pos in cj:
                R.check(t[0] == "disc", "m-all", c.where, "every database is there", f"a database is left out unless {show(t)[:120]}")
    # a set is found by its id
    y = R.body(SM + "process_read_replication_set")
    for cd, t in C.ret_cases(y):
        if t[0] == "agg" and t[1].endswith("::Ok") and t[2][0][0] == "agg" and t[2][0][1].endswith("::Some"):
            v = rend(t[2][0][2][0], y)
            for cj in cd:
                gs = guards(cj, y)
                R.check(any(re.match(r"^\(.*shard_group\.id Eq p5\)$|^\(p5 Eq .*shard_group\.id\)$", q) for q in gs), "r-set", y.relfile, "a replication set is found by its id", str(sorted(gs))[:160])
            R.check("shard_group" in v, "r-set", y.relfile, "the set itself is the answer", v[:100])


# ---------------------------------------------------------------- numbers
def ids(R, F):
    C = Cond(F, no_inline=r"KeyPath::|allocation_replication_set$|StateMachine::fetch_and_add_incr_id$")
    b = R.body(SM + "fetch_and_add_incr_id")
    me = P(b.id, 1)
    puts = [(c, a, cd) for c, a, cd in own_sites(C, b, lambda c: bool(re.search(r"Database(<.*>)?::put$", c.fid or c.name)))]
    gets = [(c, a, cd) for c, a, cd in own_sites(C, b, lambda c: bool(re.search(r"Database(<.*>)?::get$", c.fid or c.name)))]
    coms = [(c, a, cd) for c, a, cd in own_sites(C, b, lambda c: c.name.endswith("RwTxn::commit"))]
    R.check(len(puts) == 1 and len(gets) == 1 and len(coms) == 1, "i-form", b.relfile, "taking numbers reads, stores and commits", f"{len(gets)} {len(puts)} {len(coms)}")
    rets = [t[2][0] for cd, t in C.ret_cases(b) if t[0] == "agg" and t[1].endswith("::Ok")]
    R.check(len(rets) == 1, "i-ret", b.relfile, "the first number is returned")
    for c, a, cd in puts:
        v = tostr(a[3])
        while v[0] in ("fld",) and str(v[1]) == "0":
            v = v[2]
        add = v[0] == "bin" and v[1].startswith("Add") and v[2:4]
        R.check(add and set(map(strip, add)) == {strip(rets[0]) if rets else None, P(b.id, 3)}, "i-next", c.where, "the next number is the first not handed out", show(a[3])[:140])
        R.check(gets and strip(a[2]) == strip(gets[0][1][2]) and call(a[2], "KeyPath::incr_id") and a[2][2][0] == P(b.id, 2), "i-key", c.where, "under the cluster's counter")
        R.check(coms and gets and strip(a[1]) == strip(gets[0][1][1]) == strip(coms[0][1][0]), "i-txn", c.where, "in one transaction")
    for t in rets:
        R.check(has(t, lambda x: dbget(x)) and has(t, lambda x: call(x, "parse")), "i-old", b.relfile, "the number handed out is the stored one", show(t)[:120])
    x = F.get(SM + "process_create_bucket::{closure#0}") or R.body(SM + "process_create_bucket")
    fe = own_sites(C, x, lambda c: c.name.endswith("fetch_and_add_incr_id"))
    al = own_sites(C, x, lambda c: c.name.endswith("allocation_replication_set"))
    if R.check(len(fe) == 2 and len(al) == 1, "i-bucket", x.relfile, "a bucket takes its number and those of its sets", f"{len(fe)} {len(al)}"):
        one = [f for f in fe if konst(f[1][2]) == 1]
        many = [f for f in fe if konst(f[1][2]) is None]
        ok = len(one) == 1 and len(many) == 1
        R.check(ok, "i-bucket", x.relfile, "first one, then as many as were used", str([show(f[1][2])[:80] for f in fe]))
        if ok:
            u = many[0][1][2]
            R.check(u[0] == "fld" and str(u[1]) == "1" and call(u[2], "allocation_replication_set"), "i-used", many[0][0].where, "as many numbers are taken as were used", show(u)[:100])
            R.check(plus_one(al[0][1][3], lambda t: unok(t)[0] == "call" and unok(t)[1].endswith("fetch_and_add_incr_id") and konst(unok(t)[2][2]) == 1), "i-first", al[0][0].where, "the sets' numbers follow the bucket's", show(al[0][1][3])[:100])
            R.check(ev_before(F, ((x.id, one[0][0].bb),), ((x.id, many[0][0].bb),)), "i-order", x.relfile, "with nothing taken in between")
    allocation(R, F)


def allocation(R, F):
    x = R.body("models::meta_data::allocation_replication_set")
    C = Cond(F)
    from va.core import place, op_place
    D = x.defs()
    ctr = None
    for l, ds in D.items():
        if any(k == "=" and p[0] == "use" and op_place(p[1]) == "4" for (_, _, dp, k, p) in ds if not dp) and len(ds) > 1:
            ctr = l
    if ctr is None:
        return  # written without a running counter: the uses below are all there is to say
    T = C.T
    incs = []
    for (bb, idx, dp, k, p) in D[ctr]:
        t = T.rv(x, p, (bb, idx), 0, ()) if k == "=" else None
        if t is not None and t == P(x.id, 4):
            continue
        incs.append((bb, idx))
        s = show(t) if t is not None else "a call"
        R.check(t is not None and plus_one(t, lambda q: True), "al-step", f"{x.relfile}", "the next number is one more", s[:120])
    uses = []
    for bb, bl in enumerate(x.blocks):
        for i, s in enumerate(bl["s"]):
            if s[0] == "=" and s[2][0] == "use" and op_place(s[2][1]) == str(ctr) and s[1] != str(ctr):
                tgt = s[1]
                # read into what is subtracted at the end is not a number handed out
                if any(q[0] == "=" and q[2][0] == "bin" and tgt in (op_place(q[2][2]), op_place(q[2][3])) for q in bl["s"][i + 1:]):
                    continue
                uses.append((bb, i))
    R.floor(len(uses), 2, "numbers handed out")
    for u in uses:
        seen, work, hit = set(), [(u[0], u[1] + 1)], False
        while work and not hit:
            bb, i = work.pop()
            stop = False
            for j in range(i, len(x.blocks[bb]["s"]) + 1):
                if (bb, j) in incs:
                    stop = True
                    break
                if (bb, j) in uses:
                    hit = True
                    break
            if stop or hit:
                continue
            for s in x.succs(bb):
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        R.check(not hit, "al-twice", x.relfile, "no number is handed out twice", "a number can be used again before the next is taken")
    for cd, t in C.ret_cases(x):
        if t[0] == "agg" and len(t[2]) == 2:
            u = t[2][1]
            while u[0] == "fld" and str(u[1]) == "0":
                u = u[2]
            R.check(u[0] == "bin" and u[1].startswith("Sub") and u[3] == P(x.id, 4), "al-used", x.relfile, "the count is the numbers used", show(t[2][1])[:120])


# ---------------------------------------------------------------- snapshots
def snapshot(R, F):
    C = Cond(F, no_inline=r"StateMachine::(backup|process_write_command)$")
    b = R.body(SM + "backup")
    ins = own_sites(C, b, lambda c: bool(re.search(r"(BTreeMap|HashMap)(<.*>)?::insert$", c.fid or c.name)))
    R.check(len(ins) == 1, "n-all", b.relfile, "a backup takes the pairs")
    for c, a, cd in ins:
        k, v = tostr(a[1]), tostr(a[2])
        it = lambda t, i: t[0] == "fld" and str(t[1]) == i and has(t, lambda y: y == ("fld", "db", P(b.id, 1)))
        R.check(it(k, "0") and it(v, "1"), "n-pair", c.where, "each key with its value", f"{show(k)[:60]} / {show(v)[:60]}")
        for cj in cd:
            for t, vs, pos in cj:
                R.check(t[0] == "disc", "n-every", c.where, "every pair", f"a pair is left out unless {show(t)[:100]}")
    def core(n):
        b = F.get(f"<meta::store::storage::StateMachine as replication::ApplyStorage>::{n}")
        for x in F.bodies("meta", pat=r"StateMachine as .*ApplyStorage>::%s$" % n):
            b = x
        R.check(b is not None, "n-fn", ST, f"the state machine has {n}")
        while b is not None and F.get(b.id + "::{closure#0}") is not None and F.get(b.id + "::{closure#0}").co:
            b = F.get(b.id + "::{closure#0}")
        return b
    s = core("create_snapshot")
    if s is not None:
        for cd, t in C.ret_cases(s):
            if t[0] == "agg" and t[1].endswith("::Ok"):
                p = t[2][0]
                R.check(p[0] == "agg" and has(p[2][0], lambda y: y[0] == "call" and y[1].endswith("to_vec") and has(y, lambda z: call(z, "StateMachine::backup"))) and p[2][1][0] == "param", "n-snap", s.relfile, "a snapshot is the whole backup at the given point", show(t)[:120])
        w = [(a, cd) for p, a, cd in C.writes(s, "snapshot")]
        R.check(len(w) == 1, "n-kept", s.relfile, "and is kept")
    r = core("restore")
    if r is not None:
        clr = call_events(C, r, lambda c: bool(re.search(r"Database(<.*>)?::clear$", c.fid or c.name)))
        puts = call_events(C, r, lambda c: bool(re.search(r"Database(<.*>)?::put$", c.fid or c.name)))
        com = call_events(C, r, lambda c: c.name.endswith("RwTxn::commit"))
        if R.check(len(clr) == 1 and len(puts) == 1 and len(com) == 1, "n-rest", r.relfile, "restoring clears, stores and commits", f"{len(clr)} {len(puts)} {len(com)}"):
            R.check(strip(clr[0][1][1]) == strip(puts[0][1][1]) == strip(com[0][1][0]), "n-txn", r.relfile, "in one transaction")
            R.check(ev_before(F, clr[0][3], puts[0][3]) and ev_before(F, clr[0][3], com[0][3]), "n-order", r.relfile, "cleared first")
            a = puts[0][1]
            it = lambda t, i: t[0] == "fld" and str(t[1]) == i and has(t, lambda y: y[0] == "call" and y[1].endswith("from_slice"))
            R.check(it(a[2], "0") and it(a[3], "1"), "n-put", puts[0][0].where, "each pair of the snapshot", f"{show(a[2])[:60]} / {show(a[3])[:60]}")
            for cj in puts[0][2]:
                for t, vs, pos in cj:
                    R.check(t[0] == "disc", "n-putall", puts[0][0].where, "every pair of the snapshot", f"a pair is left out unless {show(t)[:100]}")
        propagates(R, F, r, lambda c: bool(re.search(r"Database(<.*>)?::(put|clear)$|RwTxn(<.*>)?::commit$|from_slice$|write_txn$", c.fid or c.name)), "n-fail", "restore")
        wl = [c for c, a, cd, ch in call_events(C, r, lambda c: bool(re.search(r"Watch::\w+$", c.name)))]
        wl = [c for c in wl if F.get(c.res or c.fid) is not None and any(q.name.endswith("CircleBuf::new") or q.name.endswith("CircleBuf::clear") for q in F.get(c.res or c.fid).calls())]
        R.check(bool(wl), "n-log", r.relfile, "restoring starts the change log anew", "the change log keeps entries from before the snapshot: watchers who follow it miss what the snapshot brought")
    ap = core("apply")
    if ap is not None:
        pw = own_sites(C, ap, lambda c: c.name.endswith("process_write_command"))
        R.check(len(pw) == 1, "n-apply", ap.relfile, "an entry is applied once")
        for c, a, cd in pw:
            R.check(a[0][0] == "param" and a[1][0] == "ok" and has(a[1], lambda y: y[0] == "call" and y[1].endswith("from_slice") and any(z[0] == "param" for z in walk(y[2][0]))), "n-cmd", c.where, "the command is the entry's", show(a[1])[:120])
