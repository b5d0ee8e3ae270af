"""The series index: every series is found again, under one id, by its key, its id and its tags."""
import itertools
import re
from va.cond import Cond, konst
from va.terms import walk, show, alts
from va.lib import *
from rules.c29 import is_next, layers

PKGS = ["tskv"]
CRATES = ["tskv", "models"]
RULE = """For every operation of the index (TSIndex, its two caches, and the key-value store under it) the effects (calls that change
a map, a bitmap, the store or the id counter, with their arguments as terms over the function's own operands) and the successful
returns are compared with a table; the condition of each, over all paths, must be equivalent to the table's as a boolean
function. (1) A key that is in the cache or the store keeps its id; only one that is in neither gets counter+1, which is what is returned and
written; a rebuilt series raises the counter above its id. (2) A look-up asks the unflushed part, then the read
cache (which compares the whole key, not its hash), then the store. (3) Adding enters the series by id, by key and by every tag (one
without tags under the empty tag), deleting removes all of these from both caches and the store, or fails; an update deletes, leaves a tombstone, then enters the
new key under the same id. (4) A flush first stores the counter, then in one transaction every id, key and merged bitmap, commits, syncs, and only
then forgets; a failure of any step is returned. (5) A query is the union of the unflushed part and the store, per range, per listed value or of
the whole table; tag conditions are intersected; a scan of a table leaves out tables whose name merely starts with its name
and a dot. (6) Keys are injective: prefix, then each part with its length, or table.tag=value with bounds < and >."""
TI = "tskv::index::ts_index::TSIndex::"
IC = "tskv::index::cache::IndexCache::"
FC = "tskv::index::cache::ForwardCache::"
MC = "tskv::index::cache::IndexMemCache::"
EN = "tskv::index::engine2::IndexEngine2::"
TX = "tskv::index::ts_index::"
KNOWN = ("write|cache|del|get_series_id_by_key|get_series_key_by_id|add|add_inverted|del_inverted|get_inverted_by_range|get_inverted_by_tags|flush|"
         "new|add_series_for_rebuild|add_series_if_not_exists|get_series_id|get_series_key|add_tombstone_series|clear_tombstone_series|get_tombstone_series_id|del_series_info|update_series_key|check_to_flush|"
         "get_series_id_list|get_series_id_bitmap|prepare_update_tags_value|get_series_ids_by_domains|get_series_ids_by_domain|"
         "reader_txn|writer_txn|txn_write|txn_merge_rb|set|get|delete|exist|del_prefix|get_rb|set_rb|modify|merge_rb|get_series_id_by_range|get_series_id_by_tags")
NI = (r"tskv::index::(cache::(IndexCache|ForwardCache|IndexMemCache)|engine2::IndexEngine2|ts_index::TSIndex)::(%s)$|SeriesKey::\w+$|decode_be_u32$|convert_bound$|"
      r"ts_index::(encode_series_id_key|encode_inverted_(max_|min_)?index_key|encode_series_key|encode_tombstone_series_key|filter_range_to_\w+|scalar_value_to_tag_value)$") % KNOWN
DROP = re.compile(r"::(clone|to_vec|to_owned|to_string|deref|deref_mut|as_ref|as_bytes|as_slice|as_str|iter|into_iter|iter_mut|collect|into|from|borrow|cloned|copied|by_ref|as_mut|inserted|must_use|into_vec)$")
# what can fail: a condition that one of these succeeded is no condition
STEP = re.compile(r"IndexEngine2::\w+$|heed::.*(Database|Env|RwTxn|RoTxn)\w*(::<[^>]*>)?::\w+$|(Database|RwTxn|Env)::\w+$|::commit$|TSIndex::\w+$|IndexMemCache::flush$|::(serialize_into|deserialize_from|decode)$")
LOG = re.compile(r"STATIC_MAX_LEVEL|is_never|interest|__CALLSITE|is_enabled|tracing|LevelFilter|enabled\(")
BIT = {"bitor": "|", "bitor_assign": "|", "bitand": "&", "bitand_assign": "&"}
PRE = re.compile(r"^(index|cache|engine2|ts_index)$")


def bitop(t):
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[1]
        if n in BIT and len(t[2]) == 2:
            return BIT[n]
    return None


def leaves(t, out, depth=0):
    """the alternatives of a value built up in a loop: the start values, and how it grows"""
    for a in alts(t):
        o = bitop(a)
        if o:
            l, r = a[2]
            if bitop(r) or r[0] in ("phi", "loop"):
                l, r = r, l
            out.add(o + rd(r))
            if depth < 6:
                leaves(l, out, depth + 1)
        elif show(a) not in ("loop()", "loop"):
            out.add(rd(a))


def rd(t):
    k = t[0]
    if k in ("await", "poll"):
        return rd(t[1])
    if k == "ok":
        s = rd(t[1])
        m = re.match(r"^(into_)?(values|values_mut|keys)\((.*)\)$", s)
        if m and m.group(3).count("(") == m.group(3).count(")"):
            return m.group(3) + ("?.0" if m.group(2) == "keys" else "?.1")
        return s + "?"
    if k == "err":
        return "err"
    if k == "param":
        return f"${t[2]}"
    if k == "fld":
        n = str(t[1])
        s = rd(t[2])
        if n in ("0", "1") and s.startswith("zip(") and s.endswith(")?"):
            d, cut = 0, None
            for i, ch in enumerate(s[4:-2]):
                d += {"(": 1, ")": -1, "{": 1, "}": -1}.get(ch, 0)
                if d == 0 and ch == ",":
                    cut = i + 4
            if cut:         # the element of one of the two that are walked together
                return (s[4:cut] if n == "0" else s[cut + 2:-2]) + "?"
        return s + "." + n
    if k == "phi" or bitop(t) and has(t, lambda x: x[0] == "phi"):
        s = set()
        leaves(t, s)
        return "{" + " ".join(sorted(s)) + "}"
    if k == "call":
        if DROP.search(t[1]) and len(t[2]) == 1:
            return rd(t[2][0])
        n = t[1].rsplit("::", 1)[1]
        a = [rd(x) for x in t[2]]
        if n == "next" and len(a) == 1:
            return a[0]
        if n == "{constructor#0}":
            n = t[1].rsplit("::", 2)[1]
            return n + "{" + ", ".join(a) + "}"
        if bitop(t):
            return f" {bitop(t)} ".join(sorted(a))
        if n == "new" and len(a) == 1:
            return a[0]
        if n in ("with_capacity", "default") and len(a) <= 1:
            return "new()"
        if n in ("table", "tags") and len(a) == 1 and "SeriesKey" in t[1]:
            return a[0] + "." + n
        if n == "unwrap_or_default" and len(a) == 1 or n in ("unwrap_or", "unwrap_or_else") and len(a) == 2 and a[1] in ("new", "new()", "default"):
            return "{" + a[0] + "? new()}"
        return n + "(" + ", ".join(a) + ")"
    if k == "agg":
        n = t[1].rsplit("::", 1)[-1]
        if n == "SeriesKey" and len(t[2]) == 2:
            a = [rd(x) for x in t[2]]
            m = re.match(r"(.*)\.tags$", a[0])
            if m and a[1] == m.group(1) + ".table":
                return m.group(1)       # a clone of the key
        if t[1].startswith("closure:"):
            return "closure{" + ", ".join(map(rd, t[2])) + "}"
        return n + "{" + ", ".join(map(rd, t[2])) + "}"
    if k == "bin":
        return f"({rd(t[2])} {t[1]} {rd(t[3])})"
    if k == "disc":
        return rd(t[1])
    if k == "cast":
        return rd(t[2] if len(t) > 2 and isinstance(t[2], tuple) else t[1])
    return re.sub(r"\w+#(\d+)", r"$\1", show(t))


def atoms(dnf, text, top):
    """dnf as a list of {atom: values}; what follows from the value being there, logging and success of steps left out"""
    out = []
    for cj in dnf:
        d = {}
        for t, vs, p in cj:
            if LOG.search(show(t)[:2000]):
                continue
            s = rd(t)
            m = re.match(r"^(?:into_)?(?:values|values_mut|keys)\((.*)\)$", s)
            if m and m.group(1).count("(") == m.group(1).count(")"):
                s = m.group(1)
            dom = {"0", "1"} if t[0] != "disc" or not re.match(r"^\$\d+$", s) or s not in top else top[s]
            v = set(vs) & dom if p else dom - set(vs)
            if v == dom:
                continue
            if t[0] == "disc":
                core = t[1]
                while core[0] == "await":
                    core = core[1]
                while core[0] == "poll":
                    core = core[1]
                if core[0] == "call" and STEP.search(core[1]) and v == {"0"} or core[0] == "agg" and core[1].startswith("coroutine:") and v == {"0"}:
                    continue
                if v == {"1"} and (s + "?" in text or s.startswith("zip(")) or v == {"0"} and s + "?" in text:
                    continue
            m = re.match(r"^is_empty\((.*)\)$", s)
            if m and v == {"0"} and m.group(1) + "?" in text:
                continue
            d[s] = d.get(s, dom) & v
        if all(d.values()):
            out.append(d)
    return out


def table(e):
    out = []
    for cj in e.split(" || "):
        d = {}
        for l in cj.split(" && "):
            l = l.strip()
            if l:
                a, v = l.rsplit(":", 1)
                d[a] = set(v.split("/"))
        out.append(d)
    return out


def equal(a, b, top):
    names = sorted({k for d in a + b for k in d})
    if len(names) > 9:
        return a == b
    dom = [sorted(top.get(n, {"0", "1"})) for n in names]
    for vs in itertools.product(*dom):
        w = dict(zip(names, vs))
        if any(all(w[k] in v for k, v in d.items()) for d in a) != any(all(w[k] in v for k, v in d.items()) for d in b):
            return False
    return True


def text(d):
    return " || ".join(sorted({" && ".join(f"{k}:{'/'.join(sorted(v))}" for k, v in sorted(x.items())) for x in d}))[:300]


def squeeze(a):
    a = re.sub(r"\s+", " ", a).strip()
    while True:
        m = re.search(r"\b(table|tags)\(", a)
        if not m:
            return a
        d, i = 1, m.end()
        while d:
            d += {"(": 1, ")": -1}.get(a[i], 0)
            i += 1
        a = a[:m.start()] + a[m.end():i - 1] + "." + m.group(1) + a[i:]


def split_top(s):
    """split at ; outside brackets"""
    return [squeeze(x) for x in s.split(" ; ")]


# function -> effects "callee : arg ; arg ; ... [IF cond]" and returns "= value [IF cond]"; ALT lines: "~" repeats a key with another accepted form
KEY = "encode_series_key(table(%s), tags(%s))"
SPEC = {}


def spec(fid, eff, text_, top=None, **mac):
    L = []
    for ln in text_.strip().splitlines():
        ln = ln.strip()
        if not ln:
            continue
        for k in sorted(mac, key=len, reverse=True):
            ln = ln.replace("%" + k, mac[k])
        body, _, cond = ln.partition(" IF ")
        cond = squeeze(cond)
        if body.startswith("="):
            L.append(("=", [squeeze(body[1:])], cond))
        else:
            n, _, a = body.partition(":")
            L.append((n.strip(), split_top(a) if a.strip() else [], cond))
    SPEC.setdefault(fid, []).append((eff, L, top or {}))


def tables():
    T = TI
    st = r"IndexCache::(write|cache|del)$|IndexEngine2::(set|delete|modify|del_prefix|txn_\w+|set_rb|merge_rb|flush)$|Atomic\w*(::<[^>]*>)?::(store|fetch_\w+|swap)$|TSIndex::(check_to_flush|del_series_info|add_tombstone_series|add_series\w*|clear_tombstone_series|update_series_key)$|IndexMemCache::flush$|Vec(::<[^>]*>)?::(push|insert|extend)$"
    k = dict(K=KEY % ("$2?", "$2?"), K2=KEY % ("$2", "$2"), K3=KEY % ("$3", "$3"))
    hit = "get_series_id_by_key($1.cache, $2?)"
    stg = "get($1.storage, %s)" % k["K"]
    spec(T + "add_series_if_not_exists", st, """
        push : new() ; (){%h?, $2?}                                         IF %h:1
        push : new() ; (){decode_be_u32(%s??), $2?}                         IF %h:0 && %s?:1
        cache : $1.cache ; decode_be_u32(%s??) ; $2?                        IF %h:0 && %s?:1
        fetch_add : $1.incr_id ; 1_u32                                      IF $2:1 && %h:0 && %s?:0
        push : new() ; (){%n, $2?}                                          IF %h:0 && %s?:0
        write : $1.cache ; %n ; $2?                                         IF %h:0 && %s?:0
        check_to_flush : $1 ; false                                         IF $2:1 && %h:0 && %s?:0
        = Ok{new()}
        """, h=hit, s=stg, n="(fetch_add($1.incr_id, 1_u32) Add 1_u32)")
    spec(T + "add_series_for_rebuild", st, """
        store : $1.incr_id ; ($2 Add 1_u32)     IF %e?:0 && ($2 Lt load($1.incr_id)):0
        write : $1.cache ; $2 ; $3              IF %e?:0
        = Ok{(){}}
        """, e="exist($1.storage, %s)" % k["K3"])
    spec(T + "get_series_id", st, """
        cache : $1.cache ; decode_be_u32(%s??) ; $2  IF %h:0 && %s?:1
        = Ok{Some{%h?}}                     IF %h:1
        = Ok{Some{decode_be_u32(%s??)}}     IF %h:0 && %s?:1
        = Ok{None{}}                        IF %h:0 && %s?:0
        """, h="get_series_id_by_key($1.cache, $2)", s="get($1.storage, %s)" % k["K2"])
    spec(T + "get_series_key", st, """
        cache : $1.cache ; $2 ; decode(%s??)?   IF %h:0 && %s?:1
        = Ok{Some{%h?}}                     IF %h:1
        = Ok{Some{decode(%s??)?}}           IF %h:0 && %s?:1
        = Ok{None{}}                        IF %h:0 && %s?:0
        """, h="get_series_key_by_id($1.cache, $2)", s="get($1.storage, encode_series_id_key($2))")
    spec(T + "add_tombstone_series", st, """
        set : $1.storage ; encode_tombstone_series_key(table($3), tags($3)) ; to_be_bytes($2)
        """)
    spec(T + "get_tombstone_series_id", st, """
        = Ok{Some{decode_be_u32(%s??)}}     IF %s?:1
        = Ok{None{}}                        IF %s?:0
        """, s="get($1.storage, encode_tombstone_series_key(table($2), tags($2)))")
    spec(T + "clear_tombstone_series", st, "del_prefix : $1.storage ; TOMBSTONE_PREFIX")
    spec(T + "del_series_info", st, """
        delete : $1.storage ; encode_series_id_key($2)
        delete : $1.storage ; encode_series_key(table(%k??), tags(%k??))
        del : $1.cache ; $2 ; %k??
        modify : $1.storage ; encode_inverted_index_key(table(%k??), tags(%k??)?.key, tags(%k??)?.value) ; $2 ; false
        modify : $1.storage ; encode_inverted_index_key(table(%k??), []{}, []{}) ; $2 ; false   IF is_empty(tags(%k??)):1
        check_to_flush : $1 ; false         IF %k?:0 || %k?:1
        = Ok{(){}}
        """, k="get_series_key($1, $2)")
    spec(T + "update_series_key", st, """
        del_series_info : $1 ; $4?
        add_tombstone_series : $1 ; $4? ; $2?
        write : $1.cache ; $4? ; $3?
        check_to_flush : $1 ; false
        = Ok{(){}}
        """)
    spec(T + "check_to_flush", st, """
        fetch_add : $1.write_count ; 1_u32
        set : $1.storage ; AUTO_INCR_ID_KEY ; to_be_bytes(load($1.incr_id))     IF $2:1 || %c:0
        flush : $1.cache.write_cache ; $1.storage                               IF $2:1 || %c:0
        store : $1.write_count ; 0_u32                                          IF $2:1 || %c:0
        = Ok{(){}}
        """, c="(fetch_add($1.write_count, 1_u32) Lt 10000_u32)")
    spec(T + "flush", st, """
        check_to_flush : $1 ; true
        = Ok{(){}}
        """)
    spec(T + "get_series_id_list", st, """
        push : new() ; get_series_id_bitmap($1, $2, $3)??
        = Ok{new()}
        """)
    spec(T + "get_series_id_list", st, "= Ok{get_series_id_bitmap($1, $2, $3)?}")
    for x, y in (("get_inverted_by_tags($1.cache.write_cache, $2, $3)", "get_series_id_by_tags($1.storage, $2, $3)?"), ("get_series_id_by_tags($1.storage, $2, $3)?", "get_inverted_by_tags($1.cache.write_cache, $2, $3)")):
        spec(T + "get_series_id_bitmap", st + r"|bitor_assign$", f"""
            bitor : _ ; {x}
            = Ok{{{y}}}
            """)
    spec(T + "get_series_id_bitmap", st, "= Ok{get_inverted_by_tags($1.cache.write_cache, $2, $3) | get_series_id_by_tags($1.storage, $2, $3)?}")
    rg, en = "low_indexed_ranges", "entries"
    R_ = "$4.Range.0.low_indexed_ranges.segments.segments"
    E_ = "$4.Equtable.0.entries.segments.segments"
    tg = "[]{Tag{$3, scalar_value_to_tag_value(%s?.value)}}" % E_
    dm = {"$4": {"0", "1", "2", "3"}}
    spec(T + "get_series_ids_by_domain", r"bit(or|and)(_assign)?$", """
        bitor : _ ; get_inverted_by_range($1.cache.write_cache, $2, $3, filter_range_to_value_range(%R?.1))     IF $4:0
        bitor : _ ; get_series_id_by_range($1.storage, filter_range_to_index_key_range($2, $3, %R?.1))?         IF $4:0
        bitor : _ ; get_inverted_by_tags($1.cache.write_cache, $2, %T)                                          IF $4:1 && $4.Equtable.0.white_list:1
        bitor : _ ; get_series_id_by_tags($1.storage, $2, %T)?                                                  IF $4:1 && $4.Equtable.0.white_list:1
        = Ok{new()}                                                                                             IF $4:2
        = Ok{{get_series_id_bitmap($1, $2, []{})? new() |get_inverted_by_range($1.cache.write_cache, $2, $3, filter_range_to_value_range(%R?.1)) |get_inverted_by_tags($1.cache.write_cache, $2, %T) |get_series_id_by_range($1.storage, filter_range_to_index_key_range($2, $3, %R?.1))? |get_series_id_by_tags($1.storage, $2, %T)?}}   IF $4:0/1/3
        """, top=dm, R=R_, T=tg)
    cd = "$3.column_to_domain"
    spec(T + "get_series_ids_by_domains", r"bit(or|and)(_assign)?$|Vec(::<[^>]*>)?::push$", """
        push : new() ; get_series_ids_by_domain($1, $2.name, %i, %c??.1)?   IF is_empty(%c?):0
        bitand : _ ; $3                                                     IF %c:1 && is_empty(%c?):0
        = Ok{get_series_id_list($1, $2.name, []{})?}                             IF %c:1 && is_empty(%c?):1
        = Ok{new()}                                                         IF %c:0
        = Ok{reduce(new(), closure{})?}                                     IF %c:1 && is_empty(%c?):0
        """, c=cd, i="get_unchecked($2.columns, get($2.columns_index, %s??.0)?).id" % cd)
    nk = "SeriesKey{flat_map(map(new()?.tags, closure{}), closure{}), new()?.table}"
    spec(T + "prepare_update_tags_value", r"Vec(::<[^>]*>)?::push$|HashMap(::<.*>)?::(insert|remove)$|sort_tags$", """
        push : new() ; get_series_id($1, $3?)??
        push : new() ; $3?                                      IF get_series_id($1, $3?)?:1
        insert : map(new()?.tags, closure{}) ; $2?.key ; $2?.value    IF $2:1 && new():1
        sort_tags : flat_map(map(new()?.tags, closure{}), closure{})
        push : new() ; %n                                       IF $4:0 || $4:1 && %g?:0
        = Err{SeriesAlreadyExists{new()?, generate(), generate()}}      IF $4:1 && %g?:1
        = Err{SeriesAlreadyExists{"new series keys", generate(), generate()}}      IF (len(new()) Eq len(new())):0
        = Ok{(){new(), new(), new()}}                           IF (len(new()) Eq len(new())):1
        """, n=nk, g="get_series_id($1, %s)" % nk)
    # the caches
    ca = r"cache::(IndexMemCache|ForwardCache)::(add|del|add_inverted|del_inverted)$|SyncCache(::<[^>]*>)?::(insert|remove|clear)$|SyncCache>?::(insert|remove|clear)$|(HashMap|BTreeMap)(::<.*>)?::(insert|remove|clear|retain|drain)$|RoaringBitmap.*::(insert|remove)$"
    spec(IC + "write", ca, "add : $1.write_cache ; $2 ; $3")
    spec(IC + "cache", ca, "add : $1.read_cache ; $2 ; $3")
    spec(IC + "del", ca, """
        del : $1.write_cache ; $2 ; $3
        del : $1.read_cache ; $2 ; hash($3)
        """)
    for f in ("get_series_id_by_key", "get_series_key_by_id"):
        spec(IC + f, ca, """
            = Some{%w?}     IF %w:1
            = Some{%r?}     IF %w:0 && %r:1
            = None{}        IF %w:0 && %r:0
            """, w=f + "($1.write_cache, $2)", r=f + "($1.read_cache, $2)")
    info = "SeriesKeyInfo{$3, hash($3), $2}"
    spec(FC + "add", ca, """
        insert : $1.id_map ; $2 ; %i
        insert : $1.hash_map ; %h ; %i
        """, i=info, h="hash($3)")
    spec(FC + "del", ca, """
        remove : $1.id_map ; $2
        remove : $1.hash_map ; $3
        """)
    spec(FC + "get_series_id_by_key", ca, """
        = Some{%g?.id}  IF %g:1 && (%g?.key Eq $2):1
        = None{}        IF %g:0 || (%g?.key Eq $2):0
        """, g="get($1.hash_map, hash($2))")
    spec(FC + "get_series_key_by_id", ca, """
        = Some{get($1.id_map, $2)?.key}     IF get($1.id_map, $2):1
        = None{}                            IF get($1.id_map, $2):0
        """)
    spec(MC + "get_series_key_by_id", ca, """
        = Some{get($1.id_map, $2)?.key}     IF get($1.id_map, $2):1
        = None{}                            IF get($1.id_map, $2):0
        """)
    spec(MC + "get_series_id_by_key", ca, """
        = Some{%g?.id}  IF %g:1
        = None{}        IF %g:0
        """, g="get($1.key_map, encode_series_key($2.table, $2.tags))")
    spec(MC + "add", ca, """
        add_inverted : $1 ; table($3) ; tags($3)?.key ; tags($3)?.value ; $2
        add_inverted : $1 ; table($3) ; []{} ; []{} ; $2        IF is_empty(tags($3)):1
        insert : $1.id_map ; $2 ; %i
        insert : $1.key_map ; encode_series_key($3.table, $3.tags) ; %i
        """, i=info)
    spec(MC + "del", ca, """
        del_inverted : $1 ; table($3) ; tags($3)?.key ; tags($3)?.value ; $2
        del_inverted : $1 ; table($3) ; []{} ; []{} ; $2        IF is_empty(tags($3)):1
        remove : $1.id_map ; $2
        remove : $1.key_map ; encode_series_key($3.table, $3.tags)
        """)
    t1 = "get_mut($1.inverted, $2)"
    t2 = "get_mut(%s?, $3)" % t1
    t3 = "get_mut(%s?, $4)" % t2
    spec(MC + "del_inverted", ca, "remove : %c? ; $5", c=t3)
    spec(MC + "add_inverted", ca, """
        insert : %c? ; $5
        insert : new() ; $5             IF %a:0 || %a:1 && %b:0 || %a:1 && %b:1 && %c:0
        insert : %b? ; $4 ; new()       IF %c:0
        insert : new() ; $4 ; new()     IF %a:0 || %a:1 && %b:0
        insert : %a? ; $3 ; new()       IF %b:0
        insert : new() ; $3 ; new()     IF %a:0
        insert : $1.inverted ; $2 ; new()   IF %a:0
        """, a=t1, b=t2, c=t3)
    spec(MC + "add_inverted", ca, "insert : or_default(entry(or_default(entry(or_default(entry($1.inverted, $2)), $3)), $4)) ; $5")
    spec(MC + "add_inverted", ca, "insert : or_insert_with(entry(or_insert_with(entry(or_insert_with(entry($1.inverted, $2), new), $3), new), $4), new) ; $5")
    fl = r"Database\w*(::<.*>)?::(put|delete)$|IndexEngine2::\w+$|::commit$|HashMap(::<.*>)?::(clear|remove|retain|drain)$"
    spec(MC + "flush", fl, """
        writer_txn : $2
        put : $2.db ; %w ; encode_series_key(table($1.id_map?.1.key), tags($1.id_map?.1.key)) ; to_be_bytes($1.id_map?.0)
        put : $2.db ; %w ; encode_series_id_key($1.id_map?.0) ; encode($1.id_map?.1.key)
        txn_merge_rb : $2 ; encode_inverted_index_key($1.inverted?.0, $1.inverted?.1?.0, $1.inverted?.1?.1?.0) ; $1.inverted?.1?.1?.1 ; %w
        commit : %w
        flush : $2
        clear : $1.id_map
        clear : $1.key_map
        clear : $1.inverted
        = Ok{(){}}
        """, w="writer_txn($2)?")
    # the store
    es = r"IndexEngine2::(set|set_rb|delete|modify|txn_write)$|Database\w*(::<.*>)?::(put|delete|delete_range|clear)$|::(put|delete|delete_range|commit|force_sync)$|serialize_into$|RoaringBitmap.*::(insert|remove)$|roaring.*::(insert|remove)$"
    w = "writer_txn($1)?"
    spec(EN + "txn_write", es, """
        put : $1.db ; $4 ; $2 ; $3
        = Ok{(){}}
        """)
    spec(EN + "set", es, """
        put : $1.db ; %w ; $2 ; $3
        commit : %w
        = Ok{(){}}
        """, w=w)
    spec(EN + "delete", es, """
        delete : $1.db ; %w ; $2
        commit : %w
        = Ok{(){}}
        """, w=w)
    spec(EN + "get", es, """
        = Ok{Some{%g??}}    IF %g?:1
        = Ok{None{}}        IF %g?:0
        """, g="get($1.db, reader_txn($1)?, $2)")
    spec(EN + "exist", es, """
        = Ok{true}          IF get($1, $2)?:1
        = Ok{false}         IF get($1, $2)?:0
        """)
    spec(EN + "flush", es, """
        force_sync : $1.env
        = Ok{(){}}
        """)
    spec(EN + "get_rb", es, """
        = Ok{Some{deserialize_from(%g??)?}}     IF %g?:1
        = Ok{None{}}                            IF %g?:0
        """, g="get($1, $2)")
    spec(EN + "set_rb", es, """
        serialize_into : $3 ; new()
        set : $1 ; $2 ; new()
        """)
    for r in ("{get_rb($1, $2)?? new()}", "get_rb($1, $2)??"):
        spec(EN + "modify", es, """
            insert : %r ; $3        IF $4:1
            remove : %r ; $3        IF $4:0
            set_rb : $1 ; $2 ; %r
            """, r=r)
    spec(EN + "txn_merge_rb", es + r"|bit(or|and)$", """
        bitor : _ ; %x                             IF %g?:1
        serialize_into : $3 ; new()                 IF %g?:0
        serialize_into : $3 | %d ; new()            IF %g?:1
        put : $1.db ; $4 ; $2 ; new()
        = Ok{(){}}
        """, g="get($1.db, $4, $2)", d="deserialize_from(get($1.db, $4, $2)??)?", x="$3")
    spec(EN + "txn_merge_rb", es + r"|bit(or|and)$", """
        bitor : _ ; $3                             IF %g?:1
        serialize_into : {$3 %d |$3} ; new()
        put : $1.db ; $4 ; $2 ; new()
        = Ok{(){}}
        """, g="get($1.db, $4, $2)", d="deserialize_from(get($1.db, $4, $2)??)?")
    bits = r"bit(or|and)(_assign)?$"
    rg = "range($1.db, reader_txn($1)?, (){convert_bound($2.low), convert_bound($2.high)})"
    spec(EN + "get_series_id_by_range", bits, """
        bitor : _ ; deserialize_from(%r???.1)?      IF $2.low:1 || $2.high:1 || %e:0
        = Ok{get_rb($1, $2.low.Included.0)??}       IF $2.low:0 && $2.high:0 && %e:1
        = Ok{new()}                                 IF $2.low:0 && $2.high:0 && %e:1 && get_rb($1, $2.low.Included.0)?:0
        = Ok{{new() |deserialize_from(%r???.1)?}}   IF $2.low:1 || $2.high:1 || %e:0
        """, r=rg, e="($2.low.Included.0 Eq $2.high.Included.0)")
    bd = {"$1": {"0", "1", "2"}}
    spec(EN + "get_series_id_by_range", bits, """
        bitor : _ ; deserialize_from(%r???.1)?      IF $2.low:1 || $2.high:1 || %e:0
        = Ok{get_rb($1, $2.low.Included.0)??}       IF $2.low:0 && $2.high:0 && %e:1
        = Ok{{new() |deserialize_from(%r???.1)?}}   IF $2.low:1 || $2.high:1 || %e:0
        """, r=rg, e="($2.low.Included.0 Eq $2.high.Included.0)")
    spec("tskv::index::engine2::convert_bound", bits, "= map($1, closure{})")
    spec("tskv::index::engine2::convert_bound", bits, """
        = Included{$1.Included.0}   IF $1:0
        = Excluded{$1.Excluded.0}   IF $1:1
        = Unbounded{}               IF $1:2
        """, top=bd)
    # keys
    ex = r"Vec(::<.*>)?::(extend_from_slice|extend|push|insert)$|::extend(_from_slice)?$"
    spec(TX + "encode_series_id_key", ex, """
        extend_from_slice : new() ; SERIES_ID_PREFIX
        extend_from_slice : new() ; to_be_bytes($1)
        = new()
        """)
    for f, p in (("encode_series_key", "SERIES_KEY_PREFIX"), ("encode_tombstone_series_key", "TOMBSTONE_PREFIX")):
        spec(TX + f, ex, """
            extend_from_slice : new() ; %p
            extend_from_slice : new() ; to_be_bytes(len($1))
            extend_from_slice : new() ; $1
            extend_from_slice : new() ; to_be_bytes(len($2?.key))
            extend_from_slice : new() ; $2?.key
            extend_from_slice : new() ; to_be_bytes(len($2?.value))
            extend_from_slice : new() ; $2?.value
            = new()
            """, p=p)
    spec(TX + "encode_inverted_index_key", ex, '= chain(chain(chain(chain($1, "."), $2), "="), $3)')
    spec(TX + "encode_inverted_min_index_key", ex, '= chain(chain(chain($1, "."), $2), "<")')
    spec(TX + "encode_inverted_max_index_key", ex, '= chain(chain(chain($1, "."), $2), ">")')


tables()


SEEN = re.compile(NI)
# what has to come before what, in the same pass
ORDER = {
    TI + "check_to_flush": [("set", "flush"), ("flush", "store")],
    TI + "update_series_key": [("del_series_info", "add_tombstone_series"), ("add_tombstone_series", "write"), ("del_series_info", "write")],
    MC + "flush": [("txn_write", "commit"), ("put", "commit"), ("txn_merge_rb", "commit"), ("commit", "flush"), ("flush", "clear")],
    EN + "set": [("put", "commit")],
    EN + "delete": [("delete", "commit")],
    EN + "set_rb": [("serialize_into", "set")],
    EN + "modify": [("insert", "set_rb"), ("remove", "set_rb")],
    EN + "txn_merge_rb": [("serialize_into", "put")],
}
FAIL = re.compile(r"IndexEngine2::(set|delete|modify|del_prefix|txn_\w+|set_rb|merge_rb|flush|get|get_rb|exist|get_series_id_by_\w+|writer_txn|reader_txn)$|::(put|delete|delete_range|commit|force_sync|serialize_into|deserialize_from|prefix_iter)$|heed::.*::(get|range)$|TSIndex::(add_tombstone_series|del_series_info|get_series_key|get_series_id\w*)$|IndexMemCache::flush$|SeriesKey::decode$")


def base(n):
    n = n.rsplit("::", 1)[1]
    return {"bitor_assign": "bitor", "bitand_assign": "bitand"}.get(n, n)


def args_of(c, a):
    out = [rd(x) for x in a]
    n = base(c.fid or c.name)
    if n in ("fetch_add", "store", "load", "fetch_sub", "swap"):
        out = [x for x in out if not re.match(r"^(Relaxed|SeqCst|AcqRel|Acquire|Release)\{\}$", x)]
    if n in ("bitor", "bitand"):
        acc = [i for i, x in enumerate(a) if bitop(x) or x[0] in ("phi", "loop") or rd(x) in ("$2", "new()") or "deserialize" in rd(x) and i == 0]
        if (c.fid or c.name).endswith("_assign"):
            acc = [0]
        if acc:
            out = ["_", out[1 - acc[0]]]
    return out


def fix(s):
    """orderings of atomics do not matter under the index's lock"""
    return re.sub(r", (Relaxed|SeqCst|AcqRel|Acquire|Release)\{\}\)", ")", s).replace("SeriesKeyInfo{$3, hash($3), $2}.hash", "hash($3)")


_rd = rd


def rd(t):        # noqa: F811
    return fix(_rd(t))


def run(R):
    F = R.F
    C = Cond(F, no_inline=NI)
    for fid, ways in SPEC.items():
        b = R.body(fid)
        n = F.get(b.id + "::{closure#0}")
        b = n if n is not None and n.co else b
        tries = [(compare(C, fid, b, *w), w) for w in ways]
        (evs, res), (eff, L, top) = next((x for x in tries if all(r[0] for r in x[0][1])), tries[0])
        for r in res:
            R.check(*r)
        key = short(fid)
        for x, y in ORDER.get(fid, ()):
            for e1 in [e for e in evs if base(e[0].fid or e[0].name) == x]:
                for e2 in [e for e in evs if base(e[0].fid or e[0].name) == y]:
                    R.check(ev_before(F, e1[3], e2[3]), f"{key}:{x}-{y}:order", e1[0].where, f"{key}: {x} comes before {y}")
        if fid != TI + "prepare_update_tags_value":
            for n in b.calls():
                if re.search(r"iterator::Iterator::next$", n.fid or "") and C.loop_of(b, n.bb) is not None:
                    through(R, C, b, n, key)
        fails = lambda c: bool(FAIL.search(c.fid or c.name))
        propagates(R, F, b, fails, f"{key}:fails", f"{key}", deep=False)
        for c in b.calls():
            h = helper_of(F, b, c)
            if h is not None and not SEEN.search(h.id.split("::{")[0]) and makes(F, h, fails):
                propagates(R, F, h, fails, f"{key}:fails", key, deep=False)
                propagates(R, F, b, lambda x: x.bb == c.bb, f"{key}:fails", key, deep=False)
        if fid in (TX + "encode_series_key", TX + "encode_tombstone_series_key", TX + "encode_series_id_key"):
            o = in_order(F, evs)
            want = [a[1] for n, a, _ in L if n != "="]
            have = [piece(args_of(e[0], e[1])[-1]) for e in o or ()]
            if len(have) == len(want) - 1:
                have = want[:1] + have      # what the buffer was made from; compared above
            R.check(o is not None and have == want, f"{key}:order", b.relfile, f"{key}: the parts in order")
    b = F.get(TI + "new::{closure#0}") or R.body(TI + "new")
    start = [rd(x[2][0]) for _, t in C.ret_cases(b) for x in walk(t) if x[0] == "agg" and x[1].endswith("TSIndex") and len(x[2]) == 4]
    R.check(bool(start) and all("AUTO_INCR_ID_KEY" in x and "decode_be_u32" in x for x in start), "TSIndex::new:counter", b.relfile, "TSIndex::new: the counter starts where the stored one stands", str(start)[:200])
    ranges(R, F, C)
    tagscan(R, F, C)


def piece(s):
    m = re.match(r"^(?:bytes|to_bytes)\((.*)\)$", s)
    return m.group(1) if m else s


def short(fid):
    return fid.split("::", 2)[-1].split("::", 1)[-1]


def bodies(F, fid):
    return [F.get(i) for i in sorted(F.ids()) if i == fid or i.startswith(fid + "::{")]


def ranges(R, F, C):
    """a range of values becomes the range of the keys of these values"""
    for f, n, unb in (("filter_range_to_index_key_range", 3, True), ("filter_range_to_value_range", 1, False)):
        b = R.body(TX + f)
        cs = [(cd, rd(t)) for cd, t in C.ret_cases(b)]
        m = [re.match(r"^\(\)\{(.*)\}$", t) for _, t in cs]
        ok = len(cs) == 1 and m[0] and re.search(r"\(\)\{\$%d\.low(, true)?\}.*\(\)\{\$%d\.high(, false)?\}" % (n, n), cs[0][1])
        if ok and unb:
            ok = ".low, true}" in cs[0][1] and ".high, false}" in cs[0][1]
        R.check(ok, f"{f}:ends", b.relfile, f"{f}: the lower end from the lower, the upper from the upper", cs[0][1][:200] if cs else "")
        seen = set()
        for x in bodies(F, TX + f):
            if x.id == TX + f:
                continue
            for cd, t in C.ret_cases(x):
                s = rd(t)
                v = re.match(r"^(Included|Excluded|Unbounded)\{(.*)\}$", s)
                if not v:
                    continue
                kind, arg = v.groups()
                d = {y for c in cd for t2, vs, p in c if t2[0] == "disc" and rd(t2[1]) == "$2" and p for y in vs}
                if "min" in arg or "max" in arg or kind == "Unbounded":
                    R.check(d == {"2"}, f"{f}:unbounded", x.relfile, f"{f}: only an open end is open", str(d))
                    seen.add("2")
                else:
                    w = {"Included": "0", "Excluded": "1"}[kind]
                    R.check(d == {w} and f".{kind}.0" in arg and "scalar_value_to_tag_value" in arg and (not unb or "encode_inverted_index_key" in arg), f"{f}:{kind}", x.relfile, f"{f}: an end that is {kind} stays so, with the key of its value", f"{s[:150]} when {d}")
                    seen.add(w)
            for c, a, cd in own_sites(C, x, lambda c: bool(re.search(r"encode_inverted_(min|max)_index_key$", c.fid or c.name))):
                lo = "1" if "min" in (c.fid or c.name) else "0"
                d = {y for c2 in cd for t2, vs, p in c2 if t2[0] == "param" and t2[2] == 3 for y in (vs if p else {"0", "1"} - set(vs))}
                R.check(d == {lo}, f"{f}:min-max", c.where, f"{f}: an open lower end is the smallest key of the tag, an open upper end the largest", str(d))
        R.check(seen == {"0", "1", "2"}, f"{f}:all", b.relfile, f"{f}: every kind of end", str(seen))
    b = R.body("tskv::byte_utils::decode_be_u32")
    R.check(any(frombe(t) is not None or "from_be_bytes" in show(t) for _, t in C.ret_cases(b)), "decode_be_u32", b.relfile, "an id is read big-endian, as it is written")


def tagscan(R, F, C):
    """the store's scan of a table, and the intersection of tags; the unflushed part likewise"""
    fid = EN + "get_series_id_by_tags"
    b = R.body(fid)
    evs = call_events(C, b, lambda c: bool(re.search(r"bit(or|and)(_assign)?$", c.fid or c.name)))
    evs = [e for e in evs if not any(SEEN.search(f.split("::{")[0]) and f.split("::{")[0] != fid for f, _ in e[3])]
    scan = [e for e in evs if base(e[0].fid or e[0].name) == "bitor"]
    both = [e for e in evs if base(e[0].fid or e[0].name) == "bitand"]
    R.check(len(scan) == 1 and len(both) == 1, "tags:ops", b.relfile, "the store: a union over the table, an intersection over the tags", f"{len(scan)} {len(both)}")
    for c, a, cd, ch in scan:
        it = [x for t in a for x in walk(t) if x[0] == "call" and x[1].endswith("::prefix_iter")]
        R.check(bool(it), "tags:scan", c.where, "the store: the whole table is a scan of its prefix")
        for x in it[:1]:
            pre = x[2][-1]
            R.check(mentions(pre, ("param", fid, 2)) and "." in str([y[1] for y in walk(pre) if y[0] == "const"] or show(pre)), "tags:prefix", c.where, "the store: the prefix is the table's name and a dot", show(pre)[:150])
            item = lambda t: has(t, lambda y: y == x)
            other = []
            mine = False
            for cj in cd:
                for t, vs, p in cj:
                    if LOG.search(show(t)[:2000]):
                        continue
                    if t[0] == "call" and t[1].endswith("::is_empty") and t[2][0] == ("param", fid, 3) and ("1" in vs) == p:
                        continue
                    if t[0] == "disc" and (STEP.search(core_call(t[1]) or "") or item(t)):
                        continue
                    if item(t):
                        mine = True
                        continue
                    other.append(show(t)[:120])
            R.check(not other, "tags:all", c.where, "the store: every key of the table counts", str(other[:2]))
            dot = any("46_u8" in show(t) or "'.'" in show(t) for t, vs, p in lits(cd)) or any(konst_of(F, y, 46) for y in bodies(F, fid) + helpers(F, b))
            R.check(mine and dot, "tags:own", c.where, "the store: keys of a table whose name continues with a dot are left out", "the scan by the prefix `table.` also takes the keys of tables named `table.x`")
    for c, a, cd, ch in both:
        s = " ".join(rd(x) for x in a)
        R.check("get_rb($1, encode_inverted_index_key($2, " in s and ".key, " in s and ".value)" in s, "tags:and", c.where, "the store: every further tag narrows the result", s[:200])
    gets = own_sites(C, b, lambda c: (c.fid or c.name).endswith("IndexEngine2::get_rb"))
    for c, a, cd in gets:
        R.check(re.match(r"^encode_inverted_index_key\(\$2, (.*)\.key, \1\.value\)$", rd(a[1])), "tags:key", c.where, "the store: the bitmap of the table's tag and its value", rd(a[1])[:150])
    srcs = {re.sub(r"\$\d+", "$", re.match(r"^encode_inverted_index_key\(\$2, (.*)\.key, ", rd(a[1])).group(1)) for c, a, cd in gets if rd(a[1]).startswith("encode_inverted_index_key($2, ")}
    whole = any("RangeFrom{1_usize}" in x or "skip(" in x and ", 1_usize)" in x for x in srcs) and any("0_usize" in x or "first" in x for x in srcs) or any(x.endswith("$?") for x in srcs)
    R.check(whole, "tags:every", b.relfile, "the store: every tag is looked at", str(srcs))
    for cd, t in C.ret_cases(b):
        s = rd(t)
        if s == "err":
            continue
        if s == "Ok{new()}":
            R.check(all(any(t[0] == "disc" and rd(t).startswith("get_rb(") and rd(t).endswith("?") and ("0" in vs) == p for t, vs, p in cj) for cj in cd), "tags:none", b.relfile, "the store: nothing only when a tag has no bitmap", text(atoms(cd, "", {})))
        else:
            R.check(re.match(r"^Ok\{\{.*&get_rb\(.* new\(\) \|deserialize_from\(.*\}\}$", s) is not None or "new()" in s and "&get_rb(" in s and "|deserialize_from(" in s, "tags:value", b.relfile, "the store: what was united, or intersected", s[:200])
    united(R, C, b)
    # the unflushed part
    fid = MC + "get_inverted_by_range"
    b = R.body(fid)
    united(R, C, b)
    e = call_events(C, b, lambda c: bool(re.search(r"bit(or|and)(_assign)?$", c.fid or c.name)))
    R.check(len(e) == 1 and base(e[0][0].fid or e[0][0].name) == "bitor" and re.search(r"range\(.*\$4\)\?\.1$", args_of(e[0][0], e[0][1])[1]), "mem-range", b.relfile, "the unflushed part: every bitmap of the range", str([args_of(x[0], x[1]) for x in e])[:200])
    look(R, F, C, fid, r"^(get\(\$1\.inverted, \$2\)|get\(get\(\$1\.inverted, \$2\)\?, \$3\))$")
    fid = MC + "get_inverted_by_tags"
    b = R.body(fid)
    united(R, C, b)
    look(R, F, C, fid, r"^(get\(\$1\.inverted, \$2\)|get\(get\(\$1\.inverted, \$2\)\?, \$3\?\.key\)|get\((get\(get\(\$1\.inverted, \$2\)\?, \$3\?\.key\)|and_then\(get\(\$1\.inverted, \$2\), closure\{\$3\?\}\))\?, \$3\?\.value\))$")
    e = call_events(C, b, lambda c: bool(re.search(r"bit(or|and)(_assign)?$", c.fid or c.name)))
    ors = [x for x in e if base(x[0].fid or x[0].name) == "bitor"]
    R.check(len(ors) == 1 and args_of(ors[0][0], ors[0][1])[1].startswith("get($1.inverted, $2)?"), "mem-all", b.relfile, "the unflushed part: the whole table is the union of all its bitmaps", str([args_of(x[0], x[1]) for x in ors])[:200])
    for c, a, cd, ch in ors:
        d = atoms(cd, " ".join(args_of(c, a)), {})
        R.check(equal(d, [{"is_empty($3)": {"1"}, "get($1.inverted, $2)": {"1"}, "get($1.inverted, $2)?": {"1"}, "get($1.inverted, $2)??.1": {"1"}}], {}) or equal(d, [{"is_empty($3)": {"1"}}], {}), "mem-all:when", c.where, "the unflushed part: all bitmaps when no tag is named", text(d))


def united(R, C, b):
    """a union is taken over every element of what is walked"""
    key = short(b.id)
    for c in [c for c in b.calls() if base(c.fid or c.name) == "bitor"]:
        lps = [(n, C.loop_of(b, n.bb)) for n in b.calls() if re.search(r"iterator::Iterator::next$", n.fid or "")]
        mine = [(n, lp) for n, lp in lps if lp is not None and precedes_in(b, n.bb, c.bb)]
        one = [n.where for n, lp in lps if lp is None]
        R.check(bool(mine) and not one, f"{key}:each", c.where, f"{key}: a union over every element", f"{key}: not in a loop: one element is taken, not each")
        for n, lp in mine:
            through(R, C, b, n, key)


def through(R, C, b, n, key):
    """the loop around n ends with its iterator, or with an error"""
    from va.core import place
    for u, d, cd in C.loop_exits(b, n.bb):
        t = b.blocks[u]["t"]
        if t[0] != "switch":
            continue
        v = C.T.op(b, t[1], (u, len(b.blocks[u]["s"])))
        end = any(s[0] == "=" and s[2][0] == "disc" and is_next(b, place(s[2][1])[0]) for s in b.blocks[u]["s"])
        err = v[0] == "disc" and (not layers(v[1]) or has(v[1], lambda y: y[0] == "call" and STEP.search(y[1]))) and dict((str(x), y) for x, y in t[2]).get("1", t[3]) == d
        R.check(end or err, f"{key}:loop", n.where, f"{key}: the walk ends with its last element", f"it can end at {show(v)[:100]}")


def precedes_in(b, x, y):
    """x and y are on one cycle"""
    from va.cond import precedes
    return precedes(b, x, y) and precedes(b, y, x)


def look(R, F, C, fid, rx):
    """maps are asked for the operands only"""
    n = 0
    for x in bodies(F, fid):
        for c, a, cd in C.sites(x, lambda c: bool(re.search(r"(HashMap|BTreeMap)(::<.*>)?::(get|range)$", c.fid or c.name))):
            if base(c.fid or c.name) == "range":
                R.check(rd(a[1]) == "$4", f"{short(fid)}:range", c.where, "the range asked for")
                continue
            s = "get(" + ", ".join(rd(y) for y in a) + ")"
            n += 1
            R.check(re.match(rx, s), f"{short(fid)}:look", c.where, "table, tag, value", s[:200])
    R.check(n >= 2, f"{short(fid)}:looks", F.get(fid).relfile, "table and tag are looked up", str(n))


def core_call(t):
    while t[0] in ("await", "poll"):
        t = t[1]
    return t[1] if t[0] == "call" else None


def konst_of(F, b, n):
    return any(f"{n}_u8" in str(x) for x in F.raw(b.id)) if hasattr(F, "raw") else f"{n}_u8" in str(getattr(b, "j", None) or b.__dict__)[:2000000]


def helpers(F, b):
    return [h for h in (helper_of(F, b, c) for c in b.calls()) if h is not None]


def lit(C, cd, x, v):
    return C.conj(cd, C.norm(("disc", x), [v], True))


def drop(t):
    while t[0] == "call" and DROP.search(t[1]) and len(t[2]) == 1:
        t = t[2][0]
    return t


def optional(C, cd, t, opt, depth=0):
    """[(condition, rendered value)]: an optional value by its cases"""
    t = drop(t)
    if t[0] == "call" and t[1].endswith("Some::{constructor#0}"):
        t = ("agg", "core::option::Option::Some", t[2])
    if depth > 5 or not cd:
        return [(cd, rd(t))] if cd else []
    if t[0] == "err" and opt:
        return [(cd, "None{}")]
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[1]
        if n in ("is_some", "is_none") and len(t[2]) == 1:
            x = drop(t[2][0])
            return [(c, v) for c, v in ((lit(C, cd, x, "1"), "true" if n == "is_some" else "false"), (lit(C, cd, x, "0"), "false" if n == "is_some" else "true")) if c]
        if opt:
            r = C.combi(cd, t)
            if len(r) != 1 or r[0][1] != t:
                return [y for c, v in r for y in optional(C, c, v, opt, depth + 1)]
            if n in ("or_else", "or") and len(t[2]) == 2:
                x = drop(t[2][0])
                y = C.T.apply_closure(t[2][1], [], 0) if n == "or_else" else t[2][1]
                if y is not None:
                    return optional(C, lit(C, cd, x, "1"), ("agg", "core::option::Option::Some", (("ok", x),)), opt, depth + 1) + optional(C, lit(C, cd, x, "0"), y, opt, depth + 1)
    if opt and t[0] in ("call", "ok", "await"):
        return [(c, v) for c, v in ((lit(C, cd, t, "1"), "Some{" + rd(("ok", t)) + "}"), (lit(C, cd, t, "0"), "None{}")) if c]
    return [(cd, rd(t))]


def returned(C, cd, t, want):
    """the same for what is returned, in its Ok if there is one"""
    vals = [k[1][0] for k in want if k[0] == "="]
    opt = "None{}" in vals or "Ok{None{}}" in vals
    res = any(v.startswith("Ok{") for v in vals)
    if not res:
        return optional(C, cd, t, opt)
    out = []
    for c, v in C.combi(cd, t):
        v = drop(v)
        if v[0] == "agg" and v[1].endswith("::Ok") and len(v[2]) == 1:
            out += [(c2, "Ok{" + s + "}") for c2, s in optional(C, c, v[2][0], opt)]
        elif v[0] == "err":
            pass
        elif v[0] in ("call", "await", "poll"):
            if "Ok{(){}}" in vals:
                out.append((c, "Ok{(){}}"))
            else:
                out += [(c2, "Ok{" + s + "}") for c2, s in optional(C, c, ("ok", v), opt)]
        else:
            out.append((c, rd(v)))
    return out


def compare(C, fid, b, eff, L, top):
    out = []
    key = short(fid)
    got = {}
    own = b.id.split("::{")[0]
    sites = [e for e in call_events(C, b, lambda c: bool(re.search(eff, c.fid or c.name))) if all(f.split("::{")[0] == own or not SEEN.search(f.split("::{")[0]) for f, _ in e[3])]
    for c, a, cd, ch in sites:
        n, x = base(c.fid or c.name), args_of(c, a)
        if n == "txn_write" and len(x) == 4:
            n, x = "put", [x[0] + ".db", x[3], x[1], x[2]]
        if key.startswith("encode_") and n in ("extend", "extend_from_slice"):
            n, x = "extend_from_slice", ["new()", piece(x[-1])]
        got.setdefault((n, tuple(x)), []).append((c.where, cd))
    # what a |= adds does not show in the value
    added = {args_of(c, a)[-1] for c, a, cd, ch in sites if (c.fid or c.name).endswith("bitor_assign")}
    want = {}
    for n, a, cond in L:
        if n == "=":
            for x in sorted(added, key=len, reverse=True):
                a = [a[0].replace(" |" + x, "")]
            a = [re.sub(r"\{(new\(\)|[^ {}]*)\}\}$", r"\1}", a[0])] if added else a
        want[(n, tuple(a))] = cond
    if any(k[0] == "=" for k in want):
        for cd, t in C.ret_cases(b):
            for c, s in returned(C, cd, t, want):
                if s in ("err", "()", "(){}", "Err{err}"):
                    continue
                if key.startswith("encode_") and s.isupper():
                    got.setdefault(("extend_from_slice", ("new()", s)), []).append((b.relfile, c))
                    s = "new()"
                got.setdefault(("=", (s,)), []).append((b.relfile, c))
    for k, evs in got.items():
        say = f"{k[0]}({', '.join(k[1])})"[:200] if k[0] != "=" else f"returns {k[1][0]}"[:200]
        out.append((k in want, f"{key}:{k[0]}", evs[0][0], f"{key}: {say}", f"{key}: {say} is not what the index does here"))
    for k, cond in want.items():
        say = f"{k[0]}({', '.join(k[1])})"[:200] if k[0] != "=" else f"returns {k[1][0]}"[:200]
        evs = got.get(k)
        out.append((bool(evs), f"{key}:{k[0]}:there", b.relfile, f"{key}: {say} is there", f"{key}: no {say}"))
        if not evs:
            continue
        txt = " ".join(k[1])
        have = [d for _, cd in evs for d in atoms(cd, txt, top)]
        need = [{a: v for a, v in d.items() if a + "?" not in txt and not (a.startswith("is_empty(") and v == {"0"} and a[9:-1] + "?" in txt)} for d in table(cond)]
        out.append((equal(have, need, top), f"{key}:{k[0]}:when", evs[0][0], f"{key}: {say} when {cond or 'always'}", f"{key}: {say} when {text(have) or 'always'}, not when {cond or 'always'}"))
    return sites, out
