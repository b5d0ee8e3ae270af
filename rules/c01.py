"""Sharded and wrapped caches behave as one map."""
import re
from va.cond import Cond, TRUE, FALSE, konst, show_dnf
from va.terms import walk, show
from va.lin import lin, add, fz
from va.lib import *

PKGS = ["cache"]
CRATES = ["cache"]
RULE = """(1) Every operation that names a key selects its shard by the same function: the index of every shard selection is the
routing function applied to the caller's key and the number of shards of that cache; the routing function is deterministic (a
hasher without per-call or per-process random state, fed with the key alone) and smaller than the shard count.  (2) Each
operation reaches, under its shard's lock and under no condition other than the selection itself, exactly the operation of the
same meaning on the underlying map, with the caller's key and value, and returns its result.  (3) Capacity, usage and clearing
visit every shard; the per-shard capacity is the ceiling of capacity / shards and at least one, in construction and resizing.
(4) A victim shard is indexed within the collection its index was computed for, and that collection is the non-empty shards, or
all shards are tried."""

SY = "<cache::sharded_sync_cache::ShardedSyncCache as cache::sync_cache::SyncCache>::"
SI = "cache::sharded_sync_cache::ShardedSyncCache::"
AS = "<cache::sharded_async_cache::ShardedAsyncCache as cache::async_cache::AsyncCache>::"
AI = "cache::sharded_async_cache::ShardedAsyncCache::"
WS_ = "<cache::sync_cache::SyncCacheWrap as cache::sync_cache::SyncCache>::"
WA = "<cache::async_cache::AsyncCacheWrap as cache::async_cache::AsyncCache>::"
LR = "<cache::lru_cache::LruWrap as cache::Cache>::"
OPS = {"insert": ("LruCache::put", 2), "get": ("LruCache::get", 1), "remove": ("LruCache::pop", 1), "pop": ("LruCache::pop_lru", 0),
       "set_capacity": ("LruCache::resize", 1), "get_capacity": ("LruCache::cap", 0), "get_usage": ("LruCache::len", 0), "clear": ("LruCache::clear", 0)}
LRU = re.compile(r"(?:LruCache(?:<.*>)?|cache::Cache|cache::sync_cache::SyncCache)::(\w+)$")
POP = re.compile(r"(LruCache(<.*>)?::pop_lru|cache::Cache::pop|cache::sync_cache::SyncCache::pop)$")
USE = re.compile(r"(LruCache(<.*>)?::(len|is_empty)|cache::Cache::get_usage|cache::sync_cache::SyncCache::get_usage)$")
GETIX = re.compile(r"(\[T\]|slice|Vec(<.*>)?)::(get|get_mut|get_unchecked)$")


def run(R):
    F = R.F
    C = Cond(F, no_inline=r"^cache::(shard|per_shard)$", depth=6)

    def param(b, i):
        # a coroutine/closure body sees its parent's parameters
        pid = b.id.split("::{closure")[0]
        return ("param", pid, i)

    def bodies(fid):
        b = R.body(fid)
        return b

    # (1) routing
    b = R.body("cache::shard")
    cs = Cond(F)
    hs = [c for c in b.calls() if re.search(r"Hash::hash$", c.fid or c.name) or re.search(r"Hash(<.*>)?>?::hash$", c.name)]
    R.check(len(hs) == 1 and R.T.arg(hs[0], 0) == ("param", b.id, 1), "route-hash", b.relfile, "the routing hash is fed with the key alone",
            f"hash calls: {[c.where for c in hs]}")
    rets = cs.ret_cases(b)
    n = ("param", b.id, 2)
    okr = len(rets) == 1
    for cd, t in rets:
        okr = okr and t[0] == "bin" and t[1] == "Rem" and t[3] == n and has(t[2], lambda x: x[0] == "call" and x[1].endswith("::finish"))
        srcs = [x[1] for x in walk(t) if x[0] == "call"]
        okr = okr and not any(re.search(r"RandomState|BuildHasher|\brand::|\bthread::|thread_rng|time::", s) for s in srcs)
        okr = okr and any(re.search(r"(DefaultHasher|SipHasher\w*|FnvHasher|BkdrHasher)(<.*>)?::(new|default)$|Default>?::default$", s) for s in srcs)
    R.check(okr, "route-fn", b.relfile, "the routing function is a fixed hash modulo the shard count", f"routing returns {[show(t)[:160] for _, t in rets]}")
    # per_shard = ceil(cap/len), at least 1
    b = R.body("cache::per_shard")

    def is_ceil(t, cap, ln):
        """t is ceil(cap/ln) as a NonZero"""
        ds = [x for x in walk(t) if x[0] == "bin" and x[1] == "Div"]
        dc = [x for x in walk(t) if x[0] == "call" and x[1].endswith("::div_ceil")]
        for d in ds:
            if d[3] == ln and fz(lin(d[2])) == fz(add(add(lin(cap), lin(ln)), {(): -1})):
                return True
        return any(x[2][0] == cap and x[2][1] == ln for x in dc)
    rets = C.ret_cases(b)
    want = [t for _, t in rets]
    R.check(any(is_ceil(t, ("param", b.id, 1), ("param", b.id, 2)) for t in want) and
            all(has(t, lambda x: x[0] == "call" and re.search(r"NonZero(Usize)?(<.*>)?::(new|new_unchecked)$|MIN", x[1])) or t[0] == "k" for t in want),
            "per-shard", b.relfile, "the per-shard capacity is the ceiling of capacity / shards", f"per_shard returns {[show(t)[:200] for t in want]}")
    nsh = None

    def selectors(b):
        return C.sites(b, lambda c: GETIX.search(c.fid or ""))

    def locklit(l):
        t = l[0]
        # poll of an await / try of a lock / the shard selection itself
        if t[0] == "disc" and t[1][0] == "fld" and t[1][1] == "shard":
            return True      # the loop over the shards
        return t[0] == "disc" and t[1][0] == "call" and (GETIX.search(t[1][1]) or LOCK.search(t[1][1]) or t[1][1].endswith("join_all") or re.search(r"Iterator>?::(next|chain|map|iter)$|::poll$", t[1][1]))

    nsel = 0

    def route(b, tag):
        """every selection from the shard vector goes through the routing function with the caller's key"""
        nonlocal nsel
        k = param(b, 2)
        any_ = False
        for c, a, cd in selectors(b):
            if a[0][0] == "fld" and a[0][1] == "shard":
                any_ = True
                nsel += 1
                ix = a[1]
                good = ix[0] == "call" and ix[1] == "cache::shard" and ix[2][0] == k and ix[2][1][0] == "call" and ix[2][1][1].endswith("::len") and ix[2][1][2][0] == a[0]
                R.check(good, f"route:{tag}", c.where, f"{tag}: the shard is the routing function of the caller's key", f"{tag}: the shard index is {show(ix)[:200]}")
        for cb in [b] + [F.get(x) for x in F.closure_refs(b)]:
            for _, t in C.full_cases(cb):
                for x in walk(t):
                    if x[0] == "idx" and x[1][0] == "fld" and x[1][1] == "shard":
                        any_ = True
                        nsel += 1
                        ix = x[2]
                        good = ix[0] == "call" and ix[1] == "cache::shard" and ix[2][0] == k and ix[2][1][0] == "call" and ix[2][1][1].endswith("::len") and ix[2][1][2][0] == x[1]
                        R.check(good, f"route:{tag}", b.relfile, f"{tag}: the shard is the routing function of the caller's key", f"{tag}: the shard index is {show(ix)[:200]}")
        R.check(any_, f"select:{tag}", b.relfile, f"{tag}: selects a shard")

    def delegate(fid, op, tag, routed=False, every=False):
        b = bodies(fid)
        name, nargs = OPS[op]
        ds = [x for x in C.sites(b, lambda c: LRU.search(c.fid or "")) ]
        if not R.check(len(ds) == 1, f"delegate:{tag}", b.relfile, f"{tag}: one operation on the underlying map", f"{tag}: {[d[0].where for d in ds]}"):
            return
        c, a, cd = ds[0]
        meth = LRU.search(c.fid).group(1)
        R.check(meth == (name.split("::")[1] if "LruCache" in c.fid else op), f"op:{tag}", c.where, f"{tag}: reaches {name}", f"{tag}: reaches {meth}, expected {name}")
        got = [strip(x) for x in a[1:]]
        if op == "set_capacity":
            R.check(len(got) == 1 and (every or got[0] == param(b, 2)), f"args:{tag}", c.where, f"{tag}: the caller's capacity", f"{tag}: {[show(x)[:120] for x in got]}")
        else:
            R.check(got == [param(b, 2 + i) for i in range(nargs)], f"args:{tag}", c.where, f"{tag}: with the caller's arguments", f"{tag}: called with {[show(x)[:120] for x in got]}")
        bad = [l for l in lits(cd) if not locklit(l)]
        R.check(not bad, f"uncond:{tag}", c.where, f"{tag}: under no further condition", f"{tag}: only if {show_dnf(cd)[:250]}")
        return b, c, a, cd

    def strip(t):
        while t[0] == "ok" and False:
            t = t[1]
        return t

    def retd(b, tag, op):
        """the delegate's result is what is returned"""
        if op in ("clear", "set_capacity"):
            return
        bs = [b] + [F.get(x) for x in F.closure_refs(b)]
        okk = False
        for x in bs:
            for _, t in C.full_cases(x):
                if has(t, lambda y: y[0] == "call" and LRU.search(y[1])):
                    okk = True
        R.check(okk, f"result:{tag}", b.relfile, f"{tag}: returns the map's answer")

    n = 0
    for pre, kind in ((LR, "lru"), (WS_, "sync wrapper"), (WA, "async wrapper")):
        for op in OPS:
            r = delegate(pre + op, op, f"{kind} {op}")
            n += 1
            if r:
                retd(r[0], f"{kind} {op}", op)
                if kind != "lru":
                    lk = C.sites(r[0], is_lock)
                    R.check(len(lk) == 1, f"lock:{kind} {op}", r[0].relfile, f"{kind} {op}: one critical section")
    for pre, kind in ((SY, "sharded sync"), (AS, "sharded async")):
        for op in ("insert", "get", "remove"):
            r = delegate(pre + op, op, f"{kind} {op}")
            n += 1
            if r:
                route(r[0], f"{kind} {op}")
                retd(r[0], f"{kind} {op}", op)
        for op in ("set_capacity", "get_capacity", "get_usage", "clear"):
            tag = f"{kind} {op}"
            r = delegate(pre + op, op, tag, every=True)
            n += 1
            if not r:
                continue
            b, c, a, cd = r
            self_shard = ("fld", "shard", ("param", b.id.split("::{closure")[0], 1))
            elems = [x for x in walk(a[0]) if x == ("ok", self_shard)]
            skip = has(a[0], lambda x: x[0] == "call" and re.search(r"Iterator>?::(skip|take|filter|step_by|take_while|skip_while|nth|find|next_back|last)$", x[1]))
            sub = has(a[0], lambda x: x[0] == "idx")
            R.check(bool(elems) and not skip and not sub, f"every:{tag}", c.where, f"{tag}: visits every shard", f"{tag}: visits {show(a[0])[:200]}")
            if op == "set_capacity":
                v = a[1]
                cap = [x for x in walk(v) if x[0] == "call" and x[1].endswith("::get")] + [("param", b.id.split("::{closure")[0], 2)]
                ln = [x for x in walk(v) if x[0] == "call" and x[1].endswith("::len") and x[2][0] == self_shard]
                good = any(is_ceil(v, cp, l) for cp in cap for l in ln) or has(v, lambda x: x[0] == "call" and x[1] == "cache::per_shard" and x[2][0] in cap and x[2][1] in ln)
                R.check(good, f"ceil:{tag}", c.where, f"{tag}: every shard gets the ceiling of the capacity over the shards", f"{tag}: each shard gets {show(v)[:200]}")
            if op in ("get_capacity", "get_usage"):
                bs = [b] + [F.get(x) for x in F.closure_refs(b)]
                sums = [t for x in bs for _, t in C.full_cases(x) if has(t, lambda y: y[0] == "call" and re.search(r"Iterator>?::(sum|fold)$", y[1]))]
                sums += [t for x in bs for _, t in C.ret_cases(x) if has(t, lambda y: y[0] == "phi") and
                         has(t, lambda y: (y[0] == "bin" and y[1] == "Add" or y[0] == "call" and re.search(r"::\w+_add$", y[1])) and has(y, lambda z: z[0] == "call" and LRU.search(z[1])))]
                R.check(bool(sums) and not any(has(t, lambda y: y[0] == "call" and re.search(r"Iterator>?::(skip|take|filter|step_by|max|min)$", y[1])) for t in sums), f"sum:{tag}", b.relfile,
                        f"{tag}: the total over all shards")
        # pop
        tag = f"{kind} pop"
        r = delegate_pop(R, C, F, R.body(pre + "pop"), tag)
        n += 1
    for fid, op, tag in ((SI + "pop_shard", "pop", "sharded sync pop_shard"), (AI + "pop_shard", "pop", "sharded async pop_shard")):
        r = delegate(fid, op, tag)
        n += 1
        if r:
            route(r[0], tag)
            retd(r[0], tag, "pop")
    for fid, tag in ((SI + "shard", "sharded sync shard"), (AI + "lock_shard", "sharded async lock_shard")):
        route(R.body(fid), tag)
        n += 1
    # constructors
    for fid in (SI + "create_lru_sharded_cache", AI + "create_lru_sharded_cache"):
        b = R.body(fid)
        tag = fid.split("::")[2] + "::new"
        ns = C.sites(b, lambda c: re.search(r"LruCache(<.*>)?::new$", c.fid or ""))
        cap = ("param", b.id, 1)
        good = len(ns) == 1
        cnt = None
        for c, a, cd in ns:
            v = a[0]
            pc = [x for x in walk(v) if x[0] == "call" and x[1] == "cache::per_shard"]
            good = good and len(pc) == 1 and pc[0][2][0] == cap
            if pc:
                cnt = konst(pc[0][2][1])
        R.check(good and cnt and cnt >= 1, f"ctor:{tag}", b.relfile, "every shard is created with the per-shard capacity", f"{tag}: {[show(x[1][0])[:160] for x in ns]}")
        rng = [y for _, t in C.full_cases(b) for y in walk(t) if y[0] == "agg" and re.search(r"Range$", y[1])]
        R.check(any(konst(x[2][0]) == 0 and konst(x[2][1]) == cnt for x in rng), f"shards:{tag}", b.relfile, "as many shards as the capacity is divided by",
                f"{tag}: shard count {[show(x) for x in rng]} but the capacity is divided by {cnt}")
    R.floor(n, 44, "cache operations")
    R.floor(nsel, 10, "shard selections")


def delegate_pop(R, C, F, b, tag):
    self_shard = ("fld", "shard", ("param", b.id, 1))
    ds = C.sites(b, lambda c: re.search(POP, c.fid or ""))
    R.check(len(ds) >= 1, f"delegate:{tag}", b.relfile, f"{tag}: evicts from a shard")
    for c, a, cd in ds:
        src = a[0]
        sel = [x for x in walk(src) if x[0] == "call" and GETIX.search(x[1])] + [x for x in walk(src) if x[0] == "idx" and not (x[2][0] == "agg")]
        rngs = [x for x in walk(src) if x[0] == "idx" and x[2][0] == "agg"]
        if sel:
            for s in sel:
                coll, ix = (s[2][0], s[2][1]) if s[0] == "call" else (s[1], s[2])
                good = ix[0] == "bin" and ix[1] == "Rem" and ix[3][0] == "call" and ix[3][1].endswith("::len") and ix[3][2][0] == coll
                R.check(good, f"victim-index:{tag}", c.where, f"{tag}: the victim's index is computed for the collection it indexes",
                        f"{tag}: index {show(ix)[:160]} into {show(coll)[:120]}")
                flt = [x for x in walk(coll) if x[0] == "call" and re.search(r"Iterator>?::(filter|filter_map)$", x[1])]
                good = bool(flt) and all(x[2][0] == self_shard for x in flt)
                if not flt and coll[0] == "call" and re.search(r"Vec(<.*>)?::(new|with_capacity)$", coll[1]):
                    # a collection filled by a loop
                    ps = C.sites(b, lambda c: re.search(r"Vec(<.*>)?::push$", c.fid or ""))
                    good = bool(ps)
                    for pc, pa, pcd in ps:
                        rest = frozenset(frozenset(l for l in cj if l[0] != ("disc", self_shard)) for cj in pcd)
                        good = good and pa[0] == coll and pa[1] == ("ok", self_shard) and usage_nonzero(rest) and rest != TRUE
                for x in flt:
                    cid = closure_id(x[2][1])
                    if cid:
                        for l in lits(closure_true(C, cid)):
                            u = [y for y in walk(l[0]) if y[0] == "call" and re.search(USE, y[1])]
                            good = good and bool(u)
                        tr = closure_true(C, cid)
                        good = good and usage_nonzero(tr)
                R.check(good, f"victim:{tag}", c.where, f"{tag}: the victim is one of the non-empty shards", f"{tag}: the victim comes from {show(coll)[:200]}")
        else:
            whole = ("ok", self_shard)
            elems = has(src, lambda x: x == whole)
            if rngs:
                # chain of the two halves of the shard vector
                ends = [(re.sub(r"^.*::", "", x[2][1]), x[2][2][0] if x[2][2] else None) for x in rngs if x[1] == self_shard]
                fr = {t for nme, t in ends if nme == "RangeFrom"}
                to = {t for nme, t in ends if nme == "RangeTo"}
                elems = bool(fr) and fr == to and len(fr) == 1
            R.check(elems, f"victim:{tag}", c.where, f"{tag}: every shard is tried", f"{tag}: tries {show(src)[:200]}")
        for l in lits(cd):
            t = l[0]
            good = t[0] == "disc" or has(t, lambda x: x[0] == "call" and (x[1].endswith("::is_empty") or x[1].endswith("::len")))
            R.check(good, f"victim-cond:{tag}", c.where, f"{tag}: depends only on which shards are empty", f"{tag}: {show_dnf(cd)[:200]}")
    # a result of none is only returned when nothing was found
    bs = [b] + [F.get(x) for x in F.closure_refs(b)]
    some = any(has(t, lambda y: y[0] == "call" and re.search(POP, y[1])) for x in bs for _, t in C.full_cases(x))
    R.check(some, f"result:{tag}", b.relfile, f"{tag}: returns the evicted entry")


def usage_nonzero(dnf):
    """the condition is exactly: the shard's usage is not zero"""
    if len(dnf) != 1:
        return False
    cj = next(iter(dnf))
    for (t, vs, pos) in cj:
        if t[0] == "bin" and t[1] == "Eq" and any(konst(x) == 0 for x in t[2:4]):
            if pos != ("1" in vs):
                continue
            return False
        if t[0] == "bin" and t[1] == "Lt" and konst(t[2]) == 0 and (("1" in vs) == pos):
            continue
        if t[0] == "call" and t[1].endswith("is_empty") and ("1" in vs) != pos:
            continue
        return False
    return True
