"""Flow-sensitive 'completed OK' analysis.

For every program point computes the set of events that have *completed successfully* on every
path reaching it.  An event raised by a call that returns a Result/Option/future only counts once
the success of that result has been established (`?`, match, if let, is_ok, unwrap, await ...).
Function summaries give the events that are guaranteed whenever the function returns Ok.
"""
import re
from .core import place, op_place, Call

PASS = re.compile(r"""(?x)
 ::(into_future|new_unchecked|branch|poll|map_err|context|with_context|instrument|in_current_span|inspect_err|ok|as_ref|as_mut
   |map|and_then|copied|cloned|ok_or|ok_or_else|pin|timeout|transpose|boxed|box_pin|err_into|into|inspect|trace_err|fuse|shared|flatten|zip_ok)$
 | ^core::pin::Pin::new$ | ^alloc::boxed::Box::new$ | ::try_trait::Try::from_output$ | Future::poll$ """)
RUN = re.compile(r"(::spawn|::spawn_blocking|::block_on|::block_in_place|::spawn_local|::scope)$")
TOP = None  # "every event": the value is known to be a failure / path impossible


def gargs(t):
    """top-level generic args of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    j = i
    while j < len(t):
        ch = t[j]
        if ch in "<([{":
            d += 1
            if d == 1:
                j += 1
                continue
        elif ch in ">)]}":
            if ch == ">" and t[j - 1] == "-":
                cur += ch
                j += 1
                continue
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        j += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def kind(t):
    t = t.lstrip("&")
    if t.startswith("mut "):
        t = t[4:]
    if re.match(r"(std|core)::result::Result<", t):
        return "result"
    if re.match(r"(std|core)::option::Option<", t):
        return "option"
    if re.match(r"(std|core)::ops::(control_flow::)?ControlFlow<", t):
        return "cf"
    if re.match(r"(std|core)::task::(poll::)?Poll<", t):
        return "poll"
    if "Future<Output" in t or t.startswith("{async") or "tokio::task::JoinHandle<" in t or re.search(r"::(Timeout|Instrumented|Instrument|Inner)<", t):
        return "fut"
    return ""


def inner(t):
    t = t.lstrip("&")
    a = gargs(t)
    k = kind(t)
    if k in ("result", "option", "poll") and a:
        return a[0]
    if k == "cf" and len(a) > 1:
        return a[1]
    return ""


FALLIBLE = ("result", "option", "cf", "poll", "fut")


def union(a, b):
    if a is TOP or b is TOP:
        return TOP
    return a | b


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


class St:
    __slots__ = ("done", "res", "bl")

    def __init__(self, done=frozenset(), res=None, bl=None):
        self.done, self.res, self.bl = done, res or {}, bl or {}

    def copy(self):
        return St(self.done, dict(self.res), dict(self.bl))

    def join(self, o):
        """meet of facts; returns (new, changed)"""
        done = meet(self.done, o.done)
        res = {}
        for k in set(self.res) | set(o.res):
            a = self.res.get(k, frozenset())
            b = o.res.get(k, frozenset())
            m = meet(a, b)
            if m is TOP or m:
                res[k] = m
        bl = {k: (meet(v[0], o.bl[k][0]), meet(v[1], o.bl[k][1])) for k, v in self.bl.items() if k in o.bl}
        n = St(done, res, bl)
        ch = n.done != self.done or n.res != self.res or n.bl != self.bl
        return n, ch


class OkFlow:
    def __init__(self, facts, classify, loops_nonempty=False, optional_ok=True, skip_targets=r"(?i)mock|::test", marks=None, on_stmt=None, none_fails=False, shallow=False):
        self.none_fails, self.shallow = none_fails, shallow  # a None return is a failure; Ok(None) completes an event
        self.F = facts
        self.classify = classify
        self.loops = loops_nonempty
        self.sums = {}
        self.prog = set()
        self.bodies = {}
        self.skip = re.compile(skip_targets)
        self.marks = marks  # call -> set of path marks
        self.analysed = 0

    # ---------------------------------------------------------------- summaries
    def summary(self, fid):
        """events guaranteed when fid (fn or coroutine or closure) completes OK"""
        if fid in self.sums:
            return self.sums[fid]
        if fid in self.prog:
            return frozenset()
        b = self.F.get(fid)
        if b is None or b.tainted:
            return frozenset()
        self.prog.add(fid)
        try:
            inst = self.analyse(b)
            out = TOP
            for rb in b.ret_blocks():
                for key, st in inst.get(rb, {}).items():
                    e = self.exit_events(b, rb, key, st)
                    out = meet(out, e)
            self.sums[fid] = out
        finally:
            self.prog.discard(fid)
        return self.sums[fid]

    def exit_events(self, b, rb, key, st):
        st = self.run_block(b, rb, key, st, stop_at_term=True)[1]
        r0 = st.res.get(0, frozenset())
        if r0 is TOP:
            return TOP
        return union(st.done, r0)

    def ret_states(self, fid):
        """[(key, events)] for the non-failing returns of fid"""
        b = self.F.get(fid)
        inst = self.analyse(b)
        out = []
        for rb in b.ret_blocks():
            for key, st in inst.get(rb, {}).items():
                e = self.exit_events(b, rb, key, st)
                out.append((key, e))
        return out

    # ---------------------------------------------------------------- dataflow
    def analyse(self, b):
        if b.id in self.bodies:
            return self.bodies[b.id]
        self.analysed += 1
        inst = {0: {self.key0(): St()}}
        work = [0]
        inw = {0}
        n = 0
        while work:
            bb = work.pop(0)
            inw.discard(bb)
            n += 1
            if n > 60000:
                break
            for key, st in list(inst[bb].items()):
                for (succ, k2, s2) in self.out_edges(b, bb, key, st):
                    # states in which the return value is already a failure are kept apart
                    k2 = ("F" if s2.res.get(0, frozenset()) is TOP else "",) + tuple(k2[1:])
                    tgt = inst.setdefault(succ, {})
                    if k2 not in tgt:
                        if len(tgt) > 64:
                            # collapse
                            k2 = next(iter(tgt))
                            nst, ch = tgt[k2].join(s2)
                        else:
                            nst, ch = s2, True
                    else:
                        nst, ch = tgt[k2].join(s2)
                    if ch:
                        tgt[k2] = nst
                        if succ not in inw:
                            inw.add(succ)
                            work.append(succ)
        self.bodies[b.id] = inst
        return inst

    def key0(self):
        return ("", frozenset(), frozenset())

    def getres(self, st, ps):
        l, projs = place(ps)
        return st.res.get(l, frozenset())

    def run_block(self, b, bb, key, st, stop_at_term=False):
        st = st.copy()
        bl = b.blocks[bb]
        for s in bl["s"]:
            if s[0] == "=":
                self.assign(b, st, s[1], s[2])
            elif s[0] == "dead":
                pass
        return key, st

    def setres(self, st, l, ev):
        if ev is TOP or ev:
            st.res[l] = ev
        else:
            st.res.pop(l, None)

    def assign(self, b, st, dst, rv):
        l, projs = place(dst)
        whole = not projs
        k = rv[0]
        if not whole:
            return
        st.bl.pop(l, None)
        src = None
        if k == "use":
            o = rv[1]
            src = op_place(o)
        elif k == "ref":
            src = rv[2]
        elif k == "cast":
            src = op_place(rv[2])
        if src is not None:
            sl, sp = place(src)
            ev = st.res.get(sl, frozenset())
            # reading a payload out of a success variant: keep pending only if the payload is itself fallible
            if ev is not TOP and ev and any(p.startswith("@") for p in sp):
                if kind(b.lty(l)) not in FALLIBLE:
                    ev = frozenset()
                if any(p in ("@Err", "@Break") for p in sp):
                    ev = TOP if kind(b.lty(l)) in ("result", "option") else frozenset()
            self.setres(st, l, ev)
            if sl in st.bl and not sp:
                st.bl[l] = st.bl[sl]
            return
        if k == "agg":
            n = rv[1]
            if n.endswith("::Err") and n.startswith("core::result"):
                st.res[l] = TOP
                return
            if self.none_fails and n == "core::option::Option::None" and l == 0:
                st.res[l] = TOP
                return
            if n in ("core::ops::control_flow::ControlFlow::Break",):
                st.res[l] = TOP
                return
            if n.startswith("coroutine:") or n.startswith("closure:"):
                self.setres(st, l, self.summary(n.split(":", 1)[1]))
                return
            ev = frozenset()
            if n.endswith("::Ok") or n.endswith("::Some") or n == "()" or n.endswith("Pin"):
                for o in rv[2]:
                    p = op_place(o)
                    if p:
                        e = st.res.get(place(p)[0], frozenset())
                        ev = union(ev, e) if e is not TOP else ev
            self.setres(st, l, ev)
            return
        if k == "disc":
            st.res.pop(l, None)
            return
        if k == "un" and rv[1] == "Not":
            p = op_place(rv[2])
            if p:
                x = st.bl.get(place(p)[0])
                if x:
                    st.bl[l] = (x[1], x[0])
            st.res.pop(l, None)
            return
        st.res.pop(l, None)

    def call_events(self, b, c):
        """(events when it completes OK)"""
        ev = frozenset(self.classify(c) or ())
        ts = [t for t in self.F.targets(c) if not self.skip.search(t)]
        if ts:
            s = TOP
            for t in ts:
                s = meet(s, self.fn_summary(t))
            if s is TOP:
                s = frozenset() if not ts else TOP
            if s is TOP:
                return TOP
            ev = ev | s
        return ev

    def fn_summary(self, t):
        """summary of a fn; an async fn's summary is that of the coroutine it returns (via res[0])"""
        return self.summary(t)

    def out_edges(self, b, bb, key, st):
        key, st = self.run_block(b, bb, key, st)
        t = b.blocks[bb]["t"]
        k = t[0]
        succs = b.succs(bb)
        if k == "call":
            c = Call(b, bb, t)
            fid = c.fid or ""
            dl, dp = place(c.dest)
            dty = b.lty(dl)
            ev = self.call_events(b, c)
            argev = frozenset()
            argtop = False
            if PASS.search(fid) or RUN.search(fid):
                for i, a in enumerate(c.args):
                    p = op_place(a)
                    if p:
                        e = st.res.get(place(p)[0], frozenset())
                        isclos = "closure@" in b.lty(place(p)[0])[:60] or "closure@" in b.lty(place(p)[0])
                        if i > 0 and not RUN.search(fid) and not fid.endswith("timeout"):
                            continue
                        if isclos and not RUN.search(fid):
                            continue
                        if e is TOP:
                            argtop = True
                        else:
                            argev = argev | e
            if fid.endswith("FromResidual::from_residual"):
                st.res[dl] = TOP
                key = (key[0], key[1], key[2])
                return [(s, key, st) for s in succs]
            if self.marks:
                m = self.marks(c)
                if m:
                    key = (key[0], key[1], key[2] | frozenset(m))
            if re.search(r"::(unwrap|expect)$", fid) and c.args:
                p = op_place(c.args[0])
                if p:
                    e = st.res.get(place(p)[0], frozenset())
                    if e is not TOP:
                        ik = kind(dty)
                        if ik in FALLIBLE:
                            self.setres(st, dl, e)
                        else:
                            st.done = union(st.done, e)
                            st.res.pop(dl, None)
                return [(s, key, st) for s in succs]
            mm = re.search(r"::(is_ok|is_some|is_err|is_none)$", fid)
            if mm and c.args:
                p = op_place(c.args[0])
                if p and not dp:
                    e = st.res.get(place(p)[0], frozenset())
                    e = frozenset() if e is TOP else e
                    st.bl[dl] = (e, frozenset()) if mm.group(1) in ("is_ok", "is_some") else (frozenset(), e)
                return [(s, key, st) for s in succs]
            if not dp:
                st.bl.pop(dl, None)
            tot = TOP if (ev is TOP) else (ev | argev)
            kk = kind(dty)
            if not succs:
                return []
            if tot is TOP and not argtop:
                if kk in FALLIBLE:
                    st.res[dl] = TOP
                # a call that never returns normally: treat as unreachable
                else:
                    return []
            elif kk in FALLIBLE and not (kk == "poll" and False):
                if argtop and not tot:
                    st.res[dl] = TOP
                else:
                    self.setres(st, dl, tot) if not dp else None
            else:
                st.done = union(st.done, tot)
                if not dp:
                    st.res.pop(dl, None)
            if self.loops and re.search(r"(into_iter|::iter|::iter_mut|::drain|::keys|::values)$", fid):
                pass
            return [(s, key, st) for s in succs]
        if k == "switch":
            o = t[1]
            p = op_place(o)
            out = []
            dl = place(p)[0] if p else None
            # find the discriminated place in this block
            src = None
            for s in reversed(b.blocks[bb]["s"]):
                if s[0] == "=" and place(s[1])[0] == dl and s[2][0] == "disc":
                    src = s[2][1]
                    break
            edges = [(v, d) for v, d in t[2]] + [(None, t[3])]
            explicit = [v for v, _ in t[2]]
            for v, d in edges:
                if d not in succs:
                    continue
                s2 = st.copy()
                k2 = key
                if src is not None:
                    sl, sp = place(src)
                    sty = b.lty(sl)
                    kd = kind(sty)
                    # projection to a payload: use the discriminated payload's own type when simple
                    okv = {"result": "0", "option": "1", "cf": "0", "poll": "0"}.get(kd)
                    if okv and not any(x.startswith(".") or x.startswith("@") for x in sp):
                        is_ok = (v == okv) or (v is None and okv not in explicit)
                        ev = s2.res.get(sl, frozenset())
                        if is_ok:
                            if ev is TOP:
                                continue  # infeasible: known failure
                            ik = kind(inner(sty))
                            if ik not in FALLIBLE or self.shallow and ik == "option" and kd in ("result", "cf"):
                                s2.done = union(s2.done, ev)
                                s2.res.pop(sl, None)
                        else:
                            if kd in ("result", "cf"):
                                s2.res[sl] = TOP
                            elif kd == "option":
                                s2.res[sl] = TOP if ev else s2.res.get(sl, frozenset())
                                if not s2.res[sl] and s2.res[sl] is not TOP:
                                    s2.res.pop(sl, None)
                        # loops
                        if self.loops and kd == "option":
                            h = self.loop_next(b, bb, sl)
                            if h is not None:
                                if v == "1":
                                    k2 = (key[0], key[1] | {h}, key[2])
                                else:
                                    if h not in key[1]:
                                        continue
                                    k2 = (key[0], key[1] - {h}, key[2])
                    elif okv and sp and sp[0] in ("@Ok", "@Some", "@Ready", "@Continue"):
                        # nested discriminant, e.g. match on Poll::Ready(Ok(x))
                        ity = inner(sty)
                        ik = kind(ity)
                        okv2 = {"result": "0", "option": "1", "cf": "0", "poll": "0"}.get(ik)
                        if okv2 and len([x for x in sp if x.startswith("@")]) == 1:
                            ev = s2.res.get(sl, frozenset())
                            is_ok = (v == okv2) or (v is None and okv2 not in explicit)
                            if is_ok and ev is not TOP and kind(inner(ity)) not in FALLIBLE:
                                s2.done = union(s2.done, ev)
                            elif not is_ok:
                                pass
                elif dl is not None and dl in s2.bl:
                    tv, fv = s2.bl[dl]
                    if v == "0":
                        s2.done = union(s2.done, fv)
                    elif v is None and explicit == ["0"]:
                        s2.done = union(s2.done, tv)
                out.append((d, k2, s2))
            return out
        return [(s, key, st) for s in succs]

    def loop_next(self, b, bb, l):
        """if local l is the result of Iterator::next whose call block is in a loop -> header id"""
        for d in b.defs().get(l, []):
            if d[3] == "call" and d[4][1][0] == "f" and d[4][1][1].endswith("iterator::Iterator::next"):
                return d[0]
        return None

    # ---------------------------------------------------------------- queries
    def before(self, c):
        """events done on every path before call c (within its body)"""
        inst = self.analyse(c.body)
        out = TOP
        for key, st in inst.get(c.bb, {}).items():
            _, s2 = self.run_block(c.body, c.bb, key, st)
            out = meet(out, s2.done)
        return frozenset() if out is TOP and c.bb not in inst else out

    def at_block(self, b, bb):
        inst = self.analyse(b)
        out = TOP
        for key, st in inst.get(bb, {}).items():
            out = meet(out, st.done)
        return out

    def unmet(self, c, event, roots_ok=lambda fid: False, seen=None, depth=0):
        """call chains (list of (fid, line)) on which `event` is not established before call c"""
        seen = set() if seen is None else seen
        e = self.before(c)
        if e is TOP or event in e:
            return []
        return self._lift(c.body, c.line, event, roots_ok, seen, depth)

    def _lift(self, body, line, event, roots_ok, seen, depth):
        fid = body.id
        if fid in seen or depth > 12:
            return []
        seen.add(fid)
        if roots_ok(fid):
            return []
        chain = (fid, line)
        if "::{" in fid.rsplit(">", 1)[-1] and re.search(r"::\{[a-z_]+#\d+\}$", fid):
            # closure / coroutine: the obligation moves to where it is created
            pid = fid.rsplit("::{", 1)[0]
            pb = self.F.get(pid)
            out = []
            found = False
            if pb:
                for bb in pb.reachable():
                    for s in pb.blocks[bb]["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1].endswith(":" + fid):
                            found = True
                            e = self.at_block(pb, bb)
                            if e is TOP or event in e:
                                continue
                            for ch in self._lift(pb, s[3], event, roots_ok, seen, depth + 1):
                                out.append(ch + [chain])
            if found:
                return out
            return [[chain]]
        cs = [x for x in self.F.callers().get(fid, []) if not self.skip.search(x.body.id)]
        if not cs:
            return [[chain]]
        out = []
        for x in cs:
            for ch in self.unmet(x, event, roots_ok, seen, depth + 1):
                out.append(ch + [chain])
        return out
