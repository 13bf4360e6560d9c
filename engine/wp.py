"""Whole-program view: every function of the library un-inlined in canonical
SSA, its call graph, and a summary-based lock analysis over it."""
import re
import build
from ir import Fn, show
from lib import strip, field

HOLD = re.compile(r"::(\w*(?:Holder|MutexLock|LockGuard|lock_guard|unique_lock|scoped_lock))(?:<.*>)?::(~?)\1$")
LOCK = re.compile(r"(SpinLock|Mutex|mutex)::(Lock|lock|lock_shared|ReaderLock|WriterLock)$")
UNLOCK = re.compile(r"(SpinLock|Mutex|mutex)::(Unlock|unlock|ReaderUnlock|WriterUnlock)$")
TRY = re.compile(r"(SpinLock|Mutex|mutex)::(TryLock|try_lock)$")
CBCTOR = re.compile(r"FunctionRef<.*>::FunctionRef<")
CBCALL = re.compile(r"FunctionRef<.*>::operator\(\)")
TMPL = re.compile(r"<[^<>]*>")


def bare(s):
    while True:
        t = TMPL.sub("", s)
        if t == s:
            return t
        s = t


def lock_of(t):
    """Lock identity: class-wide for members, exact for globals."""
    t = strip(t)
    if t[0] == "fld":
        return "%s::%s" % (bare(t[1]).split("::")[-1], t[2])
    if t[0] in ("g", "glob", "global"):
        return show(t)
    if t[0] == "arg":
        return ("arg", t[1])
    r = root(t)
    if r is not None:
        return ("via", r)
    s = show(t)
    return s if re.match(r"^[A-Za-z_][\w:]*$", s) else "?"


def root(t):
    while True:
        if t[0] == "fld":
            t = t[3]
        elif t[0] in ("gep", "load"):
            t = t[1]
        else:
            break
    return t[1] if t[0] == "arg" else None


def base(t):
    while t[0] in ("fld", "gep"):
        t = t[3] if t[0] == "fld" else t[1]
    return t


class Sum:
    __slots__ = ("acq", "net", "rel", "cb")

    def __init__(self):
        # acq: lock -> entry locks certainly released before it is taken
        self.acq, self.net, self.rel, self.cb = {}, set(), set(), set()

    def size(self):
        return len(self.acq) + len(self.net) + len(self.rel) + len(self.cb)


class Program:
    def __init__(self, config="release"):
        bc = build.module(config)[0]
        ds, _ = build.extract(bc, [r".*"], [".*"])
        self.fn, self.calls, self.callers = {}, {}, {}
        for d in ds:
            self.fn[d["name"]] = Fn(d)
        for n, f in self.fn.items():
            L = []
            for b in range(len(f.blocks)):
                if b not in f.livb or b in f.crash:
                    continue
                for i in f.blocks[b]:
                    if i.op == "call" and i.callee:
                        L.append(i)
                        self.callers.setdefault(i.callee, []).append((n, i))
            self.calls[n] = L

    def bindings(self, f):
        """FunctionRef object -> functions it may call."""
        out = {}
        for i in self.calls[f.name]:
            if CBCTOR.search(i.callee):
                g = self.fn.get(i.callee)
                t = set()
                if g:
                    for k in g.all("store"):
                        s = show(g.term(k.ops[0]))
                        for n in self._addr(g, k.ops[0]):
                            t.add(n)
                out.setdefault(base(f.term(i.ops[0])), set()).update(t)
        return out

    def _addr(self, g, o):
        if o and o[0] == "f" and o[1] in self.fn:
            yield o[1]
            return
        t = g.term(o)
        for x in _walk(t):
            if x[0] in ("g", "glob", "global", "fn", "func") and len(x) > 1 and isinstance(x[1], str):
                if x[1] in self.fn:
                    yield x[1]

    def locks(self):
        """Summaries to a fixpoint; then edges, per-function entry may/must
        locksets."""
        S = self.S = {n: Sum() for n in self.fn}
        self.bind = {n: self.bindings(f) for n, f in self.fn.items() if any(CBCTOR.search(i.callee) for i in self.calls[n])}
        self.holders = {}
        order = self.order = self.bottom_up()
        for _ in range(8):
            changed = False
            for n in order:
                s = S[n]
                before = (dict(s.acq), len(s.cb), s.net, s.rel)
                s.net, s.rel = set(), set()
                self._flow(n, None)
                changed |= before != (s.acq, len(s.cb), s.net, s.rel)
            if not changed:
                break
        self.edges = {}
        self.site_held, self.site_rel = {}, {}
        for n in self.fn:
            self._flow(n, self.edges)
        # may-held at entry (union over callers)
        self.entry = {n: {} for n in self.fn}
        work = list(self.fn)
        while work:
            n = work.pop()
            for i in self.calls[n]:
                m = i.callee
                if m not in self.fn:
                    continue
                new = {x: (n, i) for x in self.site_held.get((n, i.id), ()) if isinstance(x, str)}
                if not lockish(m):
                    gone = self.site_rel.get((n, i.id), ())
                    for x in self.entry[n]:
                        if x not in gone:
                            new.setdefault(x, (n, i))
                d = {k: v for k, v in new.items() if k not in self.entry[m]}
                if d:
                    self.entry[m].update(d)
                    work.append(m)
        return self

    def bottom_up(self):
        seen, out = set(), []
        for r in self.fn:
            if r in seen:
                continue
            seen.add(r)
            st = [(r, iter(self.calls[r]))]
            while st:
                n, it = st[-1]
                for i in it:
                    c = i.callee
                    if c in self.fn and c not in seen:
                        seen.add(c)
                        st.append((c, iter(self.calls[c])))
                        break
                else:
                    st.pop()
                    out.append(n)
        return out

    def must(self, skip=()):
        """Locks certainly held: per function the state at each call, load and
        store relative to its entry, then entry sets by intersection (calls made by
        the functions in `skip` are not counted)."""
        M = {n: (frozenset(), frozenset()) for n in self.fn}
        loc = self.loc = {}
        for _ in range(4):
            ch = False
            for n in self.order:
                r = self._mflow(n, M, loc)
                if r != M[n]:
                    M[n] = r
                    ch = True
            if not ch:
                break
        ref = set()
        for n, f in self.fn.items():
            for o in self.taken(f):
                ref.add(o)
        top = None
        E = {}
        for n in self.fn:
            E[n] = top if n in self.callers and n not in ref else frozenset()
        # a function bound to a FunctionRef is called while that object lives:
        # with the locks held where it is bound
        cbt = {}
        for n, f in self.fn.items():
            for i in self.calls[n]:
                if CBCTOR.search(i.callee) and i.callee in self.fn:
                    g = self.fn[i.callee]
                    for k in g.all("store"):
                        for m in self._addr(g, k.ops[0]):
                            cbt.setdefault(n, []).append((i, m))
                            E[m] = top
        work = list(self.fn)
        inw = set(work)
        while work:
            n = work.pop()
            inw.discard(n)
            if E[n] is None or n in skip:
                continue
            L = loc.get(n, {})
            for i, m in [(i, i.callee) for i in self.calls[n]] + cbt.get(n, []):
                if m not in self.fn:
                    continue
                A, R = L.get(i.id, (frozenset(), frozenset()))
                h = frozenset(x for x in (E[n] - R) | A if isinstance(x, str))
                new = h if E[m] is None else E[m] & h
                if new != E[m]:
                    E[m] = new
                    if m not in inw:
                        inw.add(m)
                        work.append(m)
        self.E, self.M = E, M
        return self

    def held(self, n, i):
        """Locks certainly held at instruction i of function n."""
        A, R = self.loc.get(n, {}).get(i.id, (frozenset(), frozenset()))
        return ((self.E[n] or frozenset()) - R) | A

    def taken(self, f):
        """Functions whose address f takes, other than for a FunctionRef."""
        for b in range(len(f.blocks)):
            if b not in f.livb:
                continue
            for i in f.blocks[b]:
                if CBCTOR.search(f.name):
                    continue
                for o in i.ops:
                    if o and o[0] in ("f", "fn", "func", "g") and len(o) > 1 and o[1] in self.fn:
                        yield o[1]

    def _mflow(self, n, M, loc):
        f = self.fn[n]
        if not any(self._effect(i.callee) or M.get(i.callee, ((), ())) != (frozenset(), frozenset()) for i in self.calls[n]):
            return (frozenset(), frozenset())
        holders = self.holders.get(n, {})
        tries = []
        for i in self.calls[n]:
            if TRY.search(bare_callee(i.callee)):
                tries.append((lock_of(f.term(i.ops[0])), f.split(f._iterm(i.id), True)))
        out, L = {}, {}
        order = [b for b in f.rpo() if b not in f.crash]
        for _ in range(10):
            ch = False
            for b in order:
                A = R = None
                for p in f.pred[b]:
                    if p not in out:
                        continue
                    a, r = out[p]
                    if tries:
                        ef = f.edge_facts(p, b)
                        a = a | {l for l, yes in tries if yes and yes <= ef}
                    A = a if A is None else A & a
                    R = r if R is None else R | r
                if A is None:
                    if b:
                        continue
                    A, R = frozenset(), frozenset()
                A, R = set(A), set(R)
                for i in f.blocks[b]:
                    L[i.id] = (frozenset(A), frozenset(R))
                    if i.op != "call" or not i.callee:
                        continue
                    k = bare_callee(i.callee)
                    if LOCK.search(k):
                        A.add(lock_of(f.term(i.ops[0])))
                    elif UNLOCK.search(k):
                        l = holders.get(base(f.term(i.ops[0])), lock_of(f.term(i.ops[0])))
                        R.add(l) if l not in A else A.discard(l)
                    elif HOLD.search(k) and i.callee not in self.fn:
                        t = f.term(i.ops[0])
                        l = holders.get(base(t), "?")
                        if HOLD.search(k).group(2):
                            R.add(l) if l not in A else A.discard(l)
                        else:
                            A.add(l)
                    elif i.callee in M:
                        ma, mr = M[i.callee]
                        if mr:
                            r = {self._sub(f, i, l, holders) for l in mr}
                            R |= r - A
                            A -= r
                        if ma:
                            A |= {self._sub(f, i, l, holders) for l in ma}
                o = (frozenset(A), frozenset(R))
                if out.get(b) != o:
                    out[b] = o
                    ch = True
            if not ch:
                break
        loc[n] = L
        rs = [out[r.b] for r in f.rets if r.b in out]
        if not rs:
            return (frozenset(), frozenset())
        A = frozenset.intersection(*[a for a, _ in rs])
        return (A, frozenset.union(*[r for _, r in rs]))

    def chain(self, n, lock, lim=12):
        """Call path along which `lock` comes to be held at the entry of n."""
        out = [n]
        while lock in self.entry.get(n, ()) and len(out) < lim:
            n, i = self.entry[n][lock]
            out.append(n)
            if lock in self.site_held.get((n, i.id), ()):
                break
        return out[::-1]

    def _sub(self, f, i, l, holders):
        """Lock of a callee's summary in terms of the caller."""
        if isinstance(l, tuple):
            k = l[1]
            if k >= len(i.ops):
                return "?"
            t = f.term(i.ops[k])
            if l[0] == "via":
                b = base(t)
                if b in holders:
                    return holders[b]
                r = root(t)
                return ("via", r) if r is not None else "?"
            return lock_of(t)
        return l

    def _flow(self, n, edges):
        f, S = self.fn[n], self.S
        me = S[n]
        cs = {}
        for i in self.calls[n]:
            cs.setdefault(i.b, []).append(i)
        bind = self.bind.get(n, {})
        holders = self.holders.setdefault(n, {})
        interesting = any(self._effect(i.callee) for i in self.calls[n]) or any(CBCALL.search(i.callee) for i in self.calls[n])
        if not interesting and not bind:
            return
        order = [b for b in f.rpo() if b not in f.crash]
        out, self._log, self._rout = {}, {}, {}
        sccs, comp = f._sccs()
        tries = {i.b: [] for L in cs.values() for i in L}
        for L in cs.values():
            for i in L:
                if TRY.search(bare_callee(i.callee)):
                    tries[i.b].append((lock_of(f.term(i.ops[0])), f.split(f._iterm(i.id), False)))
        tries = [x for L in tries.values() for x in L]
        for _ in range(20):
            changed = False
            for b in order:
                h, R = set(), None
                for p in f.pred[b]:
                    if p not in out:
                        continue
                    e = set(out[p])
                    if tries and e:
                        ef = f.edge_facts(p, b)
                        for l, no in tries:
                            if no and no <= ef:
                                e.discard(l)
                    if e and comp[p] != comp[b]:
                        m = sccs[comp[p]]
                        if len(m) > 1 or p in f.succ[p]:
                            rel = set().union(*(self._log.get(x, (set(), set()))[1] for x in m))
                            acq = set().union(*(self._log.get(x, (set(), set()))[0] for x in m))
                            e -= rel - acq
                    h |= e
                    r = self._rout[p] - e
                    R = r if R is None else R & r
                if b != 0 and not any(p in out for p in f.pred[b]):
                    continue
                self._cur = self._log.setdefault(b, (set(), set()))
                self._R = set(R or ())
                h = self._block(f, n, me, b, h, cs.get(b, ()), bind, holders, edges)
                if out.get(b) != h or self._rout.get(b) != self._R:
                    out[b], self._rout[b] = h, self._R
                    changed = True
            if not changed:
                break
        for r in f.rets:
            me.net |= out.get(r.b, set())

    def _effect(self, c):
        k = bare_callee(c)
        if HOLD.search(k) or LOCK.search(k) or UNLOCK.search(k) or TRY.search(k):
            return True
        s = self.S.get(c)
        return bool(s and s.size())

    def _block(self, f, n, me, b, h, cs, bind, holders, edges):
        h = set(h)
        for i in cs:
            c = i.callee
            k = bare_callee(c)
            if edges is not None and (h or self._R):
                self.site_held[(n, i.id)] = frozenset(h)
                self.site_rel[(n, i.id)] = frozenset(self._R)
            if LOCK.search(k) or TRY.search(k):
                l = lock_of(f.term(i.ops[0]))
                self._acq(me, h, l, n, i, edges)
                continue
            if UNLOCK.search(k):
                l = lock_of(f.term(i.ops[0]))
                bb = base(f.term(i.ops[0]))
                if bb in holders:
                    l = holders[bb]
                self._rel(me, h, l)
                continue
            m = HOLD.search(k)
            if m and c not in self.fn:
                if not m.group(2):
                    l = lock_of(f.term(i.ops[1])) if len(i.ops) > 1 else "?"
                    holders[base(f.term(i.ops[0]))] = l
                    self._acq(me, h, l, n, i, edges)
                else:
                    self._rel(me, h, holders.get(base(f.term(i.ops[0])), ("via", root(f.term(i.ops[0]))) if root(f.term(i.ops[0])) is not None else "?"))
                continue
            if CBCALL.search(k) and i.ops:
                r = root(f.term(i.ops[0]))
                if r is not None:
                    me.cb.add((r, frozenset(h)))
                for t in bind.get(base(f.term(i.ops[0])), ()):
                    self._call(f, n, me, h, i, self.S[t], holders, edges, ())
                continue
            s = self.S.get(c)
            if s is None:
                continue
            if s.size():
                self._call(f, n, me, h, i, s, holders, edges, bind)
        return frozenset(h)

    def _call(self, f, n, me, h, i, s, holders, edges, bind):
        for l, R in s.acq.items():
            l = self._sub(f, i, l, holders)
            R = {self._sub(f, i, x, holders) for x in R}
            self._note(me, l, R)
            if edges is not None:
                for x in h - R:
                    edges.setdefault((x, l), []).append((n, i))
        for k, H in s.cb:
            if k >= len(i.ops):
                continue
            t = f.term(i.ops[k])
            hs = {self._sub(f, i, l, holders) for l in H} | h
            for tgt in (bind or {}).get(base(t), ()):
                a = {x for x in self.S[tgt].acq if isinstance(x, str)}
                for x in a:
                    self._note(me, x)
                if edges is not None:
                    for x in hs:
                        for l in a:
                            edges.setdefault((x, l), []).append((n, i))
            r = root(t)
            if r is not None:
                me.cb.add((r, frozenset(hs)))
        for l in s.rel:
            self._rel(me, h, self._sub(f, i, l, holders))
        got = {self._sub(f, i, l, holders) for l in s.net}
        if got and i.ops:
            b = base(f.term(i.ops[0]))
            if b[0] == "alloca" or root(f.term(i.ops[0])) is not None:
                for l in got:
                    holders[b] = l
        h |= got
        self._R -= got
        self._cur[0].update(got)

    def _note(self, me, l, R=()):
        R = frozenset(self._R) | frozenset(R)
        me.acq[l] = me.acq[l] & R if l in me.acq else R

    def _acq(self, me, h, l, n, i, edges):
        self._note(me, l)
        self._R.discard(l)
        if edges is not None:
            for x in h:
                edges.setdefault((x, l), []).append((n, i))
        h.add(l)
        self._cur[0].add(l)

    def _rel(self, me, h, l):
        self._cur[1].add(l)
        if l in h:
            h.discard(l)
        elif l != "?":
            me.rel.add(l)
            self._R.add(l)


def bare_callee(c):
    k = c.split("(")[0] if "operator()" not in c else c
    return k


def lockish(m):
    return bool(re.search(r"SpinLock|MutexLock|AllocationGuard", m))


def _walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from _walk(x)
