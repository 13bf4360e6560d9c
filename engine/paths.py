"""Disjunctive (trace-partitioned) must-facts over a canonical function.

State = bounded set of conjunctions of atomic facts (branch conditions, phi
values).  Conjunctions that are contradictory in the zone domain (difference
bounds) are dropped.  Classical bounded disjunctive completion; no solver.
"""
import functools, re
from ir import Fn, show, _, match

ZERO = "0"


def lin_of(t):
    if t[0] == "int":
        return {1: t[1]} if t[1] else {}
    if t[0] == "null":
        return {}
    if t[0] == "lin":
        return dict(t[1])
    return {t: 1}


def diff(a, b):
    r = dict(lin_of(a))
    for k, v in lin_of(b).items():
        r[k] = r.get(k, 0) - v
        if not r[k]:
            del r[k]
    return r


@functools.lru_cache(maxsize=200000)
def constraints(f):
    """([(u, v, c)] meaning u - v <= c, [(u, v, c)] meaning u - v != c)."""
    if f[0] != "cmp":
        return (), ()
    p, a, b = f[1], f[2], f[3]
    if p not in ("eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"):
        return (), ()
    if p in ("ugt", "uge", "sgt", "sge"):
        a, b = b, a
        p = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[p]
    extra = []
    if p in ("ult", "ule"):
        # wrapped range idiom: x - k < K
        if a[0] == "lin" and b[0] == "int":
            d = dict(a[1])
            k = d.pop(1, 0)
            if len(d) == 1 and list(d.values()) == [1] and k < 0 and b[1] > 0:
                x = next(iter(d))
                K = b[1] - (1 if p == "ult" else 0)
                return ((x, ZERO, K - k), (ZERO, x, k)), ()
            if k < 0 or any(v < 0 for v in d.values()):
                return (), ()
        elif a[0] == "lin" and any(v < 0 for v in dict(a[1]).values()):
            return (), ()
        if b[0] == "lin" and any(v < 0 for v in dict(b[1]).values()):
            return (), ()
        if b[0] == "int" and b[1] < 0:
            return (), ()
        for x in (a, b):
            if x[0] not in ("int", "lin", "null"):
                extra.append((ZERO, x, 0))
    d = diff(a, b)
    c = -d.pop(1, 0)
    vs = list(d.items())
    if len(vs) == 0:
        u, v = ZERO, ZERO
    elif len(vs) == 1:
        if vs[0][1] == 1:
            u, v = vs[0][0], ZERO
        elif vs[0][1] == -1:
            u, v = ZERO, vs[0][0]
        else:
            return tuple(extra), ()
    elif len(vs) == 2 and sorted(x[1] for x in vs) == [-1, 1]:
        u = [t for t, k in vs if k == 1][0]
        v = [t for t, k in vs if k == -1][0]
    else:
        return tuple(extra), ()
    if p == "eq":
        return tuple(extra) + ((u, v, c), (v, u, -c)), ()
    if p == "ne":
        return tuple(extra), ((u, v, c),)
    if p in ("ult", "slt"):
        return tuple(extra) + ((u, v, c - 1),), ()
    return tuple(extra) + ((u, v, c),), ()


def zone(facts):
    """Closed difference-bound map, or None when contradictory."""
    up, fs = {}, []

    def find(x):
        while up[x] != x:
            up[x] = up[up[x]]
            x = up[x]
        return x
    for f in facts:
        if f[0] != "cmp":
            continue
        es, nes = constraints(f)
        if not es and not nes:
            continue
        n = [x for e in es + nes for x in e[:2] if x is not ZERO]
        fs.append((f, n[0] if n else ZERO))
        for x in n or [ZERO]:
            up.setdefault(x, x)
        for x in n[1:]:
            a, b = find(n[0]), find(x)
            if a is not b:
                up[a] = b
    # A negative cycle stays within one component and ZERO.
    groups = {}
    for f, x in fs:
        groups.setdefault(find(x), []).append(f)
    Z = Zone()
    for g in groups.values():
        D = _zone(frozenset(g))
        if D is None:
            return None
        for e in D:
            for x in e:
                if x is not ZERO:
                    Z.of[x] = D
    return Z


class Zone:
    """Difference bounds, kept per component."""
    __slots__ = ("of",)

    def __init__(self):
        self.of = {}

    def get(self, e, d=None):
        u, v = e
        a, b = self.of.get(u), self.of.get(v)
        if u == ZERO or v == ZERO:
            D = b if u == ZERO else a
            return D.get(e, d) if D is not None else d
        if a is None or b is None:
            return d
        r = a.get(e) if a is b else None
        x, y = a.get((u, ZERO)), b.get((ZERO, v))
        if x is not None and y is not None and (r is None or x + y < r):
            r = x + y
        return d if r is None else r


@functools.lru_cache(maxsize=200000)
def _zone(facts):
    es, nes = [], []
    for f in facts:
        a, b = constraints(f)
        es += a
        nes += b
    D = {}
    for u, v, c in es:
        if u == v:
            if c < 0:
                return None
            continue
        if c < D.get((u, v), 1 << 70):
            D[(u, v)] = c
    for _r in range(4):
        nodes = {x for e in D for x in e}
        if len(nodes) > 60:
            break
        for k in nodes:
            ins = [(i, c) for (i, j), c in D.items() if j == k]
            outs = [(j, c) for (i, j), c in D.items() if i == k]
            for i, c1 in ins:
                for j, c2 in outs:
                    if i == j:
                        if c1 + c2 < 0:
                            return None
                        continue
                    if c1 + c2 < D.get((i, j), 1 << 70):
                        D[(i, j)] = c1 + c2
        ch = False
        for u, v, c in nes:
            if u == v:
                if c == 0:
                    return None
                continue
            if D.get((u, v)) == c and D.get((v, u)) == -c:
                return None
            if D.get((u, v)) == c:
                D[(u, v)] = c - 1
                ch = True
            if D.get((v, u)) == -c:
                D[(v, u)] = -c - 1
                ch = True
        if not ch:
            break
    return D


def contradictory(facts):
    facts = frozenset(facts)
    for f in facts:
        if Fn.neg(f) in facts:
            return True
        if f[0] == "cmp" and f[2][0] == "int" and f[3][0] == "int":
            a, b = f[2][1], f[3][1]
            r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b,
                 "sgt": a > b, "sge": a >= b}.get(f[1])
            if r is False:
                return True
        if f[0] == "cmp" and f[2] == f[3] and f[1] in ("ne", "ult", "ugt", "slt", "sgt"):
            return True
    return zone(facts) is None


def entails(facts, f):
    """facts |= f (f a cmp term), decided in the zone domain."""
    facts = frozenset(facts)
    if f in facts:
        return True
    n = Fn.neg(f)
    if f[0] == "cmp" and f[1] == "eq":
        a = Fn.mkcmp("sle", f[2], f[3])
        b = Fn.mkcmp("sge", f[2], f[3])
        z = zone(facts)
        if z is None:
            return True
        (cs, _n) = constraints(f)
        ok = all(u == v and c >= 0 or z.get((u, v), 1 << 70) <= c for u, v, c in cs)
        return bool(cs) and ok
    return contradictory(facts | {n})


@functools.lru_cache(maxsize=400000)
def parts(t):
    """All tuples inside t, t included."""
    r = {t}
    for x in t:
        if isinstance(x, tuple):
            r |= parts(x)
    return frozenset(r)


@functools.lru_cache(maxsize=None)
def outside_calls(t):
    """parts(t) without the operands of (uniquely numbered) call results."""
    r = {t}
    if t[:1] != ("call",):
        for x in t:
            if isinstance(x, tuple):
                r |= outside_calls(x)
    return frozenset(r)


def mentions(t, pred):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            st.extend(x)
    return False


def _local(a):
    while a[0] in ("fld", "gep"):
        a = a[3] if a[0] == "fld" else a[1]
    return a[0] == "alloca"


def _alias(a, b):
    """The two addresses may be the same location."""
    def last(x):
        while x[0] == "gep":
            x = x[1]
        return x[:3] if x[0] == "fld" else None
    if a == b:
        return True
    if _local(a) != _local(b):
        return False
    if _local(a):
        def root(x):
            off = 0
            while x[0] == "gep":
                off = None if x[3] or off is None else off + x[2]
                x = x[1]
            return x, off
        (p, m), (q, n) = root(a), root(b)
        if p == q and m is not None and n is not None:
            return m == n
        while p[0] in ("fld", "gep"):
            p = p[3] if p[0] == "fld" else p[1]
        while q[0] in ("fld", "gep"):
            q = q[3] if q[0] == "fld" else q[1]
        if p != q:
            return False
    return last(a) == last(b)


class PF:
    def __init__(self, fn, K=24, inv=None, entry=frozenset(), events=None):
        """inv: callable(load/call term) -> iterable of facts known for that
        value (a class invariant checked elsewhere).
        events: callable(Ins) -> label (str), list of labels or None; the state
        then tracks ("cnt", label, n) with n saturating at 2."""
        self.fn, self.K, self.inv = fn, K, inv
        self.events = {}
        labels = set()
        if events:
            for b in range(len(fn.blocks)):
                if b in fn.crash:
                    continue
                for I in fn.blocks[b]:
                    l = events(I)
                    if l:
                        l = [l] if isinstance(l, str) else list(l)
                        self.events.setdefault(b, []).append((I.idx, l))
                        labels.update(l)
        self.labels = labels
        self.entry = frozenset(entry) | {
            ("free", l[1:]) if l[0] in "+-" else ("cnt", l, 0) for l in labels}
        self.overflow = False
        self._cc = {}
        self._meminit()
        self._iv()
        self._run()

    # -- loop induction invariants
    def _iv(self):
        fn = self.fn
        self.header_facts = {}
        sccs, comp = fn._sccs()
        for b in fn.rpo():
            if b in fn.crash:
                continue
            mem = set(sccs[comp[b]])
            for L in fn.loops:
                if L["header"] == b:
                    mem = set(L["blocks"])
            back = [p for p in fn.pred[b] if p in mem and fn.bdom(b, p)]
            if not back:
                continue
            hf = []
            for I in fn.blocks[b]:
                if I.op != "phi":
                    break
                inits, steps = [], []
                for o, p in zip(I.ops, I.d["in"]):
                    if (p, b) in fn.dead or p not in fn.livb:
                        continue
                    t = fn.term(o)
                    if p in back:
                        steps.append(t)
                    else:
                        inits.append(t)
                me = ("rec", I.id)
                up = down = bool(steps)
                for t in steps:
                    d = lin_of(t)
                    base = {k: v for k, v in d.items() if k != 1}
                    if not (base in ({me: 1}, {("phi", I.id): 1})):
                        up = down = False
                        break
                    k = d.get(1, 0)
                    if k != 1:
                        up = up and k >= 0
                    if k < 0:
                        up = False
                    if k > 0:
                        down = False
                hf.append((I, inits, steps, up, down, back, mem))
            self.header_facts[b] = hf

    def _cyclic(self, b):
        fn = self.fn
        sccs, comp = fn._sccs()
        return b not in comp or len(sccs[comp[b]]) > 1 or b in fn.succ[b]

    def _kill_terms(self, b, upto=None):
        fn = self.fn
        r = set()
        # Outside loops a call or phi is evaluated once (loads: see _mem).
        if not self._cyclic(b):
            return r
        for I in fn.blocks[b]:
            if upto is not None and I.idx >= upto:
                break
            if I.op in ("load", "call", "atomicrmw", "cmpxchg", "phi"):
                r.add(fn.term(I))
                if I.op == "phi":
                    r.add(("phi", I.id))
        return r

    # -- memory: a load that is repeated after a write stands for a new value,
    # so what was known of the old one is forgotten at the second load
    def _meminit(self):
        fn = self.fn
        n = {}
        for b in range(len(fn.blocks)):
            if b not in fn.crash:
                for I in fn.blocks[b]:
                    if I.op == "load":
                        n[fn.term(I)] = n.get(fn.term(I), 0) + 1
        rl = {t for t, k in n.items() if k > 1 and t[0] == "load"}
        self.memops = {}
        if not rl:
            return
        for b in range(len(fn.blocks)):
            if b in fn.crash:
                continue
            for I in fn.blocks[b]:
                if I.op == "load" and fn.term(I) in rl:
                    self.memops.setdefault(b, []).append((I.idx, "l", fn.term(I)))
                    continue
                cl = ()
                if I.op == "call" or I.op == "icall":
                    if I.op == "call" and I.callee and re.match(r"llvm\.(?!mem)", I.callee):
                        continue
                    cl = {t for t in rl if not _local(t[1])}
                elif I.op in ("store", "atomicrmw", "cmpxchg"):
                    a = fn.term(I.ops[1] if I.op == "store" else I.ops[0])
                    cl = {t for t in rl if _alias(t[1], a)}
                if cl:
                    self.memops.setdefault(b, []).append((I.idx, "c", frozenset(("fresh", t) for t in cl)))

    def _mem(self, S, b, upto=None):
        for idx, k, t in self.memops.get(b, ()):
            if upto is not None and idx >= upto:
                break
            if k == "c":
                S = S - t
            elif ("fresh", t) not in S:
                S = frozenset(f for f in S if t not in outside_calls(f)) | {("fresh", t)}
        return S

    def _drop(self, S, kills):
        if not kills:
            return S
        kills = frozenset(kills)
        return frozenset(f for f in S if kills.isdisjoint(parts(f)))

    def _run(self):
        fn = self.fn
        order = [b for b in fn.rpo() if b not in fn.crash]
        pos = {b: k for k, b in enumerate(order)}
        inn = {0: {self.entry}}
        edgef = {}
        for b in order:
            for s in fn.succ[b]:
                edgef[(b, s)] = fn.edge_alts(b, s)
        kills = {}
        invf = {}
        for b in order:
            kills[b] = self._kill_terms(b)
            kills[b] = {k for k in kills[b] if k[0] != "phi"}
            ex = set()
            if self.inv:
                for I in fn.blocks[b]:
                    if I.op in ("load", "call"):
                        ex.update(self.inv(fn.term(I)) or ())
            invf[b] = frozenset(ex)
        phis = {b: {("phi", i.id) for i in fn.blocks[b] if i.op == "phi"} |
                   {("rec", i.id) for i in fn.blocks[b] if i.op == "phi"} for b in order}
        self.invf = invf
        changed, it = True, 0
        out_cache = {}
        while changed and it < 80:
            changed = False
            it += 1
            for b in order:
                if b != 0:
                    acc = set()
                    for p in fn.pred[b]:
                        if p not in inn or p not in pos:
                            continue
                        back = pos[p] >= pos[b]
                        for S in inn[p]:
                            key = (p, b, S)
                            os_ = out_cache.get(key, 0)
                            if os_ == 0:
                                os_ = [self._edge(p, b, S, kills[p], invf[p], ef, phis[b], back)
                                       for ef in edgef[(p, b)]]
                                os_ = [o for o in os_ if o is not None]
                                out_cache[key] = os_
                            acc.update(os_)
                    if not acc:
                        if b in inn:
                            pass
                        continue
                    acc = self._reduce(acc)
                    old = inn.get(b)
                    if old is not None and it > 12:
                        # force convergence: widen to the common facts
                        if acc != old:
                            both = frozenset.intersection(*(acc | old))
                            acc = {both}
                    if old != acc:
                        inn[b] = acc
                        changed = True
        self.inn = inn
        # iterate to convergence assumed by 80 rounds
        self.converged = not changed

    def _reduce(self, acc):
        # drop subsumed (stronger facts are redundant when a weaker one exists)
        L = sorted(acc, key=len)
        keep = []
        for S in L:
            if any(k <= S for k in keep):
                continue
            keep.append(S)
        if len(keep) > self.K:
            self.overflow = True
            keep.sort(key=len)
            merged = frozenset.intersection(*keep[self.K - 1:])
            keep = keep[:self.K - 1]
            keep = [k for k in keep if not merged <= k] + [merged]
        return set(keep)

    def _apply_events(self, S, b, upto=None):
        for idx, ls in self.events.get(b, ()):
            if upto is not None and idx >= upto:
                break
            for l in ls:
                if l[0] == "+":
                    S = (S - {("free", l[1:])}) | {("held", l[1:])}
                    continue
                if l[0] == "-":
                    S = (S - {("held", l[1:])}) | {("free", l[1:])}
                    continue
                for n in (0, 1, 2):
                    if ("cnt", l, n) in S:
                        S = (S - {("cnt", l, n)}) | {("cnt", l, min(n + 1, 2))}
                        break
                else:
                    S = S | {("seen", l)}
                S = S | {("seen", l)}
        return S

    def _edge(self, p, b, S, kill, inv, ef, phis, back):
        fn = self.fn
        S = self._mem(self._apply_events(S, p), p)
        S = self._drop(S, kill) | inv | ef
        for x in list(S):
            if x[0] == "iff":
                if x[1] in S:
                    S = S | fn.split(x[2], True)
                elif ("not", x[1]) in S:
                    S = S | fn.split(x[2], False)
        if contradictory(S):
            return None
        # values of the phis of b on this edge, in terms valid before b
        new = set()
        for I in fn.blocks[b]:
            if I.op != "phi":
                break
            for o, pb in zip(I.ops, I.d["in"]):
                if pb == p:
                    v = fn.term(o)
                    if not mentions(v, lambda x: x in phis or x[:1] == ("rec",)):
                        new.add(("phi", I.id, v))
                    break
        imp = set()
        # carry over facts about v to the phi: done through equality below
        res = frozenset(f for f in S if phis.isdisjoint(parts(f)))
        add = set()
        for _k, id, v in new:
            t = ("phi", id)
            if v[0] in ("undef",):
                continue
            if v[0] in ("cmp", "not", "and1", "or1"):
                # boolean: is it decided on this edge?
                if contradictory(S | fn.split(v, False)):
                    add.add(Fn.mkcmp("eq", t, ("int", 1)))
                    add.add(t)
                elif contradictory(S | fn.split(v, True)):
                    add.add(Fn.mkcmp("eq", t, ("int", 0)))
                    add.add(("not", t))
                else:
                    add.add(("iff", t, v))
                continue
            add.add(Fn.mkcmp("eq", t, v if v != ("int", -1) or self._w(id) != 1 else ("int", 1)))
            if v[0] == "int" and self._w(id) == 1:
                add.add(t if v[1] else ("not", t))
        res = res | add
        hf = self.header_facts.get(b)
        if hf:
            for I, inits, steps, up, down, backs, mem in hf:
                t = ("phi", I.id)
                if not (up or down) or len(set(inits)) != 1:
                    continue
                s = inits[0]
                if mentions(s, lambda x: x in phis):
                    continue
                if up:
                    res = res | {Fn.mkcmp("sge", t, s)}
                if down:
                    res = res | {Fn.mkcmp("sle", t, s)}
                # candidate bounds, kept on this edge when the incoming value
                # satisfies them
                val = None
                for o, pb in zip(I.ops, I.d["in"]):
                    if pb == p:
                        val = fn.term(o)
                if val is None:
                    continue
                for pr, N in self._cands(b, I, mem, phis):
                    g = Fn.mkcmp(pr, val, N)
                    if g[0] == "cmp" and g[2][0] == "int" and g[3][0] == "int":
                        hold = not contradictory({g})
                    else:
                        hold = entails(S | res, g)
                    if hold:
                        res = res | {Fn.mkcmp(pr, t, N)}
        if contradictory(res):
            return None
        return res

    def _cands(self, b, I, mem, phis):
        key = (b, I.id)
        c = self._cc.get(key)
        if c is not None:
            return c
        fn = self.fn
        t = ("phi", I.id)
        out = set()
        for x in mem:
            for s in fn.succ[x]:
                for f in fn.edge_facts(x, s):
                    if f[0] != "cmp":
                        continue
                    for a, n, p in ((f[2], f[3], f[1]), (f[3], f[2], Fn.FLIP.get(f[1]))):
                        if p is None:
                            continue
                        d = dict(lin_of(a))
                        k = d.pop(1, 0)
                        if d != {t: 1} or mentions(n, lambda z: z in phis):
                            continue
                        if k:
                            if n[0] != "int":
                                continue
                            n = ("int", n[1] - k)
                        if mentions(n, lambda z: z[:1] in (("load",), ("call",)) and self._inloop(z, mem)):
                            continue
                        sg = "u" if p[0] == "u" else "s"
                        out.add((sg + "le", n))
                        out.add((sg + "ge", n))
                        if p in ("eq", "ne"):
                            out.add(("ule", n))
                        if n[0] == "int":
                            out.add((sg + "le", ("int", n[1] + 1)))
                            out.add((sg + "ge", ("int", n[1] - 1)))
        self._cc[key] = out
        return out

    def _inloop(self, z, mem):
        fn = self.fn
        return any(fn.term(i) == z for x in mem for i in fn.blocks[x]
                   if i.op in ("load", "call"))

    def _w(self, id):
        ty = self.fn.ins[id].ty
        return 1 if ty == "i1" else 64

    # -- queries
    def at(self, i):
        """Disjuncts (list of frozensets) that may hold just before i."""
        b = getattr(i, "b", i)
        ds = self.inn.get(b, set())
        if hasattr(i, "idx") and i.idx > 0:
            ks = {k for k in self._kill_terms(b, i.idx) if k[0] != "phi"}
            ex = set()
            if self.inv:
                for I in self.fn.blocks[b]:
                    if I.idx < i.idx and I.op in ("load", "call"):
                        ex.update(self.inv(self.fn.term(I)) or ())
            ds = {self._drop(self._mem(self._apply_events(S, b, i.idx), b, i.idx), ks) | frozenset(ex) for S in ds}
        return [S for S in ds if not contradictory(S)]

    def count(self, S, label):
        if label not in self.labels:
            return 0
        for n in (0, 1, 2):
            if ("cnt", label, n) in S:
                return n
        return None

    def always(self, i, f):
        """Fact f (or any of a list) holds on every path reaching i."""
        fs = f if isinstance(f, list) else [f]
        return all(any(entails(S, x) for x in fs) for S in self.at(i))

    def always_match(self, i, pat):
        return all(any(match(pat, f) is not None for f in S) for S in self.at(i))

    def resolve(self, S, t, depth=0):
        """Value of a phi term in disjunct S."""
        if t[0] != "phi":
            return t
        cls, w = {t}, [t]
        while w:
            x = w.pop()
            for f in S:
                if f[0] == "cmp" and f[1] == "eq":
                    for a, b in ((f[2], f[3]), (f[3], f[2])):
                        if a == x and b not in cls:
                            cls.add(b)
                            if b[0] == "phi":
                                w.append(b)
        cands = sorted(cls, key=lambda x: (x[0] != "int", x[0] != "null", x[0] == "phi", repr(x)))
        best = cands[0]
        return best if best[0] != "phi" else t

    def rets(self):
        """[(value term, disjunct)] for every path class reaching a return."""
        out = []
        for r in self.fn.rets:
            for S in self.at(r):
                t = self.fn.term(r.ops[0]) if r.ops else None
                if t is not None:
                    t = self.resolve(S, t)
                    w1 = r.ops[0][0] == "v" and self.fn.ins[r.ops[0][1]].ty == "i1"
                    if t[0] == "cmp":
                        if contradictory(S | self.fn.split(t, False)):
                            t = ("int", 1)
                        elif contradictory(S | self.fn.split(t, True)):
                            t = ("int", 0)
                        else:
                            for pol in (True, False):
                                out.append((("int", int(pol)), S | self.fn.split(t, pol)))
                            continue
                    elif t[0] == "int" and w1:
                        t = ("int", 1 if t[1] else 0)
                out.append((t, S))
        return out
