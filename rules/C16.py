"""The huge page pool and its cache hand on every huge page they take exactly
once, and their totals follow."""
from tcm import *
from segs import segs
from C09 import nrm, mk
from C11 import ends_of
from C15 import parts
from C19 import plus

P = r"^tcmalloc::tcmalloc_internal::"
AN = [r"Huge(Allocator|Cache)::(Get|Release|ReleaseUnbacked|Find|AllocateRange|ShrinkCache|IncUsage|DecUsage|UpdateSize|MaybeGrowCacheLimit|MaybeShrinkCacheLimit|DoGet)\(",
      "HugeAddressMap", "MinMaxTracker", "Clock", "SpinLock", "CheckFailed"]
M43 = (1 << 43) - 1
PURE = re.compile(r"HugeAddressMap::(Node::(range|longest|left|right)|root|first)$")


def run(c):
    c.rule("once", "a range taken is handed on exactly once, whole or in pieces that make it up")
    c.rule("total", "the totals change by what was taken in and handed on")
    c.rule("fit", "a range is as long as asked for, from a node found long enough")
    c.rule("search", "the search leaves out no part of the tree that is needed and keeps the best node seen")
    c.rule("unback", "what is given up is unbacked first, and kept when that fails")
    c.rule("told", "the caller learns whether the memory is backed, and the statistics take in every node")
    fs = {}
    for k, ns in (("HugeAllocator", ("Get", "Release", "AllocateRange", "Find", "AddSpanStats")),
                  ("HugeCache", ("Get", "DoGet", "Release", "ReleaseUnbacked", "ShrinkCache", "MaybeShrinkCacheLimit", "ReleaseCachedPages", "IncUsage", "DecUsage", "Find", "AddSpanStats"))):
        for n in ns:
            own = r"%s::%s\(" % (k, n)
            fs[k, n] = c.fns(P + own, [a for a in apart(k, n)], floor=1)
            c.need(fs[k, n], "no %s::%s" % (k, n))
    for (k, n), g in ((("HugeAllocator", "Get"), aget), (("HugeAllocator", "Release"), arelease), (("HugeAllocator", "AllocateRange"), more),
                      (("HugeAllocator", "Find"), search), (("HugeCache", "Find"), search), (("HugeCache", "DoGet"), doget), (("HugeCache", "Get"), cget),
                      (("HugeCache", "Release"), crelease), (("HugeCache", "ReleaseUnbacked"), cunbacked), (("HugeCache", "ShrinkCache"), shrink),
                      (("HugeCache", "MaybeShrinkCacheLimit"), limit), (("HugeCache", "ReleaseCachedPages"), cached),
                      (("HugeCache", "IncUsage"), usage), (("HugeCache", "DecUsage"), usage), (("HugeAllocator", "AddSpanStats"), stats), (("HugeCache", "AddSpanStats"), stats)):
        for f in fs[k, n]:
            g(c, f)


def apart(k, n):
    """the anchors, the function itself left out"""
    a = []
    for kk in ("HugeAllocator", "HugeCache"):
        for m in ("Get", "Release", "ReleaseUnbacked", "Find", "AllocateRange", "ShrinkCache", "IncUsage", "DecUsage", "UpdateSize", "MaybeGrowCacheLimit", "MaybeShrinkCacheLimit", "DoGet"):
            if (kk, m) != (k, n):
                a.append(r"%s::%s\(" % (kk, m))
    return a + AN[1:]


# -- terms --------------------------------------------------------------------
THIS = ("arg", 0)


def member(a):
    """the member of the object an address leads into"""
    a = nrm(a)
    while isinstance(a, tuple) and a and a[0] == "fld":
        if a[1] in ("HugeCache", "HugeAllocator") and a[3] == THIS:
            return a[2]
        a = a[3]
    return None


def canon(t):
    """members by name, pure calls alike wherever made"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "load":
        m = member(t[1])
        if m:
            return ("m", m)
    if t[0] == "call" and len(t) > 3 and PURE.search(t[1]):
        return t[:2] + (tuple(canon(x) for x in t[2]), 0) + t[4:]
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def rebuild(t):
    """linear forms gathered again after canonising"""
    return nrm(canon(nrm(t)))


class View:
    """a path with its frame resolved and the members it loads told apart by when"""

    def __init__(self, s, clobber=r"^$"):
        self.s, f = s, s.f
        self.loads, cur, n = {}, {}, {}
        self.A = {}
        st = {}
        for i in s.ins:
            if i.op == "store":
                a = nrm(s.t(i.ops[1]))
                if a[0] == "alloca":
                    n[a] = n.get(a, 0) + 1
                    st[a] = nrm(s.t(i.ops[0]))
        for _ in range(3):
            self.A = {("load", a, None): self.sub(v) for a, v in st.items() if n[a] == 1}
        self.calls = []
        self.change = {}
        for i in s.ins:
            if i.op == "load":
                m = member(s.t(i.ops[0]))
                if m:
                    self.loads[i.id] = cur.get(m, {("m", m): 1})
            elif i.op == "store":
                m = member(s.t(i.ops[1]))
                if m:
                    v = self.lin(i.ops[0])
                    was = cur.get(m, {("m", m): 1})
                    self.change[m] = plus(self.change.get(m, {}), plus(v, was, -1))
                    cur[m] = v
            elif i.op == "call" and "lifetime" not in i.cshort:
                self.calls.append(i)
                if re.search(clobber, i.cshort):
                    for m in list(cur) + list({member(s.t(j.ops[0])) for j in s.ins if j.op == "load"} - {None}):
                        cur[m] = {("m", m, i.id): 1}
        self.F = [canon(self.sub(nrm(x))) for x in s.F]
        self.F = [("cmp", x[1], nrm(x[2]), nrm(x[3])) if x[0] == "cmp" else x for x in self.F]
        self.eq = {}

    def sub(self, t):
        for _ in range(4):
            u = self.rep(t)
            if u == t:
                return t
            t = nrm(u)
        return t

    def rep(self, t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "load" and ("load", t[1], None) in self.A:
            return self.A["load", t[1], None]
        return tuple(self.rep(x) if isinstance(x, tuple) else x for x in t)

    def T(self, o):
        return nrm(canon(self.sub(nrm(self.s.t(o)))))

    def term(self, t):
        return nrm(canon(self.sub(nrm(self.s.term(t)))))

    def lin(self, o):
        if o[0] == "v":
            i = self.s.f.ins[o[1]]
            if i.op == "add":
                return plus(self.lin(i.ops[0]), self.lin(i.ops[1]))
            if i.op == "sub":
                return plus(self.lin(i.ops[0]), self.lin(i.ops[1]), -1)
            if i.op in ("zext", "sext", "trunc", "freeze"):
                return self.lin(i.ops[0])
            if i.op == "load" and i.id in self.loads:
                return dict(self.loads[i.id])
        return lf(self.T(o))

    def args(self, i):
        return [self.T(o) for o in i.ops]

    def names(self, rx):
        return [i for i in self.calls if re.search(rx, i.cshort)]

    def found(self):
        """nodes found for a length of n and not longer are exactly that long"""
        for x in self.F:
            for p, a, b in both(x):
                if p == "ule" and a[0] == "ext" and a[1][0] == "call" and a[1][1].endswith("Node::range") and one(a[2]) == 1:
                    nd = a[1][2][0]
                    if nd[0] == "call" and nd[1].endswith("::Find") and nd[2][1] == b:
                        self.eq[a] = lf(b)

    def fix(self, a):
        r = {}
        for k, v in a.items():
            r = plus(r, self.eq[k] if k in self.eq else {k: 1}, v)
        return r

    def nil(self, t):
        """the path knows a range's start for no page"""
        if t == I(0):
            return True
        for x in self.F:
            if x[0] == "cmp" and x[3] == I(0) and x[1] in ("eq", "ne"):
                a = x[2]
                if a[0] == "and" and len(a) == 3 and I(M43) in a[1:]:
                    a = a[1] if a[2] == I(M43) else a[2]
                if a == t:
                    return x[1] == "eq"
        return None

    def impossible(self):
        """a range that was cut off starts past its beginning, so at a page"""
        for x in self.F:
            if x[0] == "cmp" and x[3] == I(0) and x[1] in ("eq", "ne"):
                a = x[2]
                if a[0] == "and" and len(a) == 3 and I(M43) in a[1:]:
                    a = a[1] if a[2] == I(M43) else a[2]
                    if a == I(0) and x[1] == "ne" or x[1] == "eq" and a[0] == "lin" and "Node::range" in repr(a):
                        return True
        return False

    def null(self, t):
        for x in self.F:
            if x[0] == "cmp" and x[1] in ("eq", "ne") and x[2] == t and x[3] in (("null",), I(0)):
                return x[1] == "eq"
        return None


def both(x):
    """a comparison seen from either side, negations folded"""
    neg = False
    while x[0] == "not":
        neg, x = not neg, x[1]
    if x[0] != "cmp":
        return []
    p, a, b = x[1:4]
    if neg:
        p = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}.get(p, p)
    r = [(p, a, b), ({"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p), b, a)]
    if p == "eq":
        r += [("ule", a, b), ("ule", b, a)]
    return r


def lf(t):
    t = nrm(t)
    if t[0] == "lin":
        return {(k if k == 1 else k): v for k, v in t[1]}
    if t[0] == "int":
        return {1: t[1]} if t[1] else {}
    return {t: 1}


def one(i):
    return i[0] if isinstance(i, tuple) and i and isinstance(i[0], int) else i[1] if isinstance(i, tuple) and len(i) > 1 else i


def rng(v, i, k):
    """(start, length) an argument pair gives"""
    return v.lin(i.ops[k]), v.lin(i.ops[k + 1])


def of(t):
    """(start, length) of a call that returns a range"""
    return {("ext", t, (0,)): 1}, {("ext", t, (1,)): 1}


def points(acc, r, k):
    """the range as the difference of its ends"""
    a, b = mk(r[0]), mk(plus(r[0], r[1]))
    acc[a] = acc.get(a, 0) + k
    acc[b] = acc.get(b, 0) - k


def even(v, takes, gives):
    acc = {}
    for r in takes:
        points(acc, tuple(v.fix(x) for x in r), 1)
    for r in gives:
        points(acc, tuple(v.fix(x) for x in r), -1)
    return not any(acc.values())


def cells(t):
    """a pair of scalars the function returns"""
    p = parts(t)
    return p


def ret(v):
    s = v.s
    t = nrm(canon(v.sub(nrm(s.end[1]))))
    if t[0] == "call":
        return ("ext", t, (0,)), {("ext", t, (1,)): 1}, t
    p = {}
    while t[0] == "insv":
        p.setdefault(one(t[3]), t[2])
        t = t[1]
    if 0 not in p or 1 not in p:
        return None
    return p[0], lf(p[1]), None


def exts(t):
    """ext indices in one shape"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "ext" and len(t) == 3:
        return ("ext", exts(t[1]), (one(t[2]),))
    return tuple(exts(x) if isinstance(x, tuple) else x for x in t)


def fixed(v, r):
    return tuple(v.fix({(exts(k) if isinstance(k, tuple) else k): w for k, w in x.items()}) for x in r)


def balance(c, v, f, tag, takes, gives):
    acc = {}
    for k, rs in ((1, takes), (-1, gives)):
        for r in rs:
            points(acc, fixed(v, r), k)
    c.ob("once", not any(acc.values()), tag, f, "what is handed on is not what was taken")


def length(v, rs):
    t = {}
    for r in rs:
        t = plus(t, fixed(v, r)[1])
    return t


def eqv(v, a, b):
    a, b = fixed(v, (a, b))
    return not plus(a, b, -1)


def taken(v, i, c, f, tag):
    """the range of the node a Remove takes out"""
    n = v.args(i)[1]
    c.ob("fit", n[0] == "call" and n[1].endswith("::Find") and v.null(n) is not True, tag, i, "a node is removed that was not found")
    return of(("call", "HugeAddressMap::Node::range", (n,), 0)) if n[0] == "call" else of(n)


def on(v, i, name):
    return member(v.s.t(i.ops[0])) == name


def prep(s, clobber=r"^$"):
    v = View(s, clobber)
    v.F = [exts(x) for x in v.F]
    v.found()
    return v


# -- the pool -----------------------------------------------------------------
def aget(c, f):
    n = ("arg", 1)
    k = 0
    for s in ends_of(f):
        v = prep(s)
        c.ob("once", s.end[0] == "ret", "Get-loop", f, "taking a range loops")
        if s.end[0] != "ret" or v.impossible():
            continue
        r = ret(v)
        if r is None:
            c.ob("once", False, "Get-ret", f, "what is returned is no range")
            continue
        start = exts(r[0])
        nil = v.nil(start)
        takes, gives = [], []
        d = dict(v.change.get("in_use_", {}))
        for i in v.calls:
            if i.cshort.endswith("HugeAllocator::AllocateRange"):
                t = v.term(f.term(("v", i.id)))
                a = of(t)
                z = v.nil(exts(("ext", t, (0,))))
                if z is not True:
                    takes.append(a)
            elif i.cshort.endswith("HugeAllocator::Release"):
                a = rng(v, i, 1)
                gives.append(a)
                d = plus(d, a[1], -1)
            elif i.cshort.endswith("HugeAddressMap::Remove"):
                takes.append(taken(v, i, c, f, "Get-node"))
            elif i.cshort.endswith("HugeAddressMap::Insert"):
                gives.append(rng(v, i, 1))
        if nil:
            c.ob("total", eqv(v, d, {}), "Get-none-used", f, "failure to get a range changes the pages in use")
            balance(c, v, f, "Get-none", takes, gives)
            continue
        k += 1
        balance(c, v, f, "Get", takes, gives + [(lf(start), r[1])])
        c.ob("fit", eqv(v, r[1], {n: 1}), "Get-length", f, "the range returned is not of the length asked for")
        c.ob("total", eqv(v, d, {n: 1}), "Get-used", f, "the pages in use do not grow by those returned")
        c.ob("total", not v.change.get("from_system_"), "Get-system", f, "the pages obtained from the system change without a call to it")
    c.ob("once", k > 0, "Get-any", f, "no range is ever returned")


def arelease(c, f):
    for s in ends_of(f):
        v = prep(s)
        ins = v.names("HugeAddressMap::Insert$")
        c.ob("once", len(ins) == 1 and on(v, ins[0], "free_") and even(v, [({("arg", 1): 1}, {("arg", 2): 1})], [rng(v, ins[0], 1)]), "Release", f, "a range released is not put in the pool")
        c.ob("total", v.change.get("in_use_") == {("arg", 2): -1} and not v.change.get("from_system_"), "Release-used", f, "the pages in use do not shrink by those released")


def more(c, f):
    n = ("arg", 1)
    k = 0
    for s in ends_of(f):
        v = prep(s)
        if s.end[0] != "ret":
            c.ob("once", False, "more", f, "getting more loops")
            continue
        ic = [i for i in v.calls if i.cshort == "<indirect>"]
        r = ret(v)
        d = v.change.get("from_system_", {})
        small = any(p == "ult" and a == n and b[0] == "int" and b[1] <= 1 << 43 or p == "ule" and a == n and b[0] == "int" and b[1] < 1 << 43 for x in v.F for p, a, b in both(x))
        if not ic:
            c.ob("fit", not small and r is not None and r[0] == I(0) and not d, "more-overflow", f, "a request that fits is refused, or one refused counts")
            continue
        a = [v.lin(o) for o in ic[0].ops]
        c.ob("fit", len(ic) == 1 and small and {n: 1 << 21} in a and {1: 1 << 21} in a, "more-ask", f, "the system is asked for another size or alignment than needed, or for one that overflows")
        t = f.term(("v", ic[0].id))
        z = r is not None and r[0] == I(0)
        if z:
            p = any(x[0] == "cmp" and x[1] == "eq" and x[3] in (("null",), I(0)) and "icall" in repr(x[2]) and x[2][0] == "ext" and one(x[2][2]) == 0 for x in v.F)
            c.ob("total", p and not d, "more-none", f, "memory obtained is dropped, or none counts")
        else:
            k += 1
            q = r is not None and len(r[1]) == 1 and shifted(r[0], 0) and shifted(next(iter(r[1])), 1)
            c.ob("once", q, "more-range", f, "the range returned is not the memory obtained")
            c.ob("total", r is not None and eqv(v, d, r[1]), "more-system", f, "the pages obtained from the system do not grow by the memory obtained")
    c.ob("once", k > 0, "more-any", f, "nothing is ever obtained")


def shifted(t, k):
    if not isinstance(t, tuple):
        return False
    if t[0] == "udiv":
        return t[2] == I(1 << 21) and t[1][0] == "ext" and one(t[1][2]) == k and "icall" in repr(t[1])
    return t[0] == "lshr" and t[2] == I(21) and t[1][0] == "ext" and one(t[1][2]) == k and "icall" in repr(t[1])


# -- the search ---------------------------------------------------------------
def search(c, f):
    n = ("arg", 1)
    root = lambda t: t[0] == "call" and t[1].endswith("HugeAddressMap::root") and member(t[2][0]) in ("free_", "cache_") or t[0] == "load" and "root_" in repr(t)
    c.ob("search", len(f.loops) == 1, "Find-loop", f, "the search is no single loop")
    if len(f.loops) != 1:
        return
    S = ends_of(f)
    # which of the loop's values is the node looked at, and which the best so far
    turns = [s for s in S if s.end[0] == "turn"]
    stops = [s for s in S if s.end[0] == "stop"]
    c.ob("search", bool(turns) and bool(stops), "Find-turn", f, "the search does not descend")
    if not turns or not stops:
        return
    cur = best = None
    for k, t in stops[0].end[2].items():
        t = nrm(t)
        if t == ("null",):
            best = k
        elif root(t) or True and t[0] in ("call", "load"):
            cur = k
    c.ob("search", cur is not None and best is not None and all(root(nrm(canon(nrm(s.end[2][cur])))) or root(nrm(s.end[2][cur])) for s in stops), "Find-root", f, "the search does not start at the root with nothing found")
    if cur is None or best is None:
        return
    C, B = ("phi", cur), ("phi", best)
    for s in S:
        v = prep(s)
        nul = v.null(C)
        if s.end[0] == "ret":
            r = nrm(s.end[1])
            c.ob("search", r == B, "Find-best", f, "what is returned is not the best node seen")
            short_ = any(p == "ult" and a == lon(C) and b == n for x in v.F for p, a, b in both(x))
            c.ob("search", nul is True or short_, "Find-end", f, "the search ends although the subtree may have a range long enough")
        elif s.end[0] == "turn":
            b = nrm(s.end[2][best])
            fits = any(p == "ule" and a == n and b2 == ln(C) or p == "uge" and a == ln(C) and b2 == n for x in v.F for p, a, b2 in both(x))
            toosmall = any(p == "ult" and a == ln(C) and b2 == n for x in v.F for p, a, b2 in both(x))
            if b == C:
                c.ob("fit", fits, "Find-fits", f, "a node too short is taken for a match")
            elif b == B:
                c.ob("search", toosmall or v.null(B) is False, "Find-kept", f, "a node that fits is not kept although none was found")
            elif b[0] == "select" and set(b[2:4]) == {B, C}:
                c.ob("fit", fits, "Find-fits", f, "a node too short is taken for a match")
            else:
                c.ob("search", False, "Find-other", f, "the best node becomes one that was not looked at")
            t = canon(nrm(s.end[2][cur]))
            for x in (t[2:4] if t[0] == "select" else (t,)):
                x = nrm(x)
                l, r = kid("left", C), kid("right", C)
                if x not in (l, r):
                    c.ob("search", False, "Find-child", f, "the search goes on at a node that is no child")
                    continue
                o = l if x == r else r
                none = v.null(o) is True or less(v, lon(o), n)
                enough = any(p in ("ule",) and a == n and b2 == lon(x) for y in v.F for p, a, b2 in both(y))
                c.ob("search", none or enough, "Find-way", f, "the search leaves a subtree that fits for one that may not")
    c.ob("search", True, "Find-done", f, "")


def less(v, a, n):
    return any(p == "ult" and x == a and y == n for z in v.F for p, x, y in both(z))


def lon(t):
    return ("call", "HugeAddressMap::Node::longest", (t,), 0)


def kid(w, t):
    return ("call", "HugeAddressMap::Node::" + w, (t,), 0)


def ln(t):
    return ("ext", ("call", "HugeAddressMap::Node::range", (t,), 0), (1,))


# -- the cache ----------------------------------------------------------------
def doget(c, f):
    n, rel = ("arg", 1), ("arg", 2)
    hits = misses = 0
    for s in ends_of(f):
        v = prep(s)
        if s.end[0] != "ret":
            c.ob("once", False, "DoGet-loop", f, "taking a range loops")
            continue
        if v.impossible():
            continue
        r = ret(v)
        if r is None:
            c.ob("once", False, "DoGet-ret", f, "what is returned is no range")
            continue
        start = exts(r[0])
        flag = [v.T(i.ops[0]) for i in s.ins if i.op == "store" and nrm(s.t(i.ops[1])) == rel]
        takes, gives, held = [], [], {}
        got = False
        for i in v.calls:
            if i.cshort.endswith("HugeAllocator::Get"):
                t = v.term(f.term(("v", i.id)))
                c.ob("fit", v.lin(i.ops[1]) == {n: 1}, "DoGet-ask", i, "the pool is asked for another length")
                got = True
                takes.append(of(t))
            elif i.cshort.endswith("HugeAddressMap::Remove"):
                c.ob("once", on(v, i, "cache_"), "DoGet-map", i, "a node is removed from another map")
                a = taken(v, i, c, f, "DoGet-node")
                takes.append(a)
                held = plus(held, fixed(v, a)[1], -1)
            elif i.cshort.endswith("HugeAddressMap::Insert"):
                a = rng(v, i, 1)
                gives.append(a)
                held = plus(held, fixed(v, a)[1])
            elif i.cshort.endswith("HugeAllocator::Release"):
                gives.append(rng(v, i, 1))
        z = v.nil(start)
        balance(c, v, f, "DoGet", takes, gives + [(lf(start), r[1])])
        c.ob("total", eqv(v, v.change.get("size_", {}), held), "DoGet-size", f, "the cache's size does not follow what it holds")
        if got:
            misses += 1
            c.ob("told", z is True or flag == [I(1)], "DoGet-released", f, "memory from the pool is not reported unbacked")
            c.ob("total", v.change.get("misses_") == {1: 1} and not v.change.get("hits_"), "DoGet-miss", f, "a miss is not counted")
        else:
            hits += 1
            c.ob("told", flag == [I(0)], "DoGet-backed", f, "memory from the cache is not reported backed")
            c.ob("fit", eqv(v, r[1], {n: 1}), "DoGet-length", f, "the range returned is not of the length asked for")
            c.ob("total", v.change.get("hits_") == {1: 1} and not v.change.get("misses_"), "DoGet-hit", f, "a hit is not counted")
    c.ob("once", hits > 0 and misses > 0, "DoGet-any", f, "the cache or the pool is never used")


def cget(c, f):
    for s in ends_of(f):
        v = prep(s)
        g, u = v.names("HugeCache::DoGet$"), v.names("HugeCache::IncUsage$")
        ok = len(g) == 1 and len(u) == 1 and s.end[0] == "ret"
        c.ob("once", ok, "Get-one", f, "a range is not taken and counted once")
        if not ok:
            continue
        t = v.term(f.term(("v", g[0].id)))
        a = v.args(g[0])
        c.ob("fit", a[1:] == [("arg", 1), ("arg", 2)], "Get-ask", f, "another length is taken than asked for")
        r = ret(v)
        same = r is not None and (r[2] == t or exts(r[0]) == ("ext", t, (0,)) and {exts(k): w for k, w in r[1].items()} == {("ext", t, (1,)): 1})
        c.ob("once", same, "Get-ret", f, "what is returned is not the range taken")
        l = {exts(k): w for k, w in v.lin(u[0].ops[1]).items() if k != 1}
        c.ob("total", l == {("ext", t, (1,)): 1}, "Get-usage", f, "the usage does not grow by the range taken")


def crelease(c, f):
    for s in ends_of(f):
        v = prep(s, r"HugeCache::(ShrinkCache|MaybeShrinkCacheLimit)$")
        u, ins = v.names("HugeCache::DecUsage$"), v.names("HugeAddressMap::Insert$")
        R = ({("arg", 1): 1}, {("arg", 2): 1})
        c.ob("once", len(ins) == 1 and on(v, ins[0], "cache_") and even(v, [R], [rng(v, ins[0], 1)]), "cache-Release", f, "a range released is not put in the cache")
        c.ob("total", len(u) == 1 and v.lin(u[0].ops[1]) == R[1], "cache-Release-usage", f, "the usage does not shrink by the range released")
        c.ob("total", v.change.get("size_") == R[1], "cache-Release-size", f, "the cache does not grow by the range released")
        sh = v.names(r"HugeCache::ShrinkCache$")
        k = {j.id: x for x, j in enumerate(s.ins)}
        c.ob("unback", len(sh) >= 1 and len(ins) == 1 and k[sh[-1].id] > k[ins[0].id] and on_limit(v, sh[-1]), "cache-Release-shrink", f, "the cache is left above its limit")
        tot = {}
        for i in v.names(r"HugeCache::(ShrinkCache|MaybeShrinkCacheLimit)$"):
            tot = plus(tot, {v.term(f.term(("v", i.id))): 1})
        c.ob("total", eqcalls(v.change.get("total_fast_unbacked_", {}), tot), "cache-Release-unbacked", f, "the memory unbacked is not counted")


def eqcalls(a, b):
    g = lambda d: sorted((k[1] if isinstance(k, tuple) and k[0] == "call" else repr(k), w) for k, w in d.items())
    return g(a) == g(b)


def on_limit(v, i):
    a = v.lin(i.ops[1])
    return len(a) == 1 and all(isinstance(k, tuple) and k[0] == "m" and k[1] == "limit_" and w == 1 for k, w in a.items())


def cunbacked(c, f):
    for s in ends_of(f):
        v = prep(s)
        u, rel = v.names("HugeCache::DecUsage$"), v.names("HugeAllocator::Release$")
        R = ({("arg", 1): 1}, {("arg", 2): 1})
        c.ob("once", len(rel) == 1 and even(v, [R], [rng(v, rel[0], 1)]) and not v.names("HugeAddressMap::Insert$"), "unbacked", f, "an unbacked range is not given back to the pool")
        c.ob("total", len(u) == 1 and v.lin(u[0].ops[1]) == R[1] and not v.change.get("size_"), "unbacked-usage", f, "the usage does not shrink by the range released")


def shrink(c, f):
    target = ("arg", 1)
    c.ob("unback", len(f.loops) == 1, "Shrink-loop", f, "shrinking is no single loop")
    if len(f.loops) != 1:
        return
    cnt = None
    for s in segs(f, stop=[f.loops[0]["header"]]):
        if s.end[0] == "stop":
            z = [k for k, t in s.end[2].items() if nrm(t) == I(0)]
            cnt = z[0] if z else None
    c.ob("total", cnt is not None, "Shrink-zero", f, "the count of pages removed does not start at zero")
    turns = 0
    for s in segs(f, start=f.blocks[f.loops[0]["header"]][0]):
        v = prep(s, r"^<indirect>$")
        if v.impossible():
            continue
        takes, gives, held, out = [], [], {}, {}
        un = [i for i in v.calls if i.cshort == "<indirect>"]
        c.ob("unback", len(un) <= 1, "Shrink-once", f, "memory is unbacked twice")
        k = {j.id: x for x, j in enumerate(s.ins)}
        ok = None
        if un:
            i = un[0]
            a = [v.lin(o) for o in i.ops]
            b = [({k2: w // 256 for k2, w in x.items()} if all(w % 256 == 0 for w in x.values()) else None) for x in a]
            ok = success(v, s.f, i)
            c.ob("unback", ok is not None, "Shrink-asked", i, "whether unbacking succeeded is not looked at")
            rest = [r for r in v.calls if k[r.id] > k[i.id] and re.search("HugeAllocator::Release$|HugeAddressMap::Insert$", r.cshort)]
            for r in rest:
                q = rng(v, r, 1)
                c.ob("unback", q[0] in b and q[1] in b, "Shrink-same", r, "the range given up or kept is not the one unbacked")
        for i in v.calls:
            if i.cshort.endswith("HugeAddressMap::Remove"):
                a = taken(v, i, c, f, "Shrink-node")
                takes.append(a)
                held = plus(held, fixed(v, a)[1], -1)
            elif i.cshort.endswith("HugeAddressMap::Insert"):
                a = rng(v, i, 1)
                gives.append(a)
                held = plus(held, fixed(v, a)[1])
            elif i.cshort.endswith("HugeAllocator::Release"):
                a = rng(v, i, 1)
                gives.append(a)
                out = plus(out, fixed(v, a)[1])
                c.ob("unback", ok is True and un and k[un[0].id] < k[i.id], "Shrink-backed", i, "memory is given to the pool that is still backed")
        balance(c, v, f, "Shrink", takes, gives)
        c.ob("total", eqv(v, v.change.get("size_", {}), held), "Shrink-size", f, "the cache's size does not follow what it holds")
        # while the lock is dropped, the size must already leave the range out
        if cnt is None:
            continue
        if s.end[0] == "turn":
            turns += 1
            d = plus(lf(rebuild(v.sub(nrm(s.end[2][cnt])))), {("phi", cnt): 1}, -1)
            c.ob("total", eqv(v, {exts(k2) if isinstance(k2, tuple) else k2: w for k2, w in d.items()}, out) or eqm(v, d, out), "Shrink-count", f, "the pages counted are not those given up")
        elif s.end[0] == "ret":
            d = plus(lf(rebuild(v.sub(nrm(s.end[1])))), {("phi", cnt): 1}, -1)
            c.ob("total", eqv(v, d, out), "Shrink-ret", f, "the pages reported are not those given up")
    c.ob("unback", turns > 0, "Shrink-any", f, "nothing is ever given up")


def eqm(v, a, b):
    g = lambda d: {(k[:2] if isinstance(k, tuple) and k[0] == "m" else k): w for k, w in fixed(v, (d, {}))[0].items()}
    return not plus(g(a), g(b), -1)


def success(v, f, i):
    """whether the path takes an indirect call's result for true"""
    for x in v.s.F:
        y, neg = x, False
        while y[0] == "not":
            neg, y = not neg, y[1]
        if "icall" not in repr(y) or not str(i.id) in repr(y):
            continue
        if y[0] == "cmp" and y[1] in ("eq", "ne") and y[3] in (I(0), I(1)):
            z = nrm(y[2])
            if z[0] == "and" or z[0] in ("icall", "ext", "trunc"):
                return ((y[1] == "ne") == (y[3] == I(0))) != neg
        elif y[0] in ("icall", "ext", "and", "trunc"):
            return not neg
    return None


def limit(c, f):
    for s in ends_of(f):
        v = prep(s, r"HugeCache::ShrinkCache$")
        sh = v.names("HugeCache::ShrinkCache$")
        r = nrm(s.end[1])
        if not sh:
            c.ob("total", r == I(0) and "limit_" not in v.change, "limit-none", f, "pages are reported that were not given up, or the limit shrinks without the cache")
            continue
        c.ob("total", len(sh) == 1 and r[0] == "call" and r[1].endswith("ShrinkCache"), "limit-ret", f, "the pages given up are not reported")


def cached(c, f):
    n = ("arg", 1)
    for s in ends_of(f):
        v = prep(s, r"HugeCache::(ShrinkCache|MaybeShrinkCacheLimit)$")
        ms, sh = v.names("HugeCache::MaybeShrinkCacheLimit$"), v.names("HugeCache::ShrinkCache$")
        tot = {}
        for i in ms + sh:
            tot = plus(tot, {v.term(f.term(("v", i.id))): 1})
        r = lf(rebuild(v.sub(nrm(s.end[1]))))
        c.ob("total", eqcalls(r, tot), "periodic-ret", f, "the pages reported are not those given up")
        c.ob("total", eqcalls(v.change.get("total_periodic_unbacked_", {}), tot), "periodic-total", f, "the memory unbacked is not counted")
        got = {v.term(f.term(("v", i.id))): 1 for i in ms}
        left = plus({n: 1}, got, -1)
        F = [(p, lf(a), lf(b)) for x in v.F for p, a, b in both(x)]
        size = {("m", "size_"): 1}
        if sh:
            a = {(k[:2] if isinstance(k, tuple) and k[0] == "m" else k): w for k, w in v.lin(sh[0].ops[1]).items()}
            if a == {}:
                ok = any(p in ("ult", "ule") and eqcalls(x, size) and eqcalls2(y, left) for p, x, y in F)
            else:
                ok = eqcalls2(a, plus(size, left, -1))
            ok = ok or minmax(a, size, left)
            c.ob("unback", len(sh) == 1 and ok, "periodic-target", f, "the cache is shrunk by another amount than what remains to be released")
        else:
            c.ob("unback", any(p == "ule" and eqcalls2(x, {n: 1}) and eqcalls2(y, got) for p, x, y in F), "periodic-enough", f, "less is released than asked for")


def minmax(a, size, left):
    """size - min(size, left)"""
    for k, w in a.items():
        if isinstance(k, tuple) and k[0] == "usub.sat" and a == {k: 1}:
            return eqcalls2(lf(k[1]), size) and eqcalls2(lf(k[2]), left)
        if isinstance(k, tuple) and k[0] in ("umin",) and w == -1:
            return eqcalls2({q: x for q, x in a.items() if q != k}, size) and len(k) == 3 and any(eqcalls2(lf(p), left) for p in k[1:])
    return False


def eqcalls2(a, b):
    g = lambda d: {((k[1],) if isinstance(k, tuple) and k[0] == "call" else k): w for k, w in d.items()}
    return g(a) == g(b)


def usage(c, f):
    k = 1 if "IncUsage" in f.name else -1
    for s in ends_of(f):
        v = prep(s)
        c.ob("total", v.change.get("usage_") == {("arg", 1): k}, "usage", f, "the usage does not change by the pages taken or given back")


def stats(c, f):
    """every node's range is counted once, in the column of its state"""
    col = "returned_pages" if "HugeAllocator" in f.name else "normal_pages"
    c.ob("told", len(f.loops) == 1, "stats-loop", f, "the nodes are not gone through")
    if len(f.loops) != 1:
        return
    S = ends_of(f)
    cur = None
    for s in S:
        if s.end[0] == "stop":
            for k, t in s.end[2].items():
                t = canon(nrm(t))
                if t[0] == "call" and t[1].endswith("HugeAddressMap::first") and member(t[2][0]) in ("free_", "cache_"):
                    cur = k
    c.ob("told", cur is not None, "stats-first", f, "the nodes are not gone through from the first")
    if cur is None:
        return
    C = ("phi", cur)
    for s in S:
        if s.end[0] == "ret" and s.blocks and f.loops and s.blocks[0] == f.blocks[f.loops[0]["header"]][0]:
            v = prep(s)
            c.ob("told", v.null(C) is True, "stats-end", f, "the statistics leave out nodes")
        if s.end[0] != "turn":
            continue
        v = prep(s)
        t = nrm(s.end[2][cur])
        c.ob("told", t[0] == "call" and t[1].endswith("Node::next") and t[2][0] == C, "stats-next", f, "the next node is not the one after this")
        ch = {}
        for i in s.ins:
            if i.op == "store":
                a = nrm(s.t(i.ops[1]))
                while a[0] == "fld" and a[1] != "LargeSpanStats" and a[3][0] == "fld":
                    a = a[3]
                if a[0] == "fld" and a[3] == ("arg", 2):
                    d = plus(lf(rebuild(nrm(s.t(i.ops[0])))), lf(rebuild(("load", nrm(s.t(i.ops[1])), None))), -1)
                    ch[a[2]] = plus(ch.get(a[2], {}), {exts(k) if isinstance(k, tuple) else k: w for k, w in d.items()})
        if v.null(("arg", 2)) is True:
            c.ob("told", not ch, "stats-null", f, "statistics are stored through null")
            continue
        c.ob("told", ch == {"spans": {1: 1}, col: {ln(C): 256}}, "stats-node", f, "a node is not counted as one span of its pages")
