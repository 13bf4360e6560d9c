"""The map of free huge page ranges keeps every range once, in order, merged
with its neighbours, and knows the longest range of each subtree."""
from tcm import *
from segs import segs
from C09 import nrm, mk
from C19 import plus

P = r"^tcmalloc::tcmalloc_internal::HugeAddressMap::"
NS = ["Node::next", "Node::FixLongest", "FixLongest", "Predecessor", "first", "Merge", "Remove", "Get", "Put", "Insert", "Node::Node"]
MORE = ["ExponentialBiased", "CheckFailed", "CycleClock", "MetadataAlloc"]


def run(c):
    c.rule("order", "a search or an insertion goes left of later ranges and right of earlier ones, and misses none")
    c.rule("links", "a node is linked to its parent in both directions, at the side its range calls for")
    c.rule("heap", "a node of higher priority is never below one of lower priority")
    c.rule("longest", "the longest range of a subtree follows every change of the subtree")
    c.rule("merge", "adjacent ranges, and no others, become one that is made up of them exactly")
    c.rule("total", "the total and the node counts follow every insertion and removal")
    for n, g in (("Node::FixLongest", fix), ("FixLongest", fixup), ("Put", put), ("Get", get), ("Predecessor", pred), ("first", leftmost),
                 ("Node::next", succ), ("Merge", merge), ("Insert", insert), ("Remove", remove)):
        an = [r"HugeAddressMap::%s\(" % m for m in NS if m != n] + MORE
        fs = [f for f in c.fns(P + n + r"\(", an, floor=1) if "$_" not in f.name]
        c.need(fs, "no HugeAddressMap::" + n)
        for f in fs:
            g(c, f)


# -- terms --------------------------------------------------------------------
THIS = ("arg", 0)
NULL = ("null",)


def where(a):
    """(base, name) of an address within a node or within the map"""
    second, a = False, nrm(a)
    while isinstance(a, tuple) and a:
        if a[0] == "fld":
            if a[1].endswith("Node") and a[2] != "Node":
                if a[2] == "range_":
                    return a[3], "len" if second else "start"
                return a[3], a[2]
            if a[1].endswith("HugeAddressMap"):
                return "map", a[2]
            if a[2] in ("max", "#1", "n", "len_", "second", "n_"):
                second = True
            a = a[3]
        elif a[0] == "gep" and len(a) == 4 and not a[3] and a[2] == 8:
            second, a = True, a[1]
        else:
            return None
    return None


def cn(t):
    """the term in terms of nodes: ("n", node, field) for a value, ("a", node,
    field) for an address, ("m", member) for the map's own"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "load":
        w = where(t[1])
        if w:
            return ("m", w[1]) if w[0] == "map" else ("n", cn(w[0]), w[1])
        x = cn(t[1])
        if x[0] == "a":
            return ("n", x[1], x[2])
        if x[0] == "ma":
            return ("m", x[1])
        return ("load", x, None)
    if t[0] in ("fld", "gep"):
        w = where(t)
        if w:
            return ("ma", w[1]) if w[0] == "map" else ("a", cn(w[0]), w[1])
    if t[0] == "call" and len(t) > 3:
        return t[:2] + (tuple(cn(x) for x in t[2]), 0) + t[4:]
    return tuple(cn(x) if isinstance(x, tuple) else x for x in t)


def N(t):
    t = cn(nrm(t))
    t = nrm(t)
    if t[0] in ("umax", "smax"):
        return (t[0],) + tuple(sorted(t[1:], key=repr))
    return I(0) if t == NULL else t


def n_(x, f):
    return ("n", x, f)


def lf(t):
    if t[0] == "lin":
        return dict(t[1])
    if t[0] == "int":
        return {1: t[1]} if t[1] else {}
    return {t: 1}


class Path:
    def __init__(self, s):
        self.s, self.f, self.end = s, s.f, s.end
        self.F = []
        for x in s.F:
            neg = False
            while x[0] == "not":
                neg, x = not neg, x[1]
            if x[0] != "cmp":
                continue
            p, a, b = x[1], N(x[2]), N(x[3])
            if neg:
                p = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}.get(p, p)
            if p[1:] in ("ge", "gt"):
                p, a, b = p[0] + {"ge": "le", "gt": "lt"}[p[1:]], b, a
            self.F.append((p, a, b))
        self.st, self.calls = [], []
        self.last = {}
        self.at = {}
        for k, i in enumerate(s.ins):
            self.at[i.id] = k
            if i.op == "store":
                a = N(s.t(i.ops[1]))
                w = where(s.t(i.ops[1]))
                a = (("ma", w[1]) if w[0] == "map" else ("a", N(w[0]), w[1])) if w else a
                v = N(s.t(i.ops[0]))
                self.st.append((a, v, i))
                self.last[a] = v
            elif i.op == "call" and "lifetime" not in i.cshort:
                self.calls.append(i)
        self.end2 = {k: N(v) for k, v in s.end[2].items()} if len(s.end) > 2 else {}

    def called(self, n):
        return [i for i in self.calls if i.cshort.endswith(n)]

    def args(self, i):
        return [N(x) for x in self.s.args(i)]

    def null(self, t):
        if t == I(0):
            return True
        for p, a, b in self.F:
            if p in ("eq", "ne") and (a == t and b == I(0) or b == t and a == I(0)):
                return p == "eq"
        return None

    def knows(self, a, b, strict=False):
        """a <= b, or a < b"""
        for p, x, y in self.F:
            if x == a and y == b and (p[1:] == "lt" or not strict and (p[1:] == "le" or p == "eq")):
                return True
            if not strict and p == "eq" and x == b and y == a:
                return True
        return False

    def lineq(self, d, eq=True):
        """a linear form known to be (or not to be) zero"""
        for p, a, b in self.F:
            if p == ("eq" if eq else "ne"):
                e = plus(lf(a), lf(b), -1)
                if e and d:
                    k = next(iter(d))
                    if k in e and e[k] % d[k] == 0:
                        m = e[k] // d[k]
                        if m and not plus(e, {q: w * m for q, w in d.items()}, -1):
                            return True
        return False

    def change(self, m):
        v = self.last.get(("ma", m))
        return {} if v is None else plus(lf(v), {("m", m): 1}, -1)

    def first(self, a):
        """the index of the last store to an address"""
        return max([self.at[i.id] for x, v, i in self.st if x == a], default=-1)


def paths(f):
    """[(header or None, path)] between loop headers"""
    hs = [l["header"] for l in f.loops]
    out = [(None, Path(s)) for s in segs(f, stop=hs)]
    for h in hs:
        for s in segs(f, start=f.blocks[h][0], stop=[x for x in hs if x != h]):
            out.append((h, Path(s)))
    return out


def onward(p, h):
    return p.end[0] in ("turn", "stop") and p.end[1] == h


def maxes(t, get):
    """the terms a maximum is taken of"""
    if t[0] == "umax":
        r = []
        for x in t[1:]:
            r += maxes(x, get)
        return r
    if t[0] == "select" and len(t) == 4 and t[1][0] == "cmp" and {N(t[1][2]), N(t[1][3])} == {t[2], t[3]}:
        p, a = t[1][1], N(t[1][2])
        up = p in ("ult", "ule")
        if p in ("ult", "ule", "ugt", "uge") and (t[3] if up else t[2]) == a:
            return maxes(t[2], get) + maxes(t[3], get)
    return [t]


# -- the longest range --------------------------------------------------------
def wanted(p, x, ln=True):
    """the terms the longest range below a node is the maximum of, as known"""
    w = set()
    for k in ("left_", "right_"):
        z = p.null(n_(x, k))
        if z is None:
            return None
        if z is False:
            w.add(n_(n_(x, k), "longest_"))
    if ln:
        w.add(n_(x, "len"))
    return w


def below(p, v):
    """the terms a path shows to be no more than v"""
    r, todo = set(), [v]
    while todo:
        t = todo.pop()
        if t not in r:
            r |= {t}
            todo += maxes(t, None)
            todo += [a for q, a, b in p.F if b == t and q in ("ult", "ule", "eq")] + [b for q, a, b in p.F if a == t and q == "eq"]
    return r


def fix(c, f):
    x = THIS
    if not f.loops:
        for h, p in paths(f):
            w = wanted(p, x)
            v = p.last.get(("a", x, "longest_"))
            c.ob("longest", w is not None and v is not None and set(maxes(v, None)) <= w | {I(0)} and w <= below(p, v), "fix", f, "the longest range is not that of the node and its children")
        return
    # the maximum of an array
    n = 0
    for h, p in paths(f):
        if h is None:
            w = wanted(p, x)
            el = [v for a, v, i in p.st if "alloca" in repr(a)]
            c.ob("longest", w is not None and set(el) - {I(0)} == w and len(el) == 3 and p.end[0] == "stop", "fix", f, "the longest range is not that of the node and its children")
            n += 1
        elif p.end[0] == "ret":
            v = p.last.get(("a", x, "longest_"))
            c.ob("longest", v is not None and v[0] == "load" and v[1][0] == "phi" and any(q == "eq" and a[0] == "phi" and b in (I(16), I(24)) for q, a, b in p.F) or v is not None and v[0] == "load" and v[1][0] == "phi" and any("alloca" in repr(y) for y in p.F), "fix-all", f, "the maximum is not of all three lengths")
        elif p.end[0] == "turn":
            ph = {k: v for k, v in p.end2.items()}
            best = [k for k, v in ph.items() if v == ("phi", k) or "alloca" in repr(v) and v[0] != "load" and v != ("phi", k)]
            ok = False
            for k, v in ph.items():
                cur = ("load", ("phi", k), None)
                if v == ("phi", k):
                    ok = ok or any(b == cur and q in ("ule", "ult") and "alloca" in repr(a) or b == cur and a[0] == "load" and q in ("ule", "ult") for q, a, b in p.F)
                elif v[0] in ("gep", "phi", "lin", "alloca"):
                    ok = ok or any(a == cur and q in ("ult", "ule") and b == ("load", v, None) for q, a, b in p.F)
            c.ob("longest", ok, "fix-max", f, "a smaller length is preferred")
    c.ob("longest", n > 0, "fix-any", f, "")


def fixup(c, f):
    n = 0
    for h, p in paths(f):
        if p.end[0] == "stop":
            c.ob("longest", ("arg", 1) in p.end2.values(), "up-start", f, "the repair does not start at the node")
        elif p.end[0] == "turn":
            n += 1
            k = [k for k, v in p.end2.items() if v == n_(("phi", k), "parent_")]
            l = p.called("Node::FixLongest")
            c.ob("longest", len(k) == 1 and len(l) == 1 and p.args(l[0])[0] == ("phi", k[0]), "up", f, "the repair leaves out a node on the way to the root")
        elif p.end[0] == "ret" and h is not None:
            c.ob("longest", any(q == "eq" and a[0] == "phi" and b == I(0) for q, a, b in p.F), "up-end", f, "the repair ends below the root")
    c.ob("longest", n == 1, "up-loop", f, "the repair is no walk to the root")


# -- nodes kept for later -----------------------------------------------------
def put(c, f):
    x = ("arg", 1)
    for h, p in paths(f):
        c.ob("total", p.change("freelist_size_") == {1: 1} and p.change("used_nodes_") == {1: -1} and not p.change("total_nodes_"), "put-counts", f, "the node counts do not follow a node that is kept")
        c.ob("links", p.last.get(("ma", "freelist_")) == x and p.last.get(("a", x, "left_")) == ("m", "freelist_"), "put-list", f, "a node kept is not at the head of the others")


def get(c, f):
    n = 0
    for h, p in paths(f):
        if p.end[0] != "ret":
            c.ob("total", False, "get-loop", f, "taking a node loops")
            continue
        z = p.null(("m", "freelist_size_"))
        if z is None:
            z = p.null(("m", "freelist_"))
        r = N(p.end[1])
        mk_ = p.called("Node::Node")
        if mk_:
            a = p.args(mk_[0])
            c.ob("links", len(mk_) == 1 and a[:3] == [r, ("arg", 1), ("arg", 2)], "get-range", f, "the node does not get the range")
        else:
            c.ob("links", p.last.get(("a", r, "start")) == ("arg", 1) and p.last.get(("a", r, "len")) == ("arg", 2), "get-range", f, "the node does not get the range")
        c.ob("total", p.change("used_nodes_") == {1: 1}, "get-used", f, "a node taken is not counted")
        if z is False:
            n += 1
            c.ob("total", p.change("freelist_size_") == {1: -1} and not p.change("total_nodes_"), "get-kept", f, "the node counts do not follow a node reused")
            c.ob("links", r == ("m", "freelist_") and p.last.get(("ma", "freelist_")) == n_(("m", "freelist_"), "left_"), "get-list", f, "a node reused stays among the kept ones")
            # its link to the next is read before it is made anew
        else:
            n += 1
            c.ob("total", z is True and p.change("total_nodes_") == {1: 1} and not p.change("freelist_size_"), "get-new", f, "the node counts do not follow a new node")
            c.ob("links", "icall" in repr(r) or "call" in repr(r), "get-fresh", f, "a node is not made of new memory")
    c.ob("total", n >= 2, "get-any", f, "nodes are never reused or never made")


# -- searches -----------------------------------------------------------------
def walker(p0, root):
    """the header values that stand for the current node, from how they start:
    {phi: whether it holds the node's address itself}"""
    r = {}
    for k, v in p0.end2.items():
        if v == ("m", root):
            r[k] = True
        elif v == ("ma", root):
            r[k] = False
    return r


def node(k, direct):
    return ("phi", k) if direct else ("load", ("phi", k), None)


def child(v, x, direct):
    """which child of x a value is, or leads to"""
    for k in ("left_", "right_"):
        if v == (n_(x, k) if direct else ("a", x, k)):
            return k
    return None


def pred(c, f):
    q = ("arg", 1)
    ps = paths(f)
    st = [p for h, p in ps if p.end[0] == "stop"]
    c.ob("order", bool(st) and len(f.loops) == 1, "pred-loop", f, "the search is no walk down the tree")
    if not st or len(f.loops) != 1:
        return
    W = walker(st[0], "root_")
    best = [k for k, v in st[0].end2.items() if v == I(0)]
    c.ob("order", len(W) == 1 and len(best) == 1, "pred-start", f, "the search does not start at the root with nothing found")
    if len(W) != 1 or len(best) != 1:
        return
    (k, d), = W.items()
    x, b = node(k, d), best[0]
    for h, p in ps:
        if h is None:
            continue
        z = p.null(x)
        before = p.knows(q, n_(x, "start"), True)
        after = p.knows(n_(x, "start"), q)
        if p.end[0] == "turn":
            s = child(p.end2[k], x, d)
            v = p.end2[b]
            if s == "left_":
                c.ob("order", before and v == ("phi", b), "pred-left", f, "the search turns away from where its range may be")
            elif s == "right_":
                c.ob("order", after and v == x, "pred-right", f, "the search turns away from where its range may be, or forgets the nearest range before")
            else:
                c.ob("order", False, "pred-step", f, "the search goes on at a node that is no child")
        elif p.end[0] == "ret":
            r = N(p.end[1])
            if r == x:
                off = plus({q: 1}, {n_(x, "start"): 1}, -1)
                inside = any(o == "ult" and lf(a) == off and y == n_(x, "len") for o, a, y in p.F) or \
                    any(o == "ult" and a == q and lf(y) == {n_(x, "start"): 1, n_(x, "len"): 1} for o, a, y in p.F)
                c.ob("order", z is False and (inside and after), "pred-hit", f, "a range is returned that does not contain the page")
            else:
                c.ob("order", z is True and r == ("phi", b), "pred-end", f, "the search ends early, or does not return the nearest range before")


def leftmost(c, f):
    for h, p in paths(f):
        if p.end[0] == "turn":
            ok = False
            for k, v in p.end2.items():
                if v == n_(("phi", k), "left_"):
                    ok = True
            for k, v in p.end2.items():
                for x in [("phi", j) for j in p.end2] + [("load", ("phi", j), None) for j in p.end2]:
                    if v == x and any(w in (n_(x, "left_"), ("a", x, "left_")) for w in p.end2.values()):
                        ok = True
            c.ob("order", ok, "first-step", f, "the first range is not the leftmost")
        elif p.end[0] == "ret":
            r = N(p.end[1])
            if h is None:
                c.ob("order", r == I(0) and p.null(("m", "root_")) is True or p.null(n_(r, "left_")) is True, "first-none", f, "nothing is returned though there is a range")
            else:
                done = p.null(n_(r, "left_")) is True or any(q == "eq" and b == I(0) and a[0] in ("phi", "load") and a != r for q, a, b in p.F)
                c.ob("order", done, "first-end", f, "the walk ends before the leftmost range")
        elif p.end[0] == "stop":
            vs = set(p.end2.values())
            c.ob("order", vs <= {("m", "root_"), n_(("m", "root_"), "left_"), ("a", ("m", "root_"), "left_"), I(0)} and ("m", "root_") in vs, "first-start", f, "the walk does not start at the root")


def succ(c, f):
    x = THIS
    down = up = 0
    role = {}
    ps = paths(f)
    for h, p in ps:
        if p.end[0] == "stop":
            z = p.null(n_(x, "right_"))
            vs = {k: v for k, v in p.end2.items()}
            if z is False:
                down += 1
                c.ob("order", n_(x, "right_") in vs.values() or ("a", x, "right_") in vs.values(), "next-right", f, "the next range is not sought in the right subtree")
                role[p.end[1]] = "down"
            elif z is True:
                up += 1
                a = [k for k, v in vs.items() if v == n_(x, "parent_") or v == ("a", x, "parent_")]
                b = [k for k, v in vs.items() if v == x]
                c.ob("order", len(a) == 1 and len(b) == 1, "next-up", f, "the next range is not sought above")
                role[p.end[1]] = "up", (a[0] if a else None), (b[0] if b else None), bool(a) and vs[a[0]] == n_(x, "parent_")
            else:
                c.ob("order", False, "next-side", f, "the next range is sought without looking for a right subtree")
    c.ob("order", down > 0 and up > 0, "next-any", f, "the next range is not sought both below and above")
    for h, p in ps:
        if h is None or h not in role:
            continue
        if role[h] == "down":
            if p.end[0] == "turn":
                c.ob("order", any(v in (n_(("phi", k), "left_"), ("a", ("load", ("phi", k), None), "left_")) for k, v in p.end2.items()), "next-left", f, "the next range is not the leftmost of the right subtree")
            elif p.end[0] == "ret":
                c.ob("order", p.null(n_(N(p.end[1]), "left_")) is True, "next-least", f, "the next range is not the leftmost of the right subtree")
            continue
        _, a, b, direct = role[h]
        if a is None or b is None:
            continue
        y = node(a, direct)
        if p.end[0] == "turn":
            c.ob("order", p.end2.get(b) == y and p.end2.get(a) in (n_(y, "parent_"), ("a", y, "parent_")), "next-climb", f, "the climb skips a node")
            c.ob("order", any(q == "ne" and {u, w} == {n_(y, "left_"), ("phi", b)} for q, u, w in p.F), "next-past", f, "the climb passes the next range")
        elif p.end[0] == "ret":
            r = N(p.end[1])
            if r == y:
                c.ob("order", any(q == "eq" and {u, w} == {n_(y, "left_"), ("phi", b)} for q, u, w in p.F) or p.null(y) is True, "next-found", f, "a range is returned that is not next")
            else:
                c.ob("order", r == I(0) and p.null(y) is True, "next-none", f, "nothing is returned though the climb goes on")


# -- merging ------------------------------------------------------------------
def merge(c, f):
    b, r0, rl, a = ("arg", 1), ("arg", 2), ("arg", 3), ("arg", 4)
    n = 0
    for h, p in paths(f):
        if p.end[0] != "ret":
            c.ob("merge", False, "merge-loop", f, "merging loops")
            continue
        zb, za = p.null(b), p.null(a)
        if zb is True and za is True:
            continue
        parts_ = [(x, z) for x, z in ((b, zb), (a, za)) if z is not True]
        hb, ha = (zb is not True and not (zb is None and b not in seen(p))), za is not True
        gone = [p.args(i)[1] for i in p.called("HugeAddressMap::Remove")]
        live = [x for x, z in parts_ if x not in gone and (z is False or touched(p, x))]
        use = [x for x, z in parts_ if z is False or touched(p, x) or x in gone]
        if not use:
            continue
        n += 1
        # what adjoins what: b, r, a
        env = {}
        start = {r0: 1}
        if b in use:
            start = {n_(b, "start"): 1}
            env[r0] = {n_(b, "start"): 1, n_(b, "len"): 1}
        if a in use:
            env[n_(a, "start")] = None

        def sb(d):
            r = {}
            for k, w in d.items():
                if k == n_(a, "start") and a in use:
                    k2 = plus(sb({r0: 1}), {rl: 1})
                elif k == r0 and b in use:
                    k2 = env[r0]
                else:
                    k2 = {k: 1}
                r = plus(r, k2, w)
            return r
        want0 = sb({n_(b, "start"): 1} if b in use else {r0: 1})
        wantl = {rl: 1}
        for x in use:
            wantl = plus(wantl, {n_(x, "len"): 1})
        ok = len(live) == 1 and set(live) | set(gone) == set(use) and len(gone) == len(set(gone))
        c.ob("merge", ok, "merge-one", f, "merging does not leave exactly one node")
        if not ok:
            continue
        x = live[0]
        v0 = p.last.get(("a", x, "start"), n_(x, "start"))
        vl = p.last.get(("a", x, "len"), n_(x, "len"))
        c.ob("merge", sb(lf(v0)) == want0, "merge-start", f, "the merged range starts elsewhere than its first part")
        c.ob("merge", lf(vl) == wantl, "merge-len", f, "the merged range is not as long as its parts")
        tot = p.change("total_size_")
        for g in gone:
            tot = plus(tot, {n_(g, "len"): 1}, -1)
        c.ob("total", not tot, "merge-total", f, "merging changes the total")
        l = [i for i in p.called("HugeAddressMap::FixLongest") if p.args(i)[1] == x]
        after = max([p.at[i.id] for i in p.called("HugeAddressMap::Remove")] + [p.first(("a", x, "len")), p.first(("a", x, "start"))])
        c.ob("longest", any(p.at[i.id] > after for i in l), "merge-fix", f, "the longest range is not repaired after merging")
    c.ob("merge", n >= 3, "merge-any", f, "there is no case for each side and both")


def seen(p):
    return {a for q, a, b in p.F} | {b for q, a, b in p.F}


def touched(p, x):
    return any(a[0] == "a" and a[1] == x for a, v, i in p.st)


def adj(l, r):
    """what is zero when range l ends where r starts"""
    return plus(plus(l[0], l[1]), r[0], -1)


# -- insertion ----------------------------------------------------------------
def insert(c, f):
    s0, ln = ("arg", 1), ("arg", 2)
    R = ({s0: 1}, {ln: 1})
    ps = paths(f)
    merges = 0
    of = lambda x: ({n_(x, "start"): 1}, {n_(x, "len"): 1})
    walk = split = None
    new = None
    for h, p in ps:
        if h is not None:
            continue
        c.ob("total", p.change("total_size_") == {ln: 1}, "insert-total", f, "the total does not grow by the range")
        pc = p.called("HugeAddressMap::Predecessor")
        before = after = None
        if len(pc) == 1 and p.args(pc[0])[1] == s0:
            before = N(p.s.term(f.term(("v", pc[0].id))))
        c.ob("merge", before is not None, "insert-pred", f, "the range before is not looked for")
        if before is None:
            continue
        zb = p.null(before)
        nx, fi = p.called("Node::next"), p.called("HugeAddressMap::first")
        if nx and zb is not True:
            after = N(p.s.term(f.term(("v", nx[0].id)))) if p.args(nx[0])[0] == before else None
        elif fi and zb is True:
            after = N(p.s.term(f.term(("v", fi[0].id))))
        c.ob("merge", after is not None, "insert-after", f, "the range after is not looked for")
        if after is None:
            continue
        tb = False if zb is True else True if p.lineq(adj(of(before), R)) else False if p.lineq(adj(of(before), R), False) else None
        za = p.null(after)
        ta = False if za is True else True if p.lineq(adj(R, of(after))) else False if p.lineq(adj(R, of(after)), False) else None
        m = p.called("HugeAddressMap::Merge")
        if m:
            merges += 1
            a = p.args(m[0])
            c.ob("merge", len(m) == 1 and a[2:4] == [s0, ln] and p.end[0] == "ret" and not p.called("HugeAddressMap::Get"), "insert-once", f, "a range merged is inserted again")
            c.ob("merge", a[1] in (before, I(0)) and a[4] in (after, I(0)), "insert-which", f, "the range is merged with another than its neighbours")
            c.ob("merge", (a[1] == before) == (tb is True) and (a[1] == before or tb is False), "insert-before", f, "the range before is merged though not adjacent, or not merged though it is")
            c.ob("merge", (a[4] == after) == (ta is True) and (a[4] == after or ta is False), "insert-behind", f, "the range after is merged though not adjacent, or not merged though it is")
        else:
            g = p.called("HugeAddressMap::Get")
            c.ob("merge", len(g) == 1 and p.args(g[0])[1:3] == [s0, ln] and p.end[0] == "stop", "insert-new", f, "a range that is not merged gets no node of its own")
            c.ob("merge", tb is False and ta is False, "insert-missed", f, "an adjacent range is not merged")
            if len(g) == 1 and p.end[0] == "stop":
                new = N(p.s.term(f.term(("v", g[0].id))))
                walk = (p.end[1], p)
    c.ob("merge", merges >= 3 and new is not None, "insert-cases", f, "there is no case for each side, both and neither")
    if walk is None:
        return
    h1, p0 = walk
    W = walker(p0, "root_")
    links_ = [k for k, v in p0.end2.items() if v == ("ma", "root_")]
    par = [k for k, v in p0.end2.items() if v == I(0)]
    c.ob("order", bool(W) and len(links_) == 1 and len(par) == 1, "walk-start", f, "the walk does not start at the root")
    if not W or len(links_) != 1 or len(par) != 1:
        return
    k = next((k for k in W if W[k]), next(iter(W)))
    x, L, PA = node(k, W[k]), ("phi", links_[0]), ("phi", par[0])
    same_ = {x, ("load", L, None)}
    one = lambda t: rn(t, {y: x for y in same_})
    turns = 0
    for h, p in ps:
        if h != h1:
            continue
        F = [(q, one(a), one(b)) for q, a, b in p.F]
        p.F = F
        p.last = {one(a): one(v) for a, v in p.last.items()}
        if p.end[0] == "turn" and p.end[1] == h1:
            turns += 1
            sides = {child(one(p.end2[j]), x, W[j]) for j in W} | {child(one(p.end2[links_[0]]), x, False)}
            side = sides.pop() if len(sides) == 1 else None
            lt, ge = p.knows(n_(x, "start"), s0, True), p.knows(s0, n_(x, "start"))
            c.ob("order", side == "right_" and lt or side == "left_" and ge, "walk-side", f, "the walk does not go to the side of the range, or its link is not the one it follows")
            c.ob("links", one(p.end2[par[0]]) == x, "walk-parent", f, "the parent is not the node passed")
            c.ob("heap", p.null(x) is False and p.knows(n_(new, "prio_"), n_(x, "prio_")), "walk-prio", f, "the walk passes a node of lower priority")
            v = p.last.get(("a", x, "longest_"))
            c.ob("longest", v is not None and set(maxes(v, None)) == {n_(x, "longest_"), ln}, "walk-longest", f, "a node passed does not learn of the range below it")
        elif p.end[0] in ("ret", "stop"):
            lastp = p.last
            c.ob("links", lastp.get(L) == new, "new-link", f, "the new node is not linked where the walk ended")
            c.ob("links", lastp.get(("a", new, "parent_")) == PA, "new-parent", f, "the new node does not know its parent")
            c.ob("longest", lastp.get(("a", new, "longest_")) == ln, "new-longest", f, "the new node's longest range is not its own")
            if p.end[0] == "ret":
                c.ob("links", p.null(x) is True, "new-split", f, "the subtree where the node was put is dropped")
                c.ob("links", lastp.get(("a", new, "left_")) == I(0) and lastp.get(("a", new, "right_")) == I(0), "new-leaf", f, "a new leaf has children")
            else:
                c.ob("heap", p.null(x) is False and p.knows(n_(x, "prio_"), n_(new, "prio_")), "new-prio", f, "a node of higher priority is put below")
                split = (p.end[1], p, {j: one(v) for j, v in p.end2.items()})
    c.ob("order", turns >= 2, "walk-any", f, "the walk does not go both ways")
    c.ob("links", split is not None, "split-any", f, "the subtree where the node was put is not split")
    if split is None:
        return
    h2, p0, E = split
    cur = [j for j, v in E.items() if v == x]
    less = [j for j, v in E.items() if v == ("a", new, "left_")]
    more_ = [j for j, v in E.items() if v == ("a", new, "right_")]
    ps_ = [j for j, v in E.items() if v == new]
    ok = len(cur) == 1 and len(less) == 1 and len(more_) == 1 and len(ps_) == 2
    c.ob("links", ok, "split-start", f, "splitting does not start at the new node's two sides")
    if not ok:
        return
    y = ("phi", cur[0])
    lp = mp = None
    for h, p in ps:
        if h == h2 and p.end[0] == "turn":
            if p.knows(n_(y, "start"), s0, True):
                q = [j for j in ps_ if p.end2[j] == y]
                lp = q[0] if len(q) == 1 else None
            else:
                q = [j for j in ps_ if p.end2[j] == y]
                mp = q[0] if len(q) == 1 else None
    c.ob("links", lp is not None and mp is not None and lp != mp, "split-sides", f, "the two sides have no last node each")
    if lp is None or mp is None:
        return
    for h, p in ps:
        if h != h2:
            continue
        if p.end[0] == "turn":
            low = p.knows(n_(y, "start"), s0, True)
            c.ob("order", low or p.knows(s0, n_(y, "start")), "split-side", f, "a node is put to a side without comparing ranges")
            A, B, side = (less[0], lp, "right_") if low else (more_[0], mp, "left_")
            A2, B2 = (more_[0], mp) if low else (less[0], lp)
            c.ob("links", p.last.get(("phi", A)) == y and p.last.get(("a", y, "parent_")) == ("phi", B), "split-link", f, "a node is not linked to its side in both directions")
            c.ob("order", p.end2[A] == ("a", y, side) and p.end2[cur[0]] == n_(y, side) and p.end2[B] == y, "split-next", f, "splitting goes on at the wrong child")
            c.ob("order", p.end2[A2] == ("phi", A2) and p.end2[B2] == ("phi", B2), "split-other", f, "the other side changes too")
        elif p.end[0] == "ret":
            c.ob("links", p.null(y) is True and p.last.get(("phi", less[0])) == I(0) and p.last.get(("phi", more_[0])) == I(0), "split-end", f, "a side keeps nodes that belong to the other")
            fx = [p.args(i)[1] for i in p.called("HugeAddressMap::FixLongest")]
            c.ob("longest", ("phi", lp) in fx and ("phi", mp) in fx, "split-fix", f, "the longest ranges are not repaired on both sides")


def rn(t, env):
    if t in env:
        return env[t]
    return tuple(rn(x, env) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


# -- removal ------------------------------------------------------------------
def remove(c, f):
    x = ("arg", 1)
    ps = paths(f)
    c.ob("links", len(f.loops) == 1, "remove-loop", f, "removal is no single walk")
    if len(f.loops) != 1:
        return
    h = f.loops[0]["header"]
    # roles: the link is where the top is stored
    link = top = None
    for hh, p in ps:
        if hh is not None:
            for a, v, i in p.st:
                if a[0] == "phi" and v[0] == "phi":
                    link, top = a[1], v[1]
    st = [p for hh, p in ps if hh is None]
    c.ob("links", link is not None, "remove-link", f, "nothing is linked in place of the node")
    if link is None:
        return
    kids = {n_(x, "left_"), n_(x, "right_")}
    PAR = n_(x, "parent_")
    bottom = par = None
    for j in st[0].end2:
        if j in (link, top):
            continue
        v = st[0].end2[j]
        if v == PAR or v == I(0) and j is not None and any(p.end2.get(j) == PAR for p in st):
            par = j
        elif v in kids or v == I(0):
            bottom = j
    c.ob("links", bottom is not None and par is not None, "remove-roles", f, "the two children and the parent do not go into the walk")
    if bottom is None or par is None:
        return
    T, B, L, Q = ("phi", top), ("phi", bottom), ("phi", link), ("phi", par)

    def ordered(p, t, b, tag):
        ok = p.null(b) is True or p.null(t) is False and p.knows(n_(b, "prio_"), n_(t, "prio_"))
        c.ob("heap", ok, tag, f, "the child of lower priority goes on top")
    for p in st:
        if p.end[0] != "stop":
            c.ob("links", False, "remove-early", f, "a node is removed without its children being put in its place")
            continue
        c.ob("total", p.change("total_size_") == {n_(x, "len"): -1}, "remove-total", f, "the total does not shrink by the range")
        e = p.end2
        val = lambda t: t if t != I(0) else None
        c.ob("links", {v for v in (e[top], e[bottom]) if v != I(0)} <= kids and (e[top] != e[bottom]) and all(y in (e[top], e[bottom]) or p.null(y) is True for y in kids), "remove-kids", f, "a child of the node is dropped")
        ordered(p, e[top], e[bottom], "remove-top")
        z = p.null(PAR)
        c.ob("links", e[par] == PAR or z is True and e[par] == I(0), "remove-parent", f, "the children do not go below the node's parent")
        if z is True:
            c.ob("links", e[link] == ("ma", "root_"), "remove-root", f, "the root is not replaced")
            continue
        lo = p.knows(n_(x, "start"), n_(PAR, "start"), True) or any(q == "eq" and {a, b} == {n_(PAR, "left_"), x} for q, a, b in p.F)
        hi = p.knows(n_(PAR, "start"), n_(x, "start")) or any(q == "ne" and {a, b} == {n_(PAR, "left_"), x} for q, a, b in p.F) or any(q == "eq" and {a, b} == {n_(PAR, "right_"), x} for q, a, b in p.F)
        c.ob("links", e[link] == ("a", PAR, "left_") and lo or e[link] == ("a", PAR, "right_") and hi, "remove-side", f, "the children are linked at the wrong side of the parent")
        w = wanted(p, x, False)
        v = p.last.get(("a", x, "longest_"))
        got = set(maxes(v, None)) - {I(0)} if v is not None else None
        fx = [i for i in p.called("HugeAddressMap::FixLongest") if p.args(i)[1] == PAR]
        c.ob("longest", w is not None and got == w and fx and p.at[fx[0].id] > p.first(("a", x, "longest_")), "remove-longest", f, "the nodes above still count the range removed")
    for hh, p in ps:
        if hh is None:
            continue
        if p.end[0] == "ret":
            n = p.called("HugeAddressMap::Put")
            c.ob("total", len(n) == 1 and p.args(n[0])[1] == x, "remove-put", f, "the node is not kept for later")
            c.ob("links", p.null(B) is True and p.last.get(L) == T, "remove-end", f, "what remains is not linked")
            c.ob("links", p.null(T) is True or p.last.get(("a", T, "parent_")) == Q, "remove-up", f, "what remains does not know its parent")
            continue
        e = p.end2
        c.ob("links", p.null(B) is False and p.last.get(L) == T and p.last.get(("a", T, "parent_")) == Q, "join-link", f, "the upper node is not linked to its parent in both directions")
        v = p.last.get(("a", T, "longest_"))
        c.ob("longest", v is not None and set(maxes(v, None)) == {n_(T, "longest_"), n_(B, "longest_")}, "join-longest", f, "the upper node does not learn of the ranges put below it")
        side = child(e[link], T, False)
        lo, hi = p.knows(n_(B, "start"), n_(T, "start"), True), p.knows(n_(T, "start"), n_(B, "start"))
        c.ob("order", side == "left_" and lo or side == "right_" and hi, "join-side", f, "the lower node goes to the wrong side of the upper")
        c.ob("links", e[par] == T, "join-parent", f, "the next parent is not the upper node")
        y = n_(T, side) if side else None
        c.ob("links", {e[top], e[bottom]} == {y, B}, "join-kids", f, "a subtree is dropped")
        ordered(p, e[top], e[bottom], "join-top")
