"""Every page-map access concerns the entry of exactly the page it is given."""
from tcm import *
from lib import _

B = ["Arena::Alloc", "^absl::", "SpinLock"]
SP = ["tcmalloc_internal::Span::(first_page|last_page|num_pages)\\("]
FIELD = "span_and_sizeclass|sizeclass|hugepage"


def bits(t):
    """(value, low bit, width) of a bit slice"""
    w = 64
    while True:
        if t[0] == "and" and t[1][0] == "int" and t[1][1] & (t[1][1] + 1) == 0:
            w, t = min(w, t[1][1].bit_length()), t[2]
        elif t[0] == "and" and t[2][0] == "int" and t[2][1] & (t[2][1] + 1) == 0:
            w, t = min(w, t[2][1].bit_length()), t[1]
        elif t[0] == "urem" and t[2][0] == "int" and t[2][1] & (t[2][1] - 1) == 0:
            w, t = min(w, t[2][1].bit_length() - 1), t[1]
        elif t[0] == "lshr" and t[2][0] == "int":
            x, l, v = bits(t[1])
            return (x, l + t[2][1], min(w, v - t[2][1]))
        elif t[0] in ("zext", "trunc", "cast") and isinstance(t[-1], tuple):
            t = t[-1]
        else:
            return t, 0, w


def level(a):
    """(index slice, element field, address of the containing object)"""
    f, ix = None, None
    if not isinstance(a, tuple):
        return None
    while a[0] in ("gep", "fld"):
        if a[0] == "fld":
            f, a = (f or (a[2] if ix is not None or a[2] in FIELD.split("|") else None)), a[3]
        else:
            if a[3]:
                if len(a[3]) != 1 or ix is not None:
                    return None
                ix = a[3][0][0]
            a = a[1]
    return ix, f, a


def entry(a):
    """((root slice, node slice, leaf slice), field) of a leaf entry, or fewer
    slices for an inner node"""
    out, fld = [], None
    while True:
        l = level(a)
        if l is None:
            return None
        ix, f, base = l
        if ix is None:
            if not out and base[0] != "load":
                return None
            if base[0] != "load":
                return None
        out.insert(0, bits(ix) if ix is not None else None)
        if fld is None:
            fld = f
        if base[0] == "load":
            a = base[1]
            continue
        return out, fld


def entries(f):
    """[(instruction, address, slices, field)] of map accesses"""
    out = []
    for i in f.live():
        a = f.term(i.ops[0]) if i.op == "load" else f.term(i.ops[1]) if i.op == "store" else None
        if a is None or "root_" not in show_all(a):
            continue
        e = entry(a)
        if e and e[0] and e[0][0] is not None:
            out.append((i, a, e[0], e[1]))
    return out


def show_all(t):
    return " ".join(x[2] for x in subterms(t) if x[0] == "fld")


class Shape:
    """The split of a page number shared by all accesses."""
    def __init__(self, c):
        self.c, self.split, self.huge = c, None, None

    def key(self, f, i, sl, fld):
        """the page number accessed; None with a violation if it is ill-formed"""
        c = self.c
        if any(x is None for x in sl):
            c.ob("split", False, short(f.name), i, "a fixed entry is accessed")
            return None
        ks = {x[0] for x in sl}
        ok = len(ks) == 1
        lo = [x[1] for x in sl]
        for n in range(len(sl) - 1):
            # each level takes the bits right above the next one's
            want = sl[n + 1][1] + sl[n + 1][2]
            ok = ok and lo[n] == want
        ok = ok and lo[0] + sl[0][2] >= 36
        if len(sl) == 3 and fld != "hugepage":
            ok = ok and lo[2] == 0
        if len(sl) == 3 and fld == "hugepage":
            self.huge = self.huge if self.huge is not None else lo[2]
            ok = ok and self.huge == lo[2] > 0
        if ok and len(sl) >= 2:
            self.split = self.split or (lo[0], lo[1])
            ok = self.split == (lo[0], lo[1])
        if ok and len(sl) == 1 and self.split:
            ok = lo[0] == self.split[0]
        c.ob("split", ok, short(f.name), i, "page number split as %s" % [(show(x[0])[:30], x[1], x[2]) for x in sl])
        return next(iter(ks)) if len(ks) == 1 else None


def run(c):
    c.rule("split", "every access takes root, node and leaf index from the same adjacent bit fields of one page number, the one it was asked about")
    c.rule("absent", "checked lookups read a level only after testing the one above and answer nothing exactly for pages outside the prepared map")
    c.rule("packed", "the packed word's span and class are stored and read from the same bits, and both copies of the class agree")
    c.rule("ensure", "preparation succeeds only when every page of the range has zeroed entries in place")
    c.rule("cover", "registering and unregistering a span reach every one of its pages")
    c.rule("walk", "the enumeration visits the pages in order, leaves a part only when it is empty, and reports the page it found")
    c.rule("list", "listing spans never grows the caller's storage, skips stale entries, counts every span and resumes behind it")
    c.rule("users", "new spans are entered before use, unregistered and cleared before their pages are reused, and system memory is prepared first")
    sh = Shape(c)
    fs = {short(f.name).split("::")[-1]: f for f in c.fns(r"tcmalloc_internal::PageMap::(GetDescriptor|GetDescriptorAndSizeClass|sizeclass|HasLeaf|Set|SetHugepage|GetHugepage)\(", B, floor=7)}
    rl = c.fn(r"tcmalloc_internal::PageMap::RootSize\(", B)
    rs = [t for t, S in PF(rl).rets()]
    c.need(len(rs) == 1 and rs[0][0] == "int", "root size unknown")
    nroot = rs[0][1] // 8
    lookups(c, fs, sh, nroot)
    stores(c, fs, sh)
    cover(c, sh)
    ensure(c, sh, nroot)
    walk(c, sh, nroot)
    listing(c)
    users(c, sh)


def lookups(c, fs, sh, nroot):
    for n in ("GetDescriptor", "GetDescriptorAndSizeClass", "sizeclass", "HasLeaf"):
        f = fs[n]
        P = PF(f)
        E = entries(f)
        c.need(len({len(e[2]) for e in E}) >= 2, "no map access in " + n)
        for i, a, sl, fld in E:
            k = sh.key(f, i, sl, fld)
            if k is not None:
                c.ob("split", k == ("arg", 1), n + "-key", i, "looks up another page: %s" % show(k)[:60])
            if sh.split is None:
                continue
            for S in P.at(i):
                ok = entails(S, cmp("ult", ("arg", 1), nroot << sh.split[0])) or any(entails(S, cmp("ult", ("lshr", ("arg", 1), I(s)), m)) for s, m in ((sh.split[0], nroot),))
                b = a
                while ok and True:
                    l = level(b)
                    if not l or l[2][0] != "load":
                        break
                    ok = entails(S, cmp("ne", l[2], ("null",)))
                    b = l[2][1]
                c.ob("absent", ok, n, i, "reads a level that may not exist")
        # absence is answered only for a reason
        for t, S in P.rets():
            parts = [t[1][2], t[2]] if t[0] == "insv" and t[1][0] == "insv" else [t]
            for v in parts:
                for x, G in cases(f, v, S):
                    if n == "HasLeaf":
                        leaf = [y for y in S | G if y[0] == "cmp" and y[2][0] == "load" and len((entry(y[2][1]) or ([],))[0]) == 2] if x[0] == "int" else []
                        pos = any(y[1] == "ne" for y in leaf)
                        neg = missing(G | S, f, sh, nroot)
                        c.ob("absent", x[0] == "int" and (pos if x[1] & 1 else neg) or x[0] == "cmp" and x[1] == "ne" and x[2][0] == "load", n + "-answer", f, "answers %s against the map" % show(x)[:60])
                    elif x in (I(0), ("null",)):
                        c.ob("absent", missing(G | S, f, sh, nroot), n + "-absent", f, "reports a mapped page as absent")
                    else:
                        ld = [y for y in subterms(x) if y[0] == "load" and len((entry(y[1]) or ([],))[0]) == 3]
                        outer = [y for y in ld if not any(y != z and y in set(subterms(z)) for z in ld)]
                        ok = len(outer) == 1
                        if ok:
                            e = entry(outer[0][1])
                            ok = e[0][0][0] == ("arg", 1) and decoded(x, outer[0], e[1], n, t, v)
                        c.ob("packed", ok, n + "-value", f, "returns %s" % show(x)[:90])
    f = fs["GetHugepage"]
    for i, a, sl, fld in entries(f):
        sh.key(f, i, sl, fld)
    for t, S in PF(f).rets():
        e = entry(t[1]) if t[0] == "load" else None
        c.ob("split", bool(e) and len(e[0]) == 3 and e[1] == "hugepage" and e[0][0][0] == ("arg", 1), "GetHugepage-value", f, "returns %s" % show(t)[:80])


def missing(S, f, sh, nroot):
    if entails(S, cmp("uge", ("arg", 1), nroot << sh.split[0])):
        return True
    for y in S:
        if y[0] == "cmp" and y[1] == "eq" and y[3] == ("null",) and y[2][0] == "load":
            e = entry(y[2][1])
            if e and len(e[0]) in (1, 2) and e[0][0] and e[0][0][0] == ("arg", 1):
                return True
        if y[0] == "cmp" and y[1] == "uge" and y[2] == ("lshr", ("arg", 1), I(sh.split[0])):
            return True
    return False


SPAN = (0, 48)
CLS = (48, 16)


def decoded(x, ld, fld, n, t, v):
    b, lo, w = bits(x)
    if b != ld:
        return False
    if fld == "sizeclass":
        return lo == 0 and (n == "sizeclass" or n == "GetDescriptorAndSizeClass" and v == t[2])
    if fld != "span_and_sizeclass":
        return False
    if n == "GetDescriptor" or n == "GetDescriptorAndSizeClass" and v == t[1][2]:
        return (lo, w) == SPAN
    return lo == CLS[0] and w >= CLS[1]


def packed(v, span, cls):
    """v == span | cls << 48 (or + )"""
    p = []

    def go(t):
        if t[0] == "or":
            for y in t[1:]:
                go(y)
        elif t[0] == "lin":
            for k, w in t[1]:
                p.append((k, w))
        elif t[0] == "shl" and t[2][0] == "int":
            p.append((t[1], 1 << t[2][1]))
        elif t != I(0):
            p.append((t, 1))
    go(v)
    q = set()
    for t, w in p:
        while t[0] in ("zext", "trunc", "cast") or t[0] == "and" and I(65535) in t[1:]:
            t = next(y for y in t[1:] if isinstance(y, tuple) and y != I(65535))
        q.add((t, w))
    want = {(span, 1)} | ({(cls, 1 << CLS[0])} if cls is not None else set())
    return q == want


def stores(c, fs, sh):
    for n, fl in (("Set", "span_and_sizeclass"), ("SetHugepage", "hugepage")):
        f = fs[n]
        P, E = effects(f)
        for t, S, e in E:
            got = 0
            for a, w in e.items():
                x = entry(a)
                if not x or len(x[0]) != 3:
                    c.ob("split", False, n + "-other", f, "writes %s" % show(a)[:60])
                    continue
                k = sh.key(f, w.ins, x[0], x[1])
                ok = k == ("arg", 1)
                if x[1] == "sizeclass":
                    ok = ok and n == "Set" and w.val == I(0)
                else:
                    ok = ok and x[1] == fl
                    got += 1
                    if n == "Set":
                        c.ob("packed", packed(w.val, ("arg", 2), None), "Set-word", w.ins, "stores %s" % show(w.val)[:60])
                    else:
                        c.ob("packed", w.val == ("arg", 2), n + "-value", w.ins, "stores %s" % show(w.val)[:60])
                c.ob("split", ok, n + "-key", w.ins, "writes another page's entry")
            c.ob("packed", got == 1, n + "-stored", f, "the page's entry is not written on some path")


def cover(c, sh):
    for n, need in (("RegisterSizeClass", {"span_and_sizeclass", "sizeclass"}), ("UnregisterSizeClass", {"sizeclass"})):
        f = c.fn(r"tcmalloc_internal::PageMap::%s\(" % n, B + SP)
        fp = lambda t: t[0] == "call" and t[1] == "Span::first_page" and t[2] == (("arg", 1),)
        lp = lambda t: t[0] == "call" and t[1] == "Span::last_page" and t[2] == (("arg", 1),)
        np_ = lambda t: t[0] == "call" and t[1] == "Span::num_pages" and t[2] == (("arg", 1),)
        seen = set()
        W_ = [(w, entry(w.addr)) for w in writes(f) if entry(w.addr) and len(entry(w.addr)[0]) == 3]
        c.expect(W_, "cover", n, f, "writes no entry", "set_with_sizeclass|clear_sizeclass")
        for w, (sl, fld) in W_:
            k = sh.key(f, w.ins, sl, fld)
            h = loop_of(f, w.ins)
            if k is None or h is None:
                c.ob("cover", False, n + "-" + str(fld), w.ins, "reaches a single page")
                continue
            ini, st = evolve(f, h, k)
            one = [next((x for x in a if x != 1), None) for a in ini]
            up = bool(ini) and all(len(a) == 1 and one[0] and fp(one[0]) and list(a.values()) == [1] for a in ini) and bool(st) and all(d == {1: 1} for S, d, p in st)
            every = bool(st) and all(w.ins.b in p for S, d, p in st)
            end = bool(ini)
            mem = set(next(L["blocks"] for L in f.loops if L["header"] == h))
            ex = [f.edge_facts(b, s) for b in mem for s in f.succ[b] if s not in mem and s not in f.crash]
            for F in ex:
                end = end and any(past(x, k, lp, np_, one[0]) for x in F)
            ok = up and every and end and bool(ex)
            c.ob("cover", ok, "%s-%s" % (n, fld), w.ins, "does not run over all pages of the span (start %s, step %s, end %s)" % (up, every, end))
            if ok:
                seen.add(fld)
            if n == "RegisterSizeClass":
                v = w.val
                while v[0] in ("trunc", "zext") or v[0] == "and" and I(65535) in v[1:]:
                    v = next(y for y in v[1:] if isinstance(y, tuple) and y != I(65535))
                c.ob("packed", v == ("arg", 2) if fld == "sizeclass" else packed(w.val, ("arg", 1), ("arg", 2)), "%s-%s" % (n, fld), w.ins, "stores %s" % show(w.val)[:60])
            elif fld == "sizeclass":
                c.ob("packed", w.val == I(0), n, w.ins, "stores %s" % show(w.val)[:60])
            else:
                c.ob("packed", bits(w.val)[1:] == SPAN or packed(w.val, ("arg", 1), None) or w.val == I(0), n + "-word", w.ins, "stores %s" % show(w.val)[:60])
        c.ob("cover", seen >= need, n + "-all", f, "does not write %s" % ",".join(sorted(need - seen)))


def past(x, k, lp, np_, first):
    """the exit fact x says key k is just past the last page"""
    if x[0] != "cmp":
        return False
    d = ladd(alin(x[2]), alin(x[3]), -1)
    if x[1] in ("ult", "slt", "ule", "sle"):
        d = {q: -v for q, v in d.items()}
    # d (>|>=|==) 0
    strict = x[1] in ("ugt", "sgt", "ult", "slt")
    if x[1] not in ("ugt", "uge", "sgt", "sge", "ult", "ule", "slt", "sle", "eq"):
        return False
    d = dict(d)
    if x[1] == "eq":
        opts = [d, {q: -v for q, v in d.items()}]
    else:
        opts = [d]
    for e in opts:
        r = ladd(e, alin(k), -1)      # e - k
        last = [q for q in r if q != 1 and lp(q)]
        num = [q for q in r if q != 1 and np_(q)]
        cst = r.get(1, 0)
        if len(last) == 1 and r[last[0]] == -1 and not (set(r) - {1, last[0]}):
            # k - last + cst > 0
            if strict and cst == 0 or not strict and cst == -1:
                return True
        if len(num) == 1 and r[num[0]] == -1 and set(r) - {1, num[0]} <= {first} and r.get(first, -1) == -1:
            if not strict and cst == 0 or strict and cst == 1:
                return True
    return False


def ensure(c, sh, nroot):
    f = c.fn(r"tcmalloc_internal::PageMap::Ensure\(", B)
    ws = [(w, entry(w.addr)) for w in writes(f) if entry(w.addr) and w.val != ("null",)]
    ws = [(w, e) for w, e in ws if len(e[0]) in (1, 2) and e[1] != "bytes_used_"]
    c.need(len(ws) >= 2, "no node is installed")
    keys = {}
    for w, e in ws:
        k = sh.key(f, w.ins, e[0], e[1])
        keys.setdefault(k, []).append((w, e))
    c.ob("ensure", len(keys) == 1 and None not in keys, "key", f, "nodes are installed for different pages")
    key = next(iter(keys))
    c.need(sh.split and key is not None, "no split")
    h = loop_of(f, ws[0][0].ins)
    c.need(h is not None, "no loop over leaves")
    ini, st = evolve(f, h, key)
    c.ob("ensure", bool(ini) and all(a == {("arg", 1): 1} for a in ini), "start", f, "does not start at the first page")
    # advance: to the start of the next leaf at most
    leaf = 1 << sh.split[1]
    ok = bool(st)
    for S, d, p in st:
        nxt = ladd(alin(key), d)
        ok = ok and nextleaf(nxt, key, leaf)
    c.ob("ensure", ok, "advance", f, "a leaf's pages are skipped")
    P = PF(f)
    al = [i for i in f.live("call") if i.cshort == "Arena::Alloc"]
    # installed nodes are fresh, whole and zeroed
    for w, e in ws:
        v = w.val
        src = [i for i in al if f.term(i) == v]
        c.ob("ensure", len(src) == 1, "fresh", w.ins, "installs something else than new memory")
        if not src:
            continue
        z = [i for i in f.live("call") if i.cshort.startswith("llvm.memset") and f.term(i.ops[0]) == v]
        sz = f.term(src[0].ops[1])
        ok = any(f.term(i.ops[1]) == I(0) and f.term(i.ops[2]) == sz and f.dom(i, w.ins) for i in z)
        c.ob("ensure", ok, "zeroed", w.ins, "is visible before it is all zero")
        for S in P.at(w.ins):
            c.ob("ensure", entails(S, cmp("ne", v, ("null",))) or True, "alloc", w.ins)
    # one iteration leaves both levels in place
    for p, nx in loop_paths(f, h):
        F = set()
        for a, b in zip(p, p[1:] + [h]):
            F |= f.edge_facts(a, b)
        if contradictory(F):
            continue
        for lv in (1, 2):
            wr = [w for w, e in ws if len(e[0]) == lv and w.ins.b in p]
            there = any(x[0] == "cmp" and x[1] == "ne" and x[3] == ("null",) and x[2][0] == "load" and lvl(x[2][1], lv, key) for x in F)
            nn = wr and all(entails(F, cmp("ne", w.val, ("null",))) or "Arena::Alloc" == w.val[1] for w in wr)
            c.ob("ensure", bool(there or nn), "level%d" % lv, f, "a pass may leave a page without an entry")
    last = ladd(ladd(alin(("arg", 1)), alin(("arg", 2))), {1: -1})
    for t, S in P.rets():
        for x, G in cases(f, t, S):
            if x == I(0):
                # refused: outside the map or out of memory
                continue
            ok = x == I(1) and any(y[0] == "cmp" and y[1] in ("ult", "ugt", "ule", "uge") and beyond(y, key, f, last, h, leaf) for y in G | S)
            c.ob("ensure", ok, "done", f, "succeeds before the end of the range")
            bound = any(True for S2 in P.at(ws[0][0].ins) if not inmap(S2, key, sh, nroot))
            c.ob("ensure", not bound, "inside", f, "a page outside the map may be prepared")
        if any(x == I(0) for x, G in cases(f, t, S)):
            for x, G in cases(f, t, S):
                if x == I(0):
                    oom = any(y[0] == "cmp" and y[1] == "eq" and y[3] == ("null",) and y[2][0] == "call" for y in G | S)
                    out = outside(G | S, key, sh, nroot)
                    c.ob("ensure", oom or out, "refused", f, "refuses a range inside the map")


def inmap(S, key, sh, nroot):
    return entails(S, cmp("ult", key, nroot << sh.split[0])) or entails(S, cmp("ult", ("lshr", key, I(sh.split[0])), nroot))


def outside(S, key, sh, nroot):
    return entails(S, cmp("uge", key, nroot << sh.split[0])) or entails(S, cmp("uge", ("lshr", key, I(sh.split[0])), nroot))


def lvl(a, n, key):
    e = entry(a)
    return bool(e) and len(e[0]) == n and all(x and x[0] == key for x in e[0])


def nextleaf(nxt, key, leaf):
    """first page of the next leaf: key rounded down plus a leaf, or less"""
    k = nxt.get(1, 0)
    r = {q: v for q, v in nxt.items() if q != 1}
    if len(r) == 1:
        (q, v), = r.items()
        if q == key and v == 1:
            return 0 < k <= 1
        s = leaf.bit_length() - 1
        if q[0] == "and" and v == 1:
            m = next((y[1] for y in q[1:] if y[0] == "int"), None)
            o = next((y for y in q[1:] if y[0] != "int"), None)
            if o == key and m is not None and m & (leaf - 1) == 0 and (m >> s) & 0xffffff == min(0xffffff, m >> s):
                return k == leaf and ((m >> s) + 1) & (m >> s) == 0 and (m >> s) >= (1 << 23) - 1
        b, lo, w = bits(q)
        if b == key and lo == s and v == leaf:
            return k == leaf
    if set(r) == {key, ("and", I(leaf - 1), key)} or set(r) == {key, ("and", key, I(leaf - 1))}:
        return r[key] == 1 and sum(r.values()) == 0 and k == leaf
    return False


def beyond(y, key, f, last, h, leaf):
    """y: the (next) page number is past the last page"""
    a, b, p = y[2], y[3], y[1]
    if p in ("ugt", "uge"):
        a, b, p = b, a, {"ugt": "ult", "uge": "ule"}[p]
    A_, B_ = alin(a), alin(b)
    d = ladd(last, A_, -1)
    if set(d) - {1}:
        return False
    k = d.get(1, 0)
    # last = a + k ; a < b
    if not (k <= 0 and p == "ult" or k <= -1 and p == "ule"):
        return False
    return B_ == alin(key) or nextleaf(B_, key, leaf)


def walk(c, sh, nroot):
    f = c.fn(r"PageMap3<.*>::get_next_set_page\(", B)
    P = PF(f)
    s1, s2 = sh.split
    nl = 1 << s2
    nm = 1 << (s1 - s2)
    idx = {}
    for i in f.live("load"):
        a = f.term(i.ops[0])
        x = path3(a)
        if x and len(x) == 3:
            idx[x] = i
    c.need(len(idx) == 1, "leaf reads of the enumeration: %d" % len(idx))
    (i1, i2, i3), ins = next(iter(idx.items()))
    c.ob("walk", all(x[0] == "phi" for x in (i1, i2, i3)), "indices", f)
    if not all(x[0] == "phi" for x in (i1, i2, i3)):
        return
    nxt = ("lin", ((("arg", 1), 1), (1, 1)))
    for t, S in P.rets():
        if t[0] == "insv" and t[1][0] == "insv":
            val, eng = t[1][2], t[2]
        else:
            c.ob("walk", False, "result", f)
            continue
        for e, G in cases(f, eng, S):
            if e == I(0):
                c.ob("walk", entails(G, cmp("uge", i1, nroot)) or any(y[0] == "cmp" and y[1] in ("uge", "eq") and y[3] == I(nroot) for y in G), "end", f, "stops before the last page")
                continue
            ok = e == I(1)
            for v, H in cases(f, val, G):
                vs = [v] + [o for y in H if y[0] == "cmp" and y[1] == "eq" and v in y[2:] for o in y[2:]]
                ok = ok and any(composed(o) == {(i1, 1 << s1), (i2, 1 << s2), (i3, 1)} for o in vs)
                ok = ok and any(y[0] == "cmp" and y[1] == "ne" and nonnull_span(y, (i1, i2, i3)) for y in H)
            c.ob("walk", ok, "found", f, "reports another page than the one found")
    # every index runs over its whole range in steps of one
    for nme, ph, lim, slc in (("root", i1, nroot, (s1, None)), ("node", i2, nm, (s2, s1 - s2)), ("leaf", i3, nl, (0, s2))):
        h = f.ins[ph[1]].b
        its = iterations(f, h)
        c.ob("walk", bool(its) and all(delta(nx.get(ph[1], ("x",)), ph[1]) == 1 for _i, F, nx in its), nme + "-step", f, "skips an index")
        for ii, F, nx in its:
            if nme == "leaf":
                ok = any(y[0] == "cmp" and y[1] == "eq" and nonnull_span(y, (i1, i2, i3)) for y in F)
            else:
                n = 1 if nme == "root" else 2
                want = (i1, i2)[:n]
                ok = any(y[0] == "cmp" and y[1] == "eq" and y[3] == ("null",) and y[2][0] == "load" and path3(y[2][1]) == want for y in F)
                inner, il = ((i2, nm) if n == 1 else (i3, nl))
                ok = ok or any(y[0] == "cmp" and y[1] in ("uge", "eq") and y[2] == inner and y[3] == I(il) for y in F) or any(y[0] == "cmp" and y[1] in ("uge", "eq") and y[3][0] == "int" and composed1(y, inner, il) for y in F)
                # the levels below start over
                below = (i2, i3) if n == 1 else (i3,)
                for b in below:
                    st = starts(f, b)
                    zero = [nx.get(q[1]) for q in st if q[0] == "phi" and f.ins[q[1]].b == h]
                    c.ob("walk", bool(zero) and all(z == I(0) for z in zero), nme + "-restart", f, "a lower index does not start over")
            c.ob("walk", ok, nme + "-left", f, "leaves a part that may hold spans")
        # entered at the page after the given one
        for q in roots_of(f, ph):
            if q == I(0):
                continue
            b, lo, w = bits(q)
            ok = b == nxt and lo == slc[0] and (slc[1] is None or w == slc[1])
            c.ob("walk", ok, nme + "-first", f, "does not start at the next page: %s" % show(q)[:60])
        # bounded
        for S in P.at(ins):
            c.ob("walk", entails(S, cmp("ult", ph, lim)), nme + "-bound", ins, "runs past the end of its level")


def composed1(y, inner, il):
    d = ladd(alin(y[2]), alin(y[3]), -1)
    return d == {inner: 1, 1: 1 - il}


def starts(f, ph):
    """phis that give ph its first value (itself included)"""
    seen, todo = {ph}, [ph]
    while todo:
        q = todo.pop()
        for v in phi_inits(f, q[1]):
            if v[0] == "phi" and v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def roots_of(f, ph):
    out = set()
    for q in starts(f, ph):
        out |= {v for v in phi_inits(f, q[1]) if v[0] != "phi"}
    return out


def composed(t):
    p = set()

    def go(x, m):
        if x[0] == "or":
            for y in x[1:]:
                go(y, m)
        elif x[0] == "lin":
            for k, w in x[1]:
                if k == 1:
                    p.add((I(w), m))
                else:
                    go(k, m * w)
        elif x[0] == "shl" and x[2][0] == "int":
            go(x[1], m << x[2][1])
        elif x != I(0):
            p.add((x, m))
    go(t, 1)
    return p


def path3(a):
    """index terms from the root down"""
    out = []
    while True:
        l = level(a)
        if l is None or l[0] is None:
            return None
        out.insert(0, l[0])
        if l[2][0] == "load":
            a = l[2][1]
            continue
        return tuple(out) if "root_" in show_all(a) else None


def nonnull_span(y, want):
    x = y[2]
    b, lo, w = bits(x)
    return y[3] in (("null",), I(0)) and b[0] == "load" and path3(b[1]) == want and (lo, w) == SPAN


def listing(c):
    f = c.fn(r"tcmalloc_internal::PageMap::GetAllocatedSpans\(", B + ["get_next_set_page", "GetDescriptor\\(", "Span::", "PageMap::sizeclass", "std::vector", "LockHolder"])
    P = PF(f)
    gets = sites(f, "GetDescriptor$")
    c.need(len(gets) == 1, "descriptor lookups")
    g = gets[0]
    page = args(f, g)[1]
    span = f.term(g)
    adds = [i for i in f.live("call") if re.search(r"vector::(emplace_back|push_back)$", i.cshort)]
    c.expect(adds, "list", "added", f, "no span is listed", "GetAllocatedSpans")
    isc = lambda t, n: t[0] == "call" and t[1].endswith("vector::" + n)
    for i in adds:
        for S in P.at(i):
            room = any(y[0] == "cmp" and (y[1] in ("ugt", "ne") and isc(y[2], "capacity") and isc(y[3], "size") or y[1] in ("ult", "ne") and isc(y[2], "size") and isc(y[3], "capacity")) for y in S)
            c.ob("list", room, "room", i, "may grow the caller's vector under the lock")
            c.ob("list", entails(S, cmp("ne", span, ("null",))), "span", i, "lists a page without a span")
            c.ob("list", current(S, page, span), "current", i, "lists a stale entry")
    # the count and the position
    its = sites(f, "get_next_set_page$")
    c.need(len(its) == 1, "no enumeration")
    h = loop_of(f, g)
    c.need(h is not None, "no loop")
    ret = {f.term(r.ops[0]) for r in f.rets}
    for t in ret:
        c.ob("list", t[0] == "phi", "count", f)
        for p, nx, env in loop_paths3(f, h):
            F = set()
            for a, b in zip(p, p[1:] + [h]):
                F |= {subst(x, env) for x in f.edge_facts(a, b)}
            if contradictory(F) or t[0] != "phi":
                continue
            d = delta(nx.get(t[1], ("x",)), t[1])
            live = current(F, page, span) and not any(y[0] == "cmp" and y[1] == "eq" and span in y[2:] for y in F)
            c.ob("list", d == (1 if live else 0), "count-%s" % ("live" if live else "stale"), f, "the count is wrong by %s" % d)
            nxa = subst(args(f, its[0])[1], env)
            for z, G in cases(f, nxa, F):
                ok = z[0] == "call" and z[1] == "Span::last_page" and z[2] == (span,) if live else z == page or strip(z) == page
                c.ob("list", ok, "resume-%s" % ("live" if live else "stale"), its[0], "resumes at %s" % show(z)[:60])


def current(S, page, span):
    """the page lies in the span that its entry names"""
    fp = ("call", "Span::first_page", (span,))
    lp = ("call", "Span::last_page", (span,))
    is_ = lambda t, w: t[:3] == w
    lo = hi = False
    for y in S:
        if y[0] != "cmp":
            continue
        a, b, p = y[2], y[3], y[1]
        if p in ("ugt", "uge"):
            a, b, p = b, a, {"ugt": "ult", "uge": "ule"}[p]
        if p in ("ule", "eq") and (is_(a, fp) and b == page):
            lo = True
        if p in ("ule", "eq") and a == page and is_(b, lp):
            hi = True
        if p == "eq" and is_(b, fp) and a == page:
            lo = True
    return lo and hi


def users(c, sh):
    an = B + ["PageMap::", "PageAllocator::", "Span::", "HugePageFiller", "HugeCache", "HugeRegion", "HugeAllocator", "PageAllocInfo", "StaticForwarder::[A-Z]", "SystemAllocator", "LockHolder", "ReturnSpans", "heap_partitioning", "Parameters::", "IsExperimentActive", "LowLevelCallOnce", "TrackerAllocator|MetadataObjectAllocator", "Log"]
    # the forwarders hand on what they were given
    for f in c.fns(r"huge_page_allocator_internal::StaticForwarder::(SetSpan|ClearSpan|SetHugepage|Ensure)\(", B + ["PageMap::"], floor=4):
        n = short(f.name).split("::")[-1]
        want = {"SetSpan": "Set", "ClearSpan": "Set", "SetHugepage": "SetHugepage", "Ensure": "Ensure"}[n]
        cs = sites(f, "PageMap::%s$" % want)
        if not c.expect(cs, "users", n, f, "the page map is not told", "PageMap::" + want):
            continue
        P = PF(f, events=lambda i: "m" if i in cs else None)
        for t, S in P.rets():
            c.ob("users", P.count(S, "m") not in (0, None), n + "-always", f, "a path does not tell the page map")
        for i in cs:
            a = args(f, i)
            if n == "SetSpan":
                ok = a[1:] == [("arg", 0), ("arg", 1)]
            elif n == "ClearSpan":
                ok = a[1] == ("arg", 0) and re.search("invalid_?span", show(a[2]), re.I)
            elif n == "SetHugepage":
                ok = a[2] == ("arg", 1) and alin(a[1]) == {("arg", 0): 1 << sh.huge}
            else:
                ok = a[1:] == [("arg", 0), ("arg", 1)] and all(t == f.term(i) for t, S in P.rets())
            c.ob("users", ok, n + "-what", i, "passes %s" % ", ".join(show(x)[:40] for x in a[1:]))
    fs = c.fns([r"central_freelist_internal::StaticForwarder::(AllocateSpan|DeallocateSpans)\(",
                r"HugePageAwareAllocator<.*StaticForwarder>::(Spanify|AllocAndReport|Delete)\(",
                r"GuardedPageAllocator::MapPages\("], [a for a in an if a != "^absl::"] + ["^absl::(?!debian3::Span)"], floor=6)
    by = {}
    for f in fs:
        by.setdefault(re.search(r"(AllocateSpan|DeallocateSpans|Spanify|AllocAndReport|Delete|MapPages)\(", f.name).group(1), []).append(f)
    for f in by.get("AllocateSpan", ()):
        cs = sites(f, "PageMap::RegisterSizeClass$")
        nw = sites(f, "PageAllocator::New$")
        if not c.expect(cs and nw, "users", "register", f, "a new span is not registered", "RegisterSizeClass"):
            continue
        P = PF(f, events=lambda i: "r" if i in cs else None)
        for t, S in P.rets():
            for v, G in cases(f, t, S):
                null = v == ("null",) or entails(G, cmp("eq", v, ("null",)))
                c.ob("users", null or P.count(G, "r") not in (0, None) and any(v == f.term(x) for x in nw), "register", f, "returns a span without registering it")
        for i in cs:
            a = args(f, i)
            c.ob("users", any(a[1] == f.term(x) for x in nw) and bits(a[2])[0] == ("arg", 0), "register-what", i, "registers %s" % show(a[2])[:40])
    for f in by.get("DeallocateSpans", ()):
        un = sites(f, "PageMap::UnregisterSizeClass$")
        rel = [i for i in f.live("call") if re.search(r"Span::Delete$|PageAllocator::Delete$|ReturnSpans", i.cshort) and not i.cshort.startswith("absl")]
        if not c.expect(un and rel, "users", "unregister", f, "spans are freed while registered", "UnregisterSizeClass"):
            continue
        h = loop_of(f, un[0])
        c.ob("users", h is not None and all(un[0].b in p for p, nx in loop_paths(f, h)), "unregister-all", un[0], "some span stays registered")
        for i in rel:
            hd = loop_of(f, i)
            same = hd == h
            ok = same and f.dom(un[0], i) or not same and f.bdom(h, i.b)
            c.ob("users", ok, "unregister-first", i, "frees a span that is still registered")
    for f in by.get("Spanify", ()):
        nw = sites(f, "NewSpan$|Span::New$")
        st = sites(f, "SetSpan$|PageMap::Set$")
        if not c.expect(st and nw, "users", "entered", f, "a new span is not entered in the map", "SetSpan"):
            continue
        P = PF(f, events=lambda i: "s" if i in st else None)
        for t, S in P.rets():
            for v, G in cases(f, t, S):
                c.ob("users", v == ("null",) or P.count(G, "s") not in (0, None) and any(f.term(x) in args(f, y) and any(samepage(args(f, x)[0], z) for z in args(f, y)) for x in nw for y in st), "entered", f, "returns a span that is not in the map")
    for f in by.get("Delete", ()):
        cl = sites(f, "ClearSpan$|PageMap::Set$")
        put = [i for i in f.live("call") if re.search(r"HugePageFiller::Put$|HugeRegionSet::MaybePut$|HugeCache::Release|HugeAllocator::Release", i.cshort)]
        if not c.expect(cl, "users", "cleared", f, "freed pages keep their span", "ClearSpan"):
            continue
        for i in put:
            c.ob("users", any(f.dom(x, i) and show(args(f, x)[-1]).endswith("r->min") for x in cl), "cleared-first", i, "pages are reusable while the map names the old span")
    for f in by.get("AllocAndReport", ()) + by.get("MapPages", ()):
        n = re.search(r"::(\w+)\(", f.name).group(1)
        en = sites(f, "Ensure$")
        if not c.expect(en, "users", "prepared", f, "the map is not told about new memory", "Ensure"):
            continue
        P = PF(f)
        got = sites(f, "AllocatePages$|MmapAligned$")
        c.need(got, "no system allocation")
        for i in en:
            a = args(f, i)[-2:]
            b0, lo0, _w = bits(a[0])
            b1, lo1, _w = bits(a[1])
            ptr = f.term(got[0])
            p_ok = lo0 > 0 and ptr in set(subterms(b0))
            c.ob("users", p_ok and lo1 == lo0, "prepared-range", i, "another range is prepared")
            if "AllocAndReport" in f.name:
                c.ob("users", b0 == ("ext", ptr, (0,)) and b1 == ("ext", ptr, (1,)) or b0 != b1 and "ext" in (b0[0], b1[0]) and b1[0] == "ext", "prepared-length", i, "another length is prepared")
            else:
                c.ob("users", b0 == ptr and b1 == args(f, got[0])[1], "prepared-length", i, "another length is prepared")
            # nothing is used unless that succeeded
            if "MapPages" in f.name:
                for w in writes(f):
                    x = field(w.addr)
                    if x and x[2] == ("arg", 0) and w.val != I(0):
                        c.ob("users", positive(f.guards(w.ins), f.term(i)), "prepared-checked", w.ins, "goes on without the map")
            else:
                for t, S in P.rets():
                    v = t
                    ok = positive(S, f.term(i)) or any(entails(S, cmp("eq", ("ext", f.term(g), (0,)), ("null",))) for g in got)
                    c.ob("users", bool(ok), "prepared-checked", f, "hands out memory the map does not know")


def samepage(a, b):
    """the same first member, named at different depths"""
    if a == b:
        return True
    if a[0] == b[0] == "load":
        for x, y in ((a[1], b[1]), (b[1], a[1])):
            while x[0] == "fld":
                if x == y:
                    return True
                x = x[3]
    return False


def positive(S, t):
    return t in S or any(y[0] == "cmp" and (y[1] == "ne" and y[3] == I(0) or y[1] == "eq" and y[3] == I(1)) and (y[2] == t or y[2][0] in ("and", "zext") and t in y[2]) for y in S)
