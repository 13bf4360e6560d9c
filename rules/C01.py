"""Requests whose size cannot be represented fail; nothing wraps."""
from tcm import *
from lib import _


def roundup(t, S, pg):
    """t = v rounded up to a multiple of pg without wrap-around on this path:
    returns v, or None."""
    if t[0] == "and":
        for m, x in ((t[1], t[2]), (t[2], t[1])):
            if alin(m) == ladd({}, alin(pg), -1) or (pg[0] == "int" and m == ("int", -pg[1])):
                v = ladd(ladd(alin(x), alin(pg), -1), {1: 1})
                return v
    return None


def no_wrap(S, v, t, pg):
    """facts imply v + pg - 1 did not wrap."""
    for x in S:
        if x[0] != "cmp":
            continue
        for p, l, r in ((x[1], x[2], x[3]), (SWAP.get(x[1]), x[3], x[2])):
            if alin(l) == v and r == t and p in ("ule", "ult"):
                return True
            if alin(l) == v and p in ("ule", "ult") and alin(r) == ladd(ladd(v, alin(pg)), {1: -1}):
                return True
            if alin(l) == v and p in ("ule", "ult") and r[0] == "lin" and ladd(alin(r), alin(pg)).get(1, 0) in (-1, 0) and set(ladd(alin(r), alin(pg))) <= {1}:
                return True
            if alin(l) == v and p in ("ule", "ult") and r[0] == "int" and r[1] >= 0:
                return True
        if x[0] == "not" and x[1][0] == "ext" and x[1][1][0] == "ovf":
            return True
    return False


def run(c):
    c.rule("product", "an array size is allocated only when the multiplication did not overflow, with exactly the product; an overflow reports out-of-memory and touches nothing")
    c.rule("exact", "every other entry point requests exactly the caller's size")
    c.rule("zero", "calloc zeroes exactly the requested bytes of every block it returns")
    c.rule("round", "rounding a request up to pages neither wraps nor loses the tail")
    c.rule("multiply", "the shared overflow-checked multiplication reports overflow exactly")
    E = entries(c, ALLOC)
    for n, f in E.items():
        spec = ALLOC[n][0]
        P = PF(f, K=64)
        al = sites(f, r"fast_alloc$|do_realloc$|slow_alloc_(small|large)$")
        c.expect(al, "exact", "alloc-" + n, f, "never allocates", "fast_alloc<", TU)
        for i in al:
            a = args(f, i)
            sz = a[1] if "realloc" in i.cshort else a[0]
            for S in P.at(i):
                if isinstance(spec, int):
                    c.ob("exact", sz == ("arg", spec), n, i, "requests %s instead of the caller's size" % show(sz))
                elif spec == "round":
                    pgs = page(f)
                    c.need(pgs, "page size in " + n)
                    pg = pgs[0]
                    ok, nw = False, False
                    for sv, F in cases(f, sz, S):
                        v = roundup(sv, F, pg)
                        ok = v is not None and lineq(F, ladd(v, alin(("arg", 0)), -1))
                        if ok:
                            nw = no_wrap(F, v, sv, pg)
                        else:
                            # zero-size request: exactly one page
                            z = entails(F, cmp("eq", ("arg", 0), 0))
                            ok = z and (sv == pg or (v is not None and lineq(F, ladd(v, alin(pg), -1))))
                            nw = ok
                        c.ob("round", ok, "up-" + n, i, "request is not the caller's size rounded up to pages: " + show(sz))
                        if ok:
                            c.ob("round", nw, "wrap-" + n, i, "rounding up can wrap around to a small request")
                else:
                    A, B_ = ("arg", spec[0]), ("arg", spec[1])
                    okp = is_product(sz, A, B_) or (sz == ("int", 0) and overflowed(S, A, B_) is False)
                    c.ob("product", okp, "size-" + n, i, "requests %s instead of the product" % show(sz))
                    c.ob("product", overflowed(S, A, B_) is False, "checked-" + n, i, "allocates although the product may have overflowed")
        if isinstance(spec, tuple):
            A, B_ = ("arg", spec[0]), ("arg", spec[1])
            for i in sites(f, r"do_free$|memset|memcpy"):
                for S in P.at(i):
                    c.ob("product", overflowed(S, A, B_) is False, "touch-" + n, i, "touches memory although the product overflowed")
            hs = {f.term(i) for i in sites(f, "handle_oom$")}
            seen = False
            for t, S in P.rets():
                if overflowed(S, A, B_) is not False:
                    seen = True
                    c.ob("product", t in hs or (t == ("null",) and hs), "fail-" + n, f, "an overflowing product does not report out-of-memory")
            c.ob("product", seen, "path-" + n, f, "no failure path for an overflowing product")
        if role(n) == "calloc":
            zero(c, f, P)
    pages(c)
    for f in c.fns("::MultiplyOverflow", "^absl::", tu="drivers/d_small.cc"):
        mult(c, f)


def zero(c, f, P):
    al = sites(f, "fast_alloc$")
    ms = sites(f, "memset")
    vals = {f.term(i) for i in al}
    for i in ms:
        a = args(f, i)
        c.ob("zero", a[0] in vals and a[1] == ("int", 0) and is_product(a[2], ("arg", 0), ("arg", 1)), "range", i,
             "does not zero exactly the requested bytes of the new block")
    P2 = PF(f, K=64, events=lambda i: ["zeroed"] if i in ms else None)
    for t, S in P2.rets():
        if t in vals and not entails(S, cmp("eq", t, ("null",))):
            k = [x for x in S if x[0] == "n" and x[1] == "zeroed"]
            n = P2.count(S, "zeroed")
            c.ob("zero", (n[0] if isinstance(n, tuple) else n) >= 1, "every", f, "returns a block that was not zeroed")


def pages(c):
    fs = c.fns("do_malloc_pages<", ANCH, tu=TU, floor=10)
    for f in fs:
        pol = "+".join(re.findall(r"(\w+)Policy", f.name.split("do_malloc_pages<")[1])[1:4])
        ns = sites(f, "PageAllocator::(New|NewAligned)$")
        c.ob("round", len(ns) == 1, "one-" + pol, f, "expected one page request")
        for i in ns:
            n = args(f, i)[1]
            for S in PF(f, K=48).at(i):
                ok = ceil_pages(n, ("arg", 0)) or all(ceil_case(v, F, ("arg", 0), f) for v, F in cases(f, n, S))
                c.ob("round", ok, "pages-" + pol, i, "page count is not ceil(size / page size), at least one: " + show(n))
        P = PF(f, K=48)
        for r in f.rets:
            for v, S in structs(f, P, r):
                p, n = v
                isnull = p in (("null",), ("int", 0))
                if isnull:
                    c.ob("round", n == ("int", 0), "null-" + pol, r, "failure reports a non-zero capacity")
                elif ns:
                    pn = args(f, ns[0])[1]
                    pg = psize(pn, ("arg", 0)) or shape_page(f, pn)
                    ok = pg is not None and (alin(n) == ladd({}, alin(pn), pg)) or pg is not None and all(lineq(F, ladd(alin(n), alin(m), -pg)) for m, F in cases(f, pn, S))
                    c.ob("round", ok, "capacity-" + pol, r, "reported capacity is not the allocated pages' bytes: " + show(n))


def ceil_pages(n, sz):
    return psize(n, sz) is not None


def psize(n, sz):
    """Page size 2^k when n = max(1, ceil(sz / 2^k)) in an overflow-free shape."""
    if n[0] == "umax" and ("int", 1) in n[1:]:
        x = n[1] if n[2] == ("int", 1) else n[2]
    else:
        return None
    d = alin(x)
    q = [k for k in d if k != 1 and k[0] in ("lshr", "udiv") and k[1] == sz and d[k] == 1]
    r = [k for k in d if k != 1 and k[0] == "cmp" and d[k] == 1]
    if len(q) == 1 and len(r) == 1 and len(d) == 2 and q[0][2][0] == "int":
        pg = 1 << q[0][2][1] if q[0][0] == "lshr" else q[0][2][1]
        b = r[0]
        ok = b[1] in ("ne", "ugt") and b[3] == ("int", 0) and b[2] in (("and", sz, ("int", pg - 1)), ("and", ("int", pg - 1), sz), ("urem", sz, ("int", pg)))
        return pg if ok else None
    return None


def shape_page(f, pn):
    """Page size used by a case-split page count."""
    for x in subterms(("x", pn) if pn[0] != "phi" else ("x",) + tuple(f.term(o) for o in f.ins[pn[1]].ops)):
        if x[0] == "lshr" and x[1] == ("arg", 0) and x[2][0] == "int":
            return 1 << x[2][1]
    return None


def ceil_case(v, F, sz, f):
    """Under F, v = max(1, ceil(sz / 2^k))."""
    terms = set(subterms(("x", v) + tuple(F)))
    qs = [x for x in terms if x[0] == "lshr" and x[1] == sz and x[2][0] == "int"]
    if len(qs) != 1:
        return False
    q = qs[0]
    pg = 1 << q[2][1]
    rem = {("and", sz, I(pg - 1)), ("and", I(pg - 1), sz), ("urem", sz, I(pg))}
    # evaluate the boolean remainder test used as a number
    r = None
    G = set(F)
    for x in F:
        if x[0] == "cmp" and x[2] in rem and x[3] == I(0):
            if x[1] in ("ne", "ugt"):
                r = 1
            elif x[1] == "eq":
                r = 0
    bools = [x for x in terms if x[0] == "cmp" and x[2] in rem and x[3] == I(0) and x[1] in ("ne", "ugt")]
    out = []
    for val in ((r,) if r is not None else (0, 1)):
        H = {cmp("sge", q, 0)}
        for x in G:
            H.add(subst_bool(x, bools, val))
        w = subst_bool(v, bools, val)
        if q[2] == I(0):
            return False
        base = ladd(alin(q), {1: val})
        one = entails(frozenset(H), cmp("eq", q, 0)) or entails(frozenset(H), cmp("ult", q, 1))
        pos = val == 1 or entails(frozenset(H), cmp("ne", q, 0)) or entails(frozenset(H), cmp("uge", q, 1))
        if contradictory(frozenset(H)):
            continue
        ok = alin(w) == base and pos or (val == 0 and one and alin(w) == {1: 1}) or (val == 1 and entails(frozenset(H), cmp("eq", q, 0)) and alin(w) == {1: 1})
        out.append(ok)
    return bool(out) and all(out)


def subst_bool(t, bools, val):
    if t in bools:
        return I(val)
    if t[0] == "cmp" and not (t in bools):
        l, r = (subst_bool(x, bools, val) if x[0] == "lin" else x for x in (t[2], t[3]))
        return cmp(t[1], l, r)
    if t[0] == "lin":
        acc = {}
        for k, n in t[1]:
            if k in bools:
                acc[1] = acc.get(1, 0) + n * val
            else:
                acc[k] = acc.get(k, 0) + n
        acc = {k: n for k, n in acc.items() if n}
        if not acc:
            return I(0)
        if set(acc) == {1}:
            return I(acc[1])
        if len(acc) == 1 and list(acc.values()) == [1]:
            return next(iter(acc))
        return ("lin", tuple(sorted(acc.items(), key=lambda kv: repr(kv[0]))))
    return t


def mult(c, f):
    P = PF(f)
    A, B_ = ("arg", 0), ("arg", 1)
    ws = [w for w in writes(f) if w.addr == ("arg", 2)]
    c.ob("multiply", bool(ws), "stores", f, "the product is not stored")
    for w in ws:
        c.ob("multiply", is_product(w.val, A, B_), "value", w.ins, "stores something else than the product: " + show(w.val))
    for t, S in P.rets():
        if flag(t, A, B_):
            c.ob("multiply", True, "verdict", f)
            continue
        for v, F in cases(f, t, S):
            if v[0] == "cmp":
                for pol in (True, False):
                    G = F | f.split(v, pol)
                    if not contradictory(G):
                        c.ob("multiply", overflowed(G, A, B_) is pol, "verdict", f, "overflow verdict is wrong: " + show(v))
            elif v[0] == "and":
                g = [x for x in v[1:]]
                c.ob("multiply", any(overflowed(frozenset([x]), A, B_) is True for x in g), "verdict", f, "overflow verdict is wrong: " + show(v))
            else:
                c.ob("multiply", v[0] in ("int", "true", "false") and overflowed(F, A, B_) is (v in (("int", 1), ("int", -1), ("true",))), "verdict", f, "overflow verdict is wrong: " + show(v))
