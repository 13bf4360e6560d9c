"""An object is as large and as aligned as asked, and reports its capacity."""
from tcm import *
from lib import _
import C02

A4 = ANCH + ["SizeMap::GetSizeClass", "SizeMap::class_to_size", "GetCurrent", "BytesToLengthCeil", "::start_address", "multiple_non"]
KMAX, KPAGE = 262144, 8192


def uncast(t):
    while t[0] in ("trunc", "zext", "sext"):
        t = t[-1]
    return t


def truthy(S, t):
    b = ("and", t, I(1))
    return t in S or entails(S, cmp("ne", t, 0)) or entails(S, cmp("ne", b, 0)) or entails(S, cmp("eq", b, 1)) or ("trunc", "i1", t) in S


def pol(name):
    """The whole policy type of an instantiation or callee."""
    m = re.search(r"TCMallocPolicy<", name)
    if not m:
        return None
    d, k = 0, m.end() - 1
    for j in range(k, len(name)):
        d += name[j] == "<"
        d -= name[j] == ">"
        if d == 0:
            return name[m.start():j + 1]
    return None


def kind(p):
    m = re.search(r"(\w+Align|AlignAs)Policy", p)
    return m.group(1) if m else None


def run(c):
    c.rule("ask", "every entry point asks for the alignment it promises: the caller's, the system page or the default")
    c.rule("carry", "size, size class and alignment reach the caches and the page allocator unchanged")
    c.rule("class", "the class found for a request is looked up by rounding the size up, only for sizes the table covers, and its size is a multiple of the alignment")
    c.rule("table", "a class is entered in the lookup table only for sizes it can hold, without gaps")
    c.rule("capacity", "the reported capacity is the size of the class or the pages actually taken")
    ask(c)
    carry(c)
    lookup(c)
    table(c)
    capacity(c)


def ask(c):
    for n, f in entries(c, ALLOC).items():
        al = ALLOC[n][1]
        fam = ALLOC[n][2]
        for i in sites(f, r"fast_alloc$|slow_alloc_(small|large)$"):
            if role(n) in ("realloc", "reallocarray") and al is None and "do_realloc" in i.cshort:
                continue
            k = policy(i)[1]
            if al is None:
                c.ob("ask", k == ("MallocAlign" if fam == "Malloc" else "DefaultAlign"), n, i, "asks for alignment kind %s" % k)
            else:
                c.ob("ask", k == "AlignAs", n, i, "the requested alignment is not passed on (kind %s)" % k)
                a = [uncast(f.term(o)) for o in i.ops]
                want = page(f) if al == "page" else [("arg", al)]
                if k == "AlignAs":
                    c.ob("ask", len(a) > 1 and a[1] in want, "value-" + n, i, "asks for another alignment: " + show(a[1] if len(a) > 1 else a[0]))


# position of (size, size class, first policy argument)
ROOTS = {"fast_alloc": (0, None, 1), "slow_alloc_small": (0, 1, 2), "slow_alloc_large": (0, None, 1),
         "alloc_small_sampled_hooks_or_perthread": (0, 1, 2), "do_malloc_pages": (0, None, 2)}


def carry(c):
    fs = c.fns([r"%s<" % k for k in ROOTS], A4, tu=TU, floor=200)
    for f in fs:
        m = re.search(r"(%s)<" % "|".join(ROOTS), f.name)
        rk = m.group(1)
        zs, cl, pp = ROOTS[rk]
        p = pol(f.name)
        inst = "%s-%s" % (rk, kind(p))
        asas = kind(p) == "AlignAs"
        gs = sites(f, "SizeMap::GetSizeClass$")
        gc = {("ext", f.term(g), (1,)) for g in gs}
        for g in gs:
            a = [f.term(o) for o in g.ops]
            c.ob("carry", pol(g.callee) == p, "class-policy-" + inst, g, "looks up the class for another policy")
            c.ob("carry", a[-1] == ("arg", zs), "class-size-" + inst, g, "looks up the class of another size")
            if asas:
                c.ob("carry", uncast(a[1]) == ("arg", pp), "class-align-" + inst, g, "looks up the class for another alignment")
        P = PF(f, K=48)

        def iscls(t, S):
            for v, F in cases(f, t, S):
                v = uncast(v)
                if v in gc:
                    continue
                if cl is not None and v == ("arg", cl):
                    if rk == "alloc_small_sampled_hooks_or_perthread" and not entails(F, cmp("ne", v, 0)):
                        return False
                    continue
                return False
            return True
        # class operands
        for rx, k in ((r"CpuCache::Allocate(Fast|Slow|SlowNoHooks)$", 1), (r"ThreadCache::Allocate$", 1), (r"to_pointer$", 1),
                      (r"slow_alloc_small$", 1), (r"SampleSmallAllocation$", -1), (r"class_to_size$", 1), (r"alloc_small_sampled_hooks_or_perthread$", 1)):
            for i in sites(f, rx):
                t = f.term(i.ops[k])
                for S in P.at(i):
                    ok = iscls(t, S)
                    if not ok and rx.startswith("slow_alloc_small|alloc_small"):
                        ok = uncast(t) in gc
                    c.ob("carry", ok or (cl is not None and rk != "alloc_small_sampled_hooks_or_perthread" and uncast(t) == ("arg", cl)),
                         "class-%s-%s" % (i.cshort.split("::")[-1], inst), i, "uses a size class that is not the one looked up: " + show(t)[:80])
        for i in sites(f, r"slow_alloc_small$|AllocateFast$"):
            if rk == "fast_alloc":
                for S in P.at(i):
                    c.ob("carry", any(truthy(S, ("ext", f.term(g), (0,))) for g in gs), "small-" + inst, i, "takes the small-object path for a size without a class")
        for i in sites(f, r"(slow_alloc_small|slow_alloc_large|alloc_small_sampled_hooks_or_perthread|do_malloc_pages)$"):
            k = i.cshort.split("::")[-1]
            c.ob("carry", pol(i.callee) == p, "policy-%s-%s" % (k, inst), i, "continues with another policy")
            a = [f.term(o) for o in i.ops]
            c.ob("carry", a[0] == ("arg", zs), "size-%s-%s" % (k, inst), i, "continues with another size")
            if asas:
                q = ROOTS[k][2]
                c.ob("carry", len(a) > q and uncast(a[q]) == ("arg", pp), "align-%s-%s" % (k, inst), i, "continues with another alignment")
        if rk == "do_malloc_pages":
            pages(c, f, P, p, inst, asas, pp)


def pages(c, f, P, p, inst, asas, pp):
    na = sites(f, r"PageAllocator::(NewAligned|New)$")
    c.expect(na, "carry", "pages-" + inst, f, "no pages are allocated", "PageAllocator::New(Aligned)?", TU)
    for i in na:
        a = [f.term(o) for o in i.ops]
        c.ob("carry", any(x[0] == "call" and "BytesToLengthCeil" in x[1] and x[2][-1] == ("arg", 0) for x in subterms(a[1])), "pages-" + inst, i, "allocates another number of pages")
        if asas:
            al = a[2] if i.cshort.endswith("NewAligned") else None
            ok = al is not None and any(x[0] == "call" and "BytesToLengthCeil" in x[1] and uncast(x[2][-1]) == ("arg", pp) for x in subterms(al))
            ok = ok and (al[0] == "call" or al[0] in ("umax",))
            c.ob("carry", ok, "page-align-" + inst, i, "the pages are not aligned as asked: " + show(al)[:80] if al else "unaligned pages")
    vals = {f.term(i): f.term(i.ops[1]) for i in na}
    for r in f.rets:
        for (a, b), S in structs(f, P, r):
            if a in C02.NULLS:
                c.ob("capacity", b == ("int", 0), "null-" + inst, f, "reports a capacity without an object")
                continue
            ok = a[0] == "call" and "start_address" in a[1] and a[2][0] in vals
            c.ob("carry", ok, "start-" + inst, f, "does not return the start of the span: " + show(a)[:80])
            if ok:
                n = vals[a[2][0]]
                c.ob("capacity", pgbytes(b, n, S), "pages-" + inst, f, "capacity %s is not that of the %s pages taken" % (show(b)[:60], show(n)[:60]))


def pgbytes(b, n, S):
    """b == n * page size."""
    if is_lin(b, n, KPAGE):
        return True
    if b[0] == "call" and "in_bytes" in b[1] and b[2][0] == n:
        return True
    if n[0] == "umax":
        for x, y in ((n[1], n[2]), (n[2], n[1])):
            if y == ("int", 1):
                if is_lin(b, x, KPAGE) and (entails(S, cmp("ne", x, 0)) or entails(S, cmp("ugt", x, 0)) or entails(S, cmp("uge", x, 1)) or entails(S, cmp("ugt", x, 1)) or entails(S, cmp("uge", x, 2))):
                    return True
                if b == ("int", KPAGE) and (entails(S, cmp("eq", x, 0)) or entails(S, cmp("ult", x, 1)) or entails(S, cmp("ult", x, 2)) or entails(S, cmp("ule", x, 1)) or entails(S, cmp("eq", x, 1))):
                    return True
                # b is umax(x * page, page)
                if b[0] == "umax" and ("int", KPAGE) in b[1:] and any(is_lin(z, x, KPAGE) for z in b[1:]):
                    return True
                if is_lin(b, x, KPAGE):
                    return True
    return False


def is_lin(t, x, k):
    d = lin_of(t)
    return d == {x: k} or t in (("shl", x, I(13)), ("mul", x, I(k)))


# ---------------------------------------------------------------- lookup
def index(t, size):
    """(shift, add) when t = (size + add) >> shift, else None."""
    if t[0] not in ("lshr", "udiv", "ashr"):
        return None
    sh = t[2][1] if t[2][0] == "int" else None
    if sh is None:
        return None
    if t[0] == "udiv":
        if sh & (sh - 1):
            return None
        sh = sh.bit_length() - 1
    d = dict(lin_of(t[1]))
    k = d.pop(1, 0)
    return (sh, k) if d == {size: 1} else None


def bounds(S, t):
    """Unsigned upper bound of t on this path."""
    b = None
    for f in S:
        if f[0] == "cmp" and f[2] == t and f[3][0] == "int":
            v = {"ult": f[3][1] - 1, "ule": f[3][1], "eq": f[3][1]}.get(f[1])
            if v is not None and v >= 0 and (b is None or v < b):
                b = v
    return b


def lower(S, t):
    b = 0
    for f in S:
        if f[0] == "cmp" and f[2] == t and f[3][0] == "int":
            v = {"ugt": f[3][1] + 1, "uge": f[3][1], "eq": f[3][1]}.get(f[1])
            if v is not None and v > b:
                b = v
    return b


SHAPES = {(3, 7, 1024), (7, 15487, KMAX)}


def shape(idx, size, S):
    """The lookup regions used: small sizes by 8, large by 128, continuous."""
    r = index(idx, size)
    if not r:
        return None
    sh, k = r
    hi = bounds(S, size)
    lo = lower(S, size)
    return sh, k, lo, hi


def lookup(c):
    fs = c.fns(r"SizeMap::GetSizeClass<", [r"SizeMap::class_to_size", "GetCurrent", "is_cold"], tu=TU, floor=40)
    regions = set()
    for f in fs:
        p = pol(f.name)
        k = kind(p)
        asas = k == "AlignAs"
        size = ("arg", f.nargs - 1) if hasattr(f, "nargs") else None
        if size is None:
            size = max((t for i in f.live() for o in i.ops for t in subterms(f.term(o)) if t[0] == "arg"), key=lambda t: t[1])
        inst = "%s-%s" % (k, hsh(p))
        P = PF(f, K=64)
        for r in f.rets:
            for (s, cl), S in structs(f, P, r):
                for s2, F in cases(f, s, S):
                    if s2 in (("int", 0), ("false",)):
                        continue
                    one(c, f, cl, F, size, asas, k, inst, regions)
    sh = sorted(x for x in regions)
    # rounding up in every region and no jump between them
    for a in sh:
        c.ob("class", (a[1] + 1) % (1 << a[0]) == 0, "ceil-%d" % a[0], "tcmalloc/sizemap.h", "sizes are not rounded up to their class: (size + %d) >> %d" % (a[1], a[0]))
    for a, b in zip(sh, sh[1:]):
        lo = b[2]
        c.ob("class", ((lo - 1 + a[1]) >> a[0]) + 1 == (lo + b[1]) >> b[0], "join-%d" % b[0], "tcmalloc/sizemap.h", "lookup regions overlap or leave a gap at size %d" % lo)
        c.ob("class", a[3] == lo - 1, "split-%d" % b[0], "tcmalloc/sizemap.h", "lookup regions do not meet")
    c.regions = sh
    c.need(sh, "size-class lookup")


def hsh(p):
    import hashlib
    return hashlib.md5(p.encode()).hexdigest()[:4]


def one(c, f, cl, S, size, asas, k, inst, regions):
    base = cl
    tbl = [t for t in subterms(cl) if t[0] == "load" and "class_array_" in show(t)]
    hi = bounds(S, size)
    c.ob("class", hi is not None and hi <= KMAX, "range-" + inst, f, "accepts sizes beyond the table")
    leaves, bad = set(), []
    prov(f, cl, leaves, bad, set())
    c.ob("class", not bad and leaves, "index-" + inst, f, "the class does not come from the lookup table: " + show((bad or [cl])[0])[:90])
    for t in leaves:
        n = 0
        for x in subterms(t[1]):
            ds = [v for v, F in cases(f, x, S)] + ([f.term(o) for o in f.ins[x[1]].ops] if x[0] == "phi" else [])
            for v in ds:
                r = index(v, size)
                if r:
                    n += 1
                    if x[0] != "phi":
                        regions.add((r[0], r[1], lower(S, size), hi))
                    elif any(q[0] == "cmp" and q[1] == "eq" and {x, v} == {q[2], q[3]} for q in S) or v in [w for w, F in cases(f, x, S)]:
                        regions.add((r[0], r[1], lower(S, size), hi))
        c.ob("class", n > 0, "by-size-" + inst, f, "the class is not looked up by the requested size: " + show(t)[:90])
    # alignment
    if k == "DefaultAlign":
        c.ob("class", True, "align-" + inst, f)
        return
    al = None
    ok = False
    for q in S:
        if q[0] == "cmp" and q[1] == "eq" and q[3] == ("int", 0) and q[2][0] == "and":
            for x, y in ((q[2][1], q[2][2]), (q[2][2], q[2][1])):
                if x[0] == "call" and "class_to_size" in x[1] and same(f, S, x[2][-1], cl):
                    if asas and y == ("lin", ((1, -1), (("arg", 1), 1))) or lin_of(y) == {("arg", 1): 1, 1: -1}:
                        ok = asas
                    elif not asas and y[0] == "int" and y[1] >= 15 and (y[1] & (y[1] + 1)) == 0:
                        ok = True
        if q[0] == "cmp" and q[1] == "eq" and q[3] == ("int", 0) and q[2][0] == "urem":
            x, y = q[2][1], q[2][2]
            if x[0] == "call" and "class_to_size" in x[1] and same(f, S, x[2][-1], cl) and (y == ("arg", 1) if asas else y[0] == "int" and y[1] % 16 == 0):
                ok = True
    if not ok and asas:
        b = bounds(S, ("arg", 1))
        ok = b is not None and b <= 8
    c.ob("class", ok, "align-" + inst, f, "the class's size need not be a multiple of the alignment")
    if asas:
        b = bounds(S, ("arg", 1))
        c.ob("class", b is not None and b <= KPAGE, "page-" + inst, f, "uses a size class for an alignment beyond the page size")


def prov(f, t, leaves, bad, seen):
    """Where a class number comes from; it may only grow on the way."""
    t = uncast(t)
    if t in seen:
        return
    seen.add(t)
    if t[0] == "phi":
        for o in f.ins[t[1]].ops:
            prov(f, f.term(o), leaves, bad, seen)
    elif t[0] == "load" and "class_array_" in show(t):
        leaves.add(t)
    elif t[0] in ("int", "undef", "poison") and not (t[0] == "int" and t[1] > 0):
        pass
    elif t[0] == "lin":
        d = dict(lin_of(t))
        k = d.pop(1, 0)
        xs = [x for x in d if not (x[0] == "call" and "GetCurrent" in x[1]) and not (d[x] > 1 and "class_array_" not in show(x))]
        scale = {d[x] for x in d if x not in xs and d[x] > 1}
        if k >= 0 and len(scale) < 2 and len(xs) == 1 and d[xs[0]] == 1:
            prov(f, xs[0], leaves, bad, seen)
        else:
            bad.append(t)
    else:
        bad.append(t)


def same(f, S, a, b):
    a, b = uncast(a), uncast(b)
    if a == b:
        return True
    return entails(S, cmp("eq", a, b)) or entails(S, cmp("eq", b, a))


# ---------------------------------------------------------------- table
def table(c):
    T = "tcmalloc/sizemap.cc"
    f = c.fn("SizeMap::Init\\(", ["SizeMap::SetSizeClasses", "ColdFeature", "Parameters::", "heap_partitioning", "multiple_non", "CrashMsg", "Log", "^absl::"], tu=T)
    P = PF(f, K=192)
    ws = [w for w in writes(f, "class_array_") if w.kind == "store"]
    c.expect(ws, "table", "fill", f, "the lookup table is never filled", "SizeMap::Init", T)
    reg = {(a[0], a[1]) for a in c.regions}
    steps = {}
    for w in ws:
        cl = uncast(w.val)
        inst = "store-%s" % (w.addr[2] if w.addr[0] == "gep" else 0)
        for S in P.at(w.ins):
            ix = None
            size = None
            for x in subterms(w.addr):
                alts = [x]
                if x[0] == "phi" and f.ins[x[1]].b == w.ins.b or x[0] == "phi" and x not in subterms(w.val):
                    alts = [f.term(o) for o in f.ins[x[1]].ops]
                got = set()
                for v in alts:
                    if v[0] in ("lshr", "udiv", "ashr"):
                        d = dict(lin_of(v[1]))
                        d.pop(1, None)
                        if len(d) == 1:
                            got.add((next(iter(d)), index(v, next(iter(d)))))
                    else:
                        got.add((None, None))
                if got and all(g[1] for g in got) and len({g[0] for g in got}) == 1:
                    size = next(iter(got))[0]
                    ix = next(iter(got))[1]
                    if reg and not {g[1] for g in got} <= reg:
                        ix = (None, None)
                    break
            c.ob("table", ix is not None and (not reg or ix in reg), inst, w.ins, "table index is not the lookup's index")
            if ix is None:
                continue
            cap = [q for q in S if q[0] == "cmp" and "class_to_size_" in show(q[2] if q[3] == size else q[3])]
            ok = False
            for q in cap:
                p_, l, r = q[1], q[2], q[3]
                if r == size:
                    p_, l, r = SWAP[p_], r, l
                if l == size and p_ in ("sle", "ule", "slt", "ult") and r[0] == "load" and is_row(r[1], cl):
                    ok = True
            c.ob("table", ok, inst + "-holds", w.ins, "a class is entered for sizes it cannot hold")
            steps.setdefault(size, w.ins)
    for size, ins in steps.items():
        if size[0] != "phi":
            continue
        hb = f.ins[size[1]].b
        n = 0
        for p, nx, env in loop_paths3(f, hb):
            if size[1] not in nx:
                continue
            d = dict(lin_of(nx[size[1]]))
            k = d.pop(1, 0)
            if d == {size: 1}:
                n += 1
                c.ob("table", 0 < k <= 8, "step-%d" % size[1], ins, "skips sizes: step %d" % k)
        c.ob("table", n > 0, "loop", ins, "sizes are not enumerated")
        # every start value is at most one step beyond a size already covered
        for o in f.ins[size[1]].ops:
            starts(c, f, f.term(o), size, ins, set())


def starts(c, f, t, size, ins, seen):
    if t in seen or t == size:
        return
    seen.add(t)
    d = dict(lin_of(t))
    k = d.pop(1, 0)
    if not d:
        c.ob("table", k <= 8, "start", ins, "sizes below %d have no class" % k)
    elif d == {size: 1}:
        return
    elif len(d) == 1:
        x = next(iter(d))
        if x[0] == "phi":
            for o in f.ins[x[1]].ops:
                starts(c, f, f.term(o), size, ins, seen)
        else:
            c.ob("table", "class_to_size_" in show(x) and k <= 8, "start", ins, "sizes between two classes have none: starts at %s" % show(t))
    else:
        c.ob("table", False, "start", ins, "starts at %s" % show(t))


def is_row(addr, cl):
    i = gep_index(addr, 4)
    return i is not None and uncast(i) == cl


# ---------------------------------------------------------------- capacity
def capacity(c):
    for f in c.fns(r"TCMallocPolicy<.*::to_pointer", ["SizeMap::class_to_size"], tu=TU, floor=3):
        if "NonSizeReturning" in f.name:
            for t, S in PF(f).rets():
                c.ob("capacity", t == ("arg", 0), "ptr-to_pointer", f, "returns another pointer")
            continue
        P = PF(f, K=16)
        for r in f.rets:
            for (a, b), S in structs(f, P, r):
                c.ob("capacity", a == ("arg", 0), "ptr-to_pointer", f, "returns another pointer")
                b = uncast(b)
                ok = (b[0] == "call" and "class_to_size" in b[1] and uncast(b[2][-1]) == ("arg", 1)) or (b[0] == "load" and "class_to_size_" in show(b) and is_row(b[1], ("arg", 1)))
                c.ob("capacity", ok, "size-to_pointer", f, "the capacity is not the class's size: " + show(b))
    for f in c.fns(r"TCMallocPolicy<.*::as_pointer", [], tu=TU, floor=3):
        if "NonSizeReturning" in f.name:
            for t, S in PF(f).rets():
                c.ob("capacity", t == ("arg", 0), "ptr-as_pointer", f, "returns another pointer")
            continue
        P = PF(f, K=16)
        for r in f.rets:
            for (a, b), S in structs(f, P, r):
                c.ob("capacity", (a, b) == (("arg", 0), ("arg", 1)), "as_pointer", f, "changes pointer or capacity")
    for f in c.fns(r"SizeMap::class_to_size\(", [], tu=TU):
        for t, S in PF(f).rets():
            t = uncast(t)
            c.ob("capacity", t[0] == "load" and is_field(t[1], "class_to_size_") and is_row(t[1], ("arg", 1)), "class_to_size", f, "not the size of that class")
    # what the slow path reports
    for f in c.fns(["slow_alloc_large<", "alloc_small_sampled_hooks_or_perthread<"], A4, tu=TU, floor=80):
        P = PF(f, K=64)
        small = "alloc_small" in f.name
        inst = "%s-%s" % ("small" if small else "large", kind(pol(f.name)))
        for i in sites(f, "as_pointer$"):
            for S in P.at(i):
                for a, F in cases(f, f.term(i.ops[0]), S):
                    for b, G in cases(f, f.term(i.ops[1]), F):
                        ok = False
                        if a[0] == "ext" and a[1] == b[1] and b[0] == "ext" and (a[2], b[2]) == ((0,), (1,)):
                            ok = True
                        elif a[0] == "call" and re.search(r"::Allocate(Slow)?(NoHooks)?$", a[1]):
                            bb = uncast(b)
                            ok = bb[0] == "call" and "class_to_size" in bb[1] and same(f, G, bb[2][-1], a[2][-1])
                        c.ob("capacity", ok, "slow-" + inst, i, "reports capacity %s for %s" % (show(b)[:60], show(a)[:60]))
    queries(c)


def queries(c):
    A = A4 + ["GetEstimatedAllocatedSize", "GetLargeSizeAndSampled", "PageMap::", "GetDescriptor", "Span::"]
    # size queries by pointer
    for f in c.fns([r"::GetSizeAndSampled\(", r"::GetSize\(void"], A, tu=TU, floor=2):
        n = f.sname.split("::")[-1]
        P = PF(f, K=64)
        pair = "AndSampled" in n
        rets = []
        if pair:
            for r in f.rets:
                rets += [(a, S) for (a, b), S in structs(f, P, r)]
        else:
            rets = P.rets()
        for t, S in rets:
            for v, F in cases(f, t, S):
                u = uncast(v)
                if entails(F, cmp("eq", ("arg", 0), ("null",))):
                    c.ob("capacity", u == ("int", 0), "null-" + n, f, "a null pointer has a size")
                elif u[0] == "call" and "class_to_size" in u[1]:
                    k = uncast(u[2][-1])
                    c.ob("capacity", "sizeclass" in show(k).lower() or "descriptor" in show(k).lower() or k[0] in ("load", "ext", "and", "lshr"), "class-" + n, f, "size of %s" % show(k)[:80])
                    c.ob("capacity", entails(F, cmp("ne", k, 0)) or any(q[0] == "cmp" and q[1] in ("ne", "ugt", "uge") and uncast(q[2]) == k for q in F), "nonzero-" + n, f, "takes the size of class 0")
                else:
                    ok = any(x[0] == "call" and re.search(r"LargeSizeAndSampled|GetSizeAndSampled", x[1]) for x in subterms(u))
                    c.ob("capacity", ok, "large-" + n, f, "size is " + show(u)[:100])
    for f in c.fns([r"^nallocx$", r"nallocx_slow\(", "^TCMalloc_Internal_GetEstimatedAllocatedSize$"], A, tu=TU, floor=3):
        P = PF(f, K=64)
        n = f.sname.split("::")[-1].split("(")[0]
        z = ("arg", 0)
        flags = ("arg", 1)
        gs = sites(f, "SizeMap::GetSizeClass$")
        for i in gs:
            a = [uncast(f.term(o)) for o in i.ops]
            c.ob("capacity", a[-1] == z, "est-size-" + n, i, "estimates another size")
            k = kind(pol(i.callee))
            if k == "AlignAs":
                c.ob("capacity", a[1][0] == "shl" and a[1][1] == I(1) and a[1][2][0] == "and" and flags in {uncast(x) for x in a[1][2][1:]}, "est-align-" + n, i, "estimates for another alignment: " + show(a[1]))
            else:
                for S in P.at(i):
                    c.ob("capacity", n == "TCMalloc_Internal_GetEstimatedAllocatedSize" or entails(S, cmp("eq", flags, 0)), "est-flags-" + n, i, "ignores the requested alignment")
        for i in sites(f, "nallocx_slow$"):
            a = [f.term(o) for o in i.ops]
            c.ob("capacity", a[0] == z and (a[1] == flags or (n.startswith("TC") and a[1] == I(0))), "est-slow-" + n, i, "estimates another request")
        slow = {f.term(i) for i in sites(f, "nallocx_slow$")}
        for t, S in P.rets():
            for v, F in cases(f, t, S):
                u = uncast(v)
                if u in slow:
                    c.ob("capacity", True, "est-tail-" + n, f)
                elif u[0] == "call" and "class_to_size" in u[1]:
                    c.ob("capacity", any(uncast(u[2][-1]) == ("ext", f.term(g), (1,)) for g in gs), "est-class-" + n, f, "estimate is not the class's size")
                    c.ob("capacity", any(truthy(F, ("ext", f.term(g), (0,))) for g in gs), "est-small-" + n, f, "estimates a class for a large size")
                else:
                    b = [x for x in subterms(u) if x[0] == "call" and "BytesToLengthCeil" in x[1] and x[2][-1] == z]
                    c.ob("capacity", b and (is_lin(u, b[0], KPAGE) or "in_bytes" in show(u)), "est-pages-" + n, f, "estimate is " + show(u)[:90])
                    c.ob("capacity", not any(truthy(F, ("ext", f.term(g), (0,))) for g in gs), "est-large-" + n, f, "estimates pages for a size with a class")
    for n, g in (("TCMalloc_Internal_GetAllocatedSize", None), ("MallocExtension_Internal_GetAllocatedSize", None), ("TCMallocInternalMallocSize", None), ("MallocExtension_Internal_GetEstimatedAllocatedSize", None)):
        f = c.fn("^%s$" % n, A + ["TCMalloc_Internal_Get"], tu=TU)
        for t, S in PF(f, K=16).rets():
            if n == "TCMallocInternalMallocSize" and t == I(0):
                c.ob("capacity", entails(S, cmp("eq", ("arg", 0), ("null",))), "query-null-" + n, f, "answers 0 for an object")
                continue
            ok = t[0] in ("call", "ext") and any(x[0] == "call" and x[2] and x[2][0] == ("arg", 0) and re.search(r"GetSize|AllocatedSize", x[1]) for x in [t, t[1] if t[0] == "ext" else t])
            c.ob("capacity", ok, "query-" + n, f, "answers " + show(t)[:80])

