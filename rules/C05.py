"""free and delete give each object back exactly once, to the place it came from."""
from tcm import *
from lib import _
from C04 import pol, kind, uncast, truthy

A5 = [a for a in ANCH if a != "^absl::"] + ["^absl::base_internal", "FreeSmallSlow", "FreeSmall\\(", "GetLargeSize", "::InPartition", "::is_cold", "DeallocateSlowNoHooks", "AlignAs"]
PTR = ("arg", 0)
# delegations: what the callee does with (pointer, size)
DEL = r"(^|::)(do_free|do_free_with_size|do_unsized_free_irregular|fast_free_with_size|handle_sampled_or_illformed_ptrs|FreeSmall|FreeSmallSlow|FreeWithHooksOrPerThread|InvokeHooksAndFreePages)$"
SIZED = r"(do_free_with_size|fast_free_with_size|handle_sampled_or_illformed_ptrs)$"
OPT = r"(FreeSmall|FreeSmallSlow|FreeWithHooksOrPerThread|InvokeHooksAndFreePages)$"
LEAF = r"(CpuCache::Deallocate(Slow|SlowNoHooks)?|ThreadCache::Deallocate|TransferCacheManager::InsertRange|InsertRange)$"
TAG = 42


def run(c):
    c.rule("route", "every way of freeing passes on the given pointer, size and alignment")
    c.rule("once", "every path gives the object back exactly once; only a null pointer is ignored")
    c.rule("class", "an object goes back to the size class recorded for its page, or to the one its given size and alignment were allocated from")
    c.rule("report", "pages are freed only for the start of a live, unsampled or guarded allocation; anything else is reported")
    entry(c)
    chain_(c)
    small(c)
    pages(c)


def known(S, t=PTR):
    """(mask, value) of the bits of t fixed by the facts."""
    M = V = 0
    U = (1 << 64) - 1
    for f in S:
        if f[0] == "cmp" and f[1] == "eq" and f[3][0] == "int" and f[2][0] == "and" and t in f[2][1:]:
            m = [x for x in f[2][1:] if x != t]
            if m and m[0][0] == "int":
                M |= m[0][1] & U
                V |= f[3][1] & U
        if f[0] == "cmp" and f[2] == t and f[3][0] == "int" and f[1] == "ult" and f[3][1] > 0 and f[3][1] & (f[3][1] - 1) == 0:
            m = U & ~(f[3][1] - 1)
            M |= m
            V &= ~m
        if f[0] == "cmp" and f[1] == "eq" and f[3] == ("int", 0) and f[2] in [("lshr", t, I(48)), ("ashr", t, I(48))]:
            M |= U & ~((1 << 48) - 1)
    return M, V


def tag(S):
    """Set of memory tags the facts leave possible."""
    M, V = known(S)
    m, v = (M >> TAG) & 7, (V >> TAG) & 7
    out = {k for k in (0, 1, 2, 3, 4, 6) if k & m == v}
    U = (1 << 64) - 1
    for f in S:
        if f[0] == "cmp" and f[1] == "ne" and f[3][0] == "int" and f[2][0] == "and" and PTR in f[2][1:]:
            k = [x for x in f[2][1:] if x != PTR]
            if k and k[0][0] == "int" and (k[0][1] & U) & ~(7 << TAG) == 0:
                mm, vv = (k[0][1] & U) >> TAG, (f[3][1] & U) >> TAG
                out = {x for x in out if x & mm != vv}
    return out


def entry(c):
    for n, f in entries(c, FREE).items():
        sz, al = FREE[n]
        ds = sites(f, DEL)
        c.expect(ds, "route", "calls-" + n, f, "never frees", "do_free", TU)
        P = PF(f, K=32, events=lambda i: "d" if i in ds else None)
        for i in ds:
            a = [f.term(o) for o in i.ops]
            c.ob("route", a[0] == PTR, "ptr-" + n, i, "frees another pointer")
            sized = i.cshort.endswith("_with_size")
            c.ob("route", sized == (sz is not None), "sized-" + n, i, "the given size is not used" if sz else "uses a size nobody gave")
            if sized and sz is not None:
                c.ob("route", a[1] == ("arg", sz), "size-" + n, i, "frees with another size: " + show(a[1]))
            k = kind(pol(i.callee))
            v = align(f, i)
            for S in P.at(i):
                if al is None:
                    c.ob("class", k != "AlignAs", "align-" + n, i, "frees with an alignment nobody gave")
                elif al == "flags":
                    if entails(S, cmp("eq", ("arg", 2), 0)):
                        c.ob("class", k == "MallocAlign", "align-" + n, i, "an unflagged object is freed with another alignment")
                    else:
                        ok = k == "AlignAs" and v and v[0] == "shl" and v[1] == I(1) and any(x == ("arg", 2) for x in subterms(v[2]))
                        ok = ok and entails(S, cmp("ne", ("arg", 2), 0))
                        c.ob("class", ok, "align-" + n, i, "frees with another alignment than the flags say")
                else:
                    c.ob("class", k == "AlignAs" and v == ("arg", al), "align-" + n, i, "frees with another alignment: %s" % (show(v) if v else k))
        for t, S in P.rets():
            k = n_(P, S, "d")
            c.ob("once", k == 1 or k == 0 and null(S), n, f, "%s deallocations on a path" % k)


def align(f, i):
    """Value of the alignment carried by a policy argument."""
    for o in i.ops[1:]:
        t = f.term(o)
        for x in subterms(t):
            if x[0] == "call" and x[1].endswith("AlignAs"):
                return uncast(x[2][-1])
    a = [uncast(f.term(o)) for o in i.ops]
    return a[-1] if len(a) > 1 else None


def null(S):
    return entails(S, cmp("eq", PTR, ("null",))) or entails(S, cmp("eq", PTR, 0))


def n_(P, S, e):
    n = P.count(S, e)
    return n[0] if isinstance(n, tuple) else n


def opt(a, k):
    """(payload, engaged) of an optional<size_t> passed at operand k."""
    if len(a) > k + 1:
        return a[k], a[k + 1]
    return None, None


def chain_(c):
    R = ["do_free<", "do_free_with_size<", "do_unsized_free_irregular<", "fast_free_with_size<", "handle_sampled_or_illformed_ptrs<"]
    fs = c.fns(["::%s" % r for r in R], A5, tu=TU, floor=10)
    have = set()
    for f in fs:
        rk = re.search("(%s)" % "|".join(R), f.name).group(1)[:-1]
        have.add(rk)
        p = pol(f.name)
        asas = kind(p) == "AlignAs"
        sized = bool(re.search(SIZED, rk))
        me = "%s-%s" % (rk, kind(p))
        ds = sites(f, DEL)
        gs = sites(f, "SizeMap::GetSizeClass$")
        ps = sites(f, "PageMap::sizeclass$")
        P = PF(f, K=64, events=lambda i: "d" if i in ds else None)
        for t, S in P.rets():
            k = n_(P, S, "d")
            c.ob("once", k == 1 or k == 0 and null(S), me, f, "%s deallocations on a path" % k)
        for g in ps:
            a = args(f, g)
            c.ob("class", a[-1] in (("lshr", PTR, I(13)),) or PTR in subterms(a[-1]) and "PageIdContaining" in show(a[-1]), "page-" + me, g, "looks at another page")
        for g in gs:
            a = [uncast(x) for x in args(f, g)]
            c.ob("class", sized and a[-1] == ("arg", 1), "given-" + me, g, "looks up the class of another size")
            q = pol(g.callee)
            c.ob("class", kind(q) == kind(p), "kind-" + me, g, "looks up the class for another alignment")
            if asas:
                c.ob("class", carries(f, a[1]), "align-" + me, g, "looks up the class for another alignment: " + show(a[1]))
            cold, pc = access(q), access(p)
            part = partition(q)
            if rk == "fast_free_with_size":
                c.ob("class", cold == pc, "cold-" + me, g, "looks the size up among the objects of another access kind")
                for S in P.at(g):
                    if not iscold(f, S, pc) and part is not None:
                        c.ob("class", {k & 2 for k in tag(S)} == {2 * part}, "partition-" + me, g, "looks the size up in partition %s although the pointer is from another" % part)
        for i in ds:
            a = args(f, i)
            k = i.cshort.split("::")[-1]
            me2 = "%s-%s" % (k, me)
            c.ob("route", a[0] == PTR, "ptr-" + me2, i, "frees another pointer")
            q = pol(i.callee or "")
            if q:
                c.ob("class", kind(q) == kind(p), "carry-align-" + me2, i, "continues with another alignment")
            if re.search(SIZED, k):
                c.ob("route", sized and a[1] == ("arg", 1), "size-" + me2, i, "continues with another size")
                if asas:
                    c.ob("class", carries(f, a[2]), "alignv-" + me2, i, "continues with another alignment")
            if re.search(OPT, k):
                pl, en = opt(a, 1)
                if sized:
                    c.ob("route", pl == ("arg", 1) and en == I(1), "size-" + me2, i, "the given size is lost")
                else:
                    c.ob("route", en == I(0), "size-" + me2, i, "reports a size nobody gave")
            for S in P.at(i):
                T = tag(S)
                if k == "fast_free_with_size":
                    want = {2} if access(q) == "Cold" else {4, 6}
                    c.ob("class", T <= want, "tag-" + me2, i, "treats memory with tags %s as %s" % (sorted(T), access(q)))
                if k in ("FreeSmall", "InvokeHooksAndFreePages", "fast_free_with_size") and rk != "fast_free_with_size":
                    M, V = known(S)
                    hi = M >> 48 == 0xffff and V >> 48 == 0
                    lo = M & 7 == 7 and V & 7 == 0
                    c.ob("report", hi and (lo or T <= {0, 1} or rk.startswith("handle")) or (rk.startswith("handle") and T <= {0, 1}),
                         "formed-" + me2, i, "an ill-formed pointer is freed instead of reported")
                if k == "FreeSmall":
                    cl = uncast(a[-1])
                    if sized:
                        g = [x for x in gs if cl == ("ext", f.term(x), (1,))]
                        c.ob("class", bool(g), "class-" + me2, i, "the class is not the one looked up: " + show(cl)[:80])
                        c.ob("class", any(truthy(S, ("ext", f.term(x), (0,))) for x in g), "found-" + me2, i, "uses a class although none was found")
                    else:
                        g = [x for x in ps if cl == uncast(f.term(x))]
                        c.ob("class", bool(g), "class-" + me2, i, "the class is not the one recorded for the page: " + show(cl)[:80])
                        c.ob("class", entails(S, cmp("ne", f.term(g[0]), 0)) if g else False, "nonzero-" + me2, i, "frees to a cache an object without a class")
                if k == "InvokeHooksAndFreePages":
                    if rk == "handle_sampled_or_illformed_ptrs" and T <= {0, 1}:
                        c.ob("class", True, "pages-" + me2, i)
                    elif sized:
                        c.ob("class", any(falsy(S, ("ext", f.term(x), (0,))) for x in gs), "pages-" + me2, i, "frees pages although the size has a class")
                    else:
                        c.ob("class", any(entails(S, cmp("eq", f.term(x), 0)) for x in ps), "pages-" + me2, i, "frees pages although the page belongs to a class")
    c.need(have >= {"do_free", "do_free_with_size"}, "deallocation paths")


def carries(f, t):
    """The policy argument (index 2), possibly rebuilt or spilled to a local."""
    w = {x for w in writes(f) if w.kind == "store" and w.val == ("arg", 2) for x in [strip(w.addr)]}
    return any(x == ("arg", 2) or x in w for x in subterms(uncast(t)))


def falsy(S, t):
    b = ("and", t, I(1))
    return ("not", t) in S or entails(S, cmp("eq", t, 0)) or entails(S, cmp("eq", b, 0)) or entails(S, cmp("ne", b, 1)) or ("not", ("trunc", "i1", t)) in S


def access(q):
    m = re.search(r"Access(Cold|Hot|AsPolicy|\w*)", q or "")
    s = m.group(0) if m else ""
    return "Cold" if "Cold" in s else "Hot"


def partition(q):
    m = re.search(r"ConstSecurityPartitionPolicy<.*?(\d+)u?l?>", q or "")
    return int(m.group(1)) if m else None


def iscold(f, S, pc):
    if pc == "Cold":
        return True
    return any(x[0] == "call" and x[1].endswith("is_cold") for x in S)


def small(c):
    for f in c.fns([r"::FreeSmall\(", r"::FreeSmallSlow\(", r"::FreeWithHooksOrPerThread\("], A5, tu=TU):
        rk = f.sname.split("::")[-1].split("(")[0]
        CL = ("arg", 3)
        ds = sites(f, DEL + "|" + LEAF)
        fast = sites(f, "DeallocateFast$")
        P = PF(f, K=32, events=lambda i: "d" if i in ds else None)
        for i in ds + fast:
            k = i.cshort.split("::")[-1]
            leaf = re.search(LEAF + "|DeallocateFast", i.cshort)
            a = [arg_value(f, i, j) for j in range(len(i.ops))]
            a = [x if x[0] != "load" or x[1][0] != "alloca" else spilled(f, x, i) for x in a]
            if k == "InsertRange":
                a = [uncast(x) for x in a]
                c.ob("class", CL in a, "class-" + rk + "-" + k, i, "frees to another class")
                c.ob("once", I(1) in a, "count-" + rk, i, "gives back another number of objects")
                b = [x for x in a if x[0] == "alloca"] or [x for x in a if x == PTR]
                vals = {f.term(w.ins.ops[0]) for x in b for w in writes(f) if w.kind == "store" and w.addr == x}
                c.ob("route", vals == {PTR} or PTR in b, "ptr-" + rk + "-" + k, i, "gives back another object")
                continue
            off = 1 if leaf and not re.search(DEL, i.cshort) else 0
            c.ob("route", a[off] == PTR, "ptr-" + rk + "-" + k, i, "frees another pointer: " + show(a[off]))
            c.ob("class", uncast(a[-1]) == CL, "class-" + rk + "-" + k, i, "frees to another class")
            if not off:
                c.ob("route", (a[1], a[2]) == (("arg", 1), ("arg", 2)), "size-" + rk + "-" + k, i, "the given size is lost")
            if "ThreadCache" in i.cshort:
                for S in P.at(i):
                    c.ob("once", entails(S, cmp("ne", a[0], ("null",))), "cache-" + rk, i, "uses a thread cache that may not exist")
        for t, S in P.rets():
            k = n_(P, S, "d")
            ok_fast = [i for i in fast if truthy(S, f.term(i)) or f.term(i) in S]
            no_fast = [i for i in fast if ("not", f.term(i)) in S or falsy(S, f.term(i))]
            if ok_fast:
                c.ob("once", k == 0, rk, f, "frees again what the fast path already took")
            else:
                c.ob("once", k == 1, rk, f, "%s deallocations on a path" % k)
        # the thread cache is not consulted while per-CPU caches are in use and vice versa
        for i in ds:
            if re.search(r"CpuCache::", i.cshort):
                for S in P.at(i):
                    on = any(x[0] == "call" and x[1].endswith("UsePerCpuCache") for x in S)
                    c.ob("class", on, "percpu-" + rk + "-" + i.cshort.split("::")[-1], i, "uses the per-CPU cache although it may be inactive")


def spilled(f, x, i):
    vs = {f.term(w.ins.ops[0]) for w in writes(f) if w.kind == "store" and w.addr == x[1]}
    return next(iter(vs)) if len(vs) == 1 else x


def pages(c):
    A = A5 + ["GetDescriptor", "MaybeUnsample", "Span::", "MallocHook::"]
    for f in c.fns(r"::InvokeHooksAndFreePages<", A, tu=TU, floor=2):
        me = kind(pol(f.name))
        gd = sites(f, r"PageMap::Get(Existing)?Descriptor(AndSizeClass)?$")
        c.need(gd, "page descriptor lookup")
        desc = [("ext", f.term(g), (0,)) for g in gd if "AndSizeClass" in g.cshort] + [f.term(g) for g in gd if "AndSizeClass" not in g.cshort]
        scl = [("ext", f.term(g), (1,)) for g in gd if "AndSizeClass" in g.cshort]
        scl += [f.term(i) for i in sites(f, "PageMap::sizeclass$")]
        for g in gd:
            c.ob("class", args(f, g)[-1] == ("lshr", PTR, I(13)) or PTR in subterms(args(f, g)[-1]), "page-" + me, g, "looks at another page")
        gwp = sites(f, "GuardedPageAllocator::Deallocate$")
        sd = sites(f, "Span::Delete$")
        pd = sites(f, r"PageAllocator::Delete$")
        c.expect(gwp, "once", "gwp-" + me, f, "guarded allocations are never given back", "GuardedPageAllocator::Deallocate", TU)
        c.expect(pd, "once", "pages-" + me, f, "pages are never given back", "PageAllocator::Delete", TU)
        c.expect(sd, "once", "span-" + me, f, "descriptors are never given back", "Span::Delete", TU)
        un = sites(f, "MaybeUnsampleAllocation$")
        c.expect(un, "once", "unsample-" + me, f, "sampled allocations are never taken off the record", "MaybeUnsampleAllocation", TU)
        use = [i for i in f.live("call") if i not in sd and i.b not in f.crash and re.search(r"Span::", i.cshort) and i.ops and f.term(i.ops[0]) in desc]
        ld = [i for i, a in reads(f) if any(d in subterms(a) for d in desc)]

        def ev(i):
            o = []
            for k, l in (("g", gwp), ("s", sd), ("p", pd), ("u", un)):
                if i in l:
                    o.append(k)
            return o
        P = PF(f, K=96, events=ev)

        def mine(S):
            for x in S:
                if x[0] == "call" and x[1].endswith("PointerIsMine"):
                    return x[2][-1] == PTR
                if x[0] == "not" and x[1][0] == "call" and x[1][1].endswith("PointerIsMine"):
                    return False
            return None
        for i in sites(f, "PointerIsMine$|PointerIsCorrectlyAligned$") + gwp:
            c.ob("route", args(f, i)[-1] == PTR, "gwp-ptr-" + me, i, "asks about another pointer")
        for i in un:
            a = args(f, i)
            k = a.index(PTR) if PTR in a else -9
            c.ob("route", a[k + 1:k + 3] == [("arg", 1), ("arg", 2)] and any(d in a for d in desc), "unsample-args-" + me, i, "takes another allocation off the record")
        for i in gwp + pd + sd:
            for S in P.at(i):
                d = desc[0]
                inv = any(x[0] == "cmp" and x[1] == "ne" and d in x[2:4] and re.search("nvalid_?[sS]pan", show(x)) for x in S)
                k = i.cshort.split("::")[-2]
                c.ob("report", entails(S, cmp("ne", d, ("null",))), "unknown-%s-%s" % (k, me), i, "frees a pointer to memory that was never allocated")
                c.ob("report", inv, "double-%s-%s" % (k, me), i, "frees pages that were freed already")
                c.ob("report", any(entails(S, cmp("eq", z, 0)) for z in scl), "small-%s-%s" % (k, me), i, "frees the pages of a span holding several objects")
                c.ob("report", any(x[0] == "cmp" and x[1] in ("eq", "ule", "ult") and "Span::Allocated" in show(x[2]) for x in S), "live-%s-%s" % (k, me), i, "frees the pages of a span with live objects")
        for i in gwp:
            for S in P.at(i):
                c.ob("route", mine(S) is True, "guarded-" + me, i, "gives an ordinary object to the guarded allocator")
        for i in pd:
            a = args(f, i)
            for S in P.at(i):
                c.ob("route", mine(S) is False, "ordinary-" + me, i, "gives guarded memory to the page allocator")
                st = [q for q in S if q[0] == "cmp" and q[1] == "eq" and PTR in q[2:4] and re.search("start_address|first_page", show(q)) and
                      all(x == PTR or not re.search("lshr|udiv", x[0]) for x in q[2:4])]
                c.ob("report", bool(st), "interior-" + me, i, "frees pages for a pointer into the middle of an allocation")
            # range
            al = [x for x in a if x[0] == "alloca"]
            vals = list(a)
            for x in al:
                vals += [w.val for w in writes(f) if w.kind == "store" and strip(w.addr) == x]
            s = [x for v in vals for x in subterms(v)]
            c.ob("route", any(x[0] == "call" and "num_pages" in x[1] or x[0] == "load" and "num_pages" in show(x) for x in s), "length-" + me, i, "does not give back all pages of the span")
            c.ob("route", ("lshr", PTR, I(13)) in s or any(x[0] == "call" and "first_page" in x[1] for x in s), "first-" + me, i, "gives back pages starting elsewhere")
            c.ob("class", any(any(x[0] in ("lshr", "and", "call") and PTR in x or x[0] == "call" and PTR in x[2] and "Tag" in x[1] for x in subterms(y)) and ("lshr", PTR, I(13)) not in subterms(y) for y in a), "tag-" + me, i, "gives the pages to the heap of another memory tag")
        for i in use + ld:
            for S in P.at(i):
                c.ob("once", n_(P, S, "s") == 0, "after-" + me, i, "uses the descriptor after it was given back")
        for i in sd:
            c.ob("route", f.term(i.ops[0]) in desc, "desc-" + me, i, "gives back another descriptor")
        for t, S in P.rets():
            k = [n_(P, S, e) for e in "gpsu"]
            c.ob("once", k[0] + k[1] == 1 and k[2] == 1 and k[3] == 1, "free-" + me, f, "a path frees %d guarded slots, %d page ranges, %d descriptors and unsamples %d times" % tuple(k))
