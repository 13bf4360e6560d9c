"""Allocation and deallocation hooks see every operation once, with true data."""
from tcm import *
from lib import _
from C04 import pol, kind, uncast, truthy
from C05 import falsy, n_

A = [a for a in ANCH if a != "^absl::"] + ["^absl::base_internal", "GetLargeSize", "as_pointer", "DeallocateSlowNoHooks", "AllocateSlowNoHooks", "FreeWithHooksOrPerThread",
     "MallocHook::", "Span::", "GetDescriptor", "MaybeForceSlowPath", "HookList", "UncacheCpuSlab", "RecordAllocation", "RecordedAllocation", "GetThreadSampler"]
INV = r"MallocHook::Invoke(New|Delete)Hook$"


def run(c):
    c.rule("new", "a successful allocation on the hooked path reports its block once, with requested and real size; a failed one reports nothing")
    c.rule("delete", "a deallocation on the hooked path reports its block once, before the block is given back")
    c.rule("resize", "a block resized in place is reported as deleted at its real size and allocated again at the new size")
    c.rule("slow", "while a new or delete hook is registered the hookless paths are not taken")
    new(c)
    delete(c)
    resize(c)
    slow(c)


def fields(f, i, n):
    """offset -> set of values stored to the struct passed as operand 0."""
    b = f.term(i.ops[0])
    out = {}
    for w in writes(f):
        if w.kind != "store":
            continue
        t = w.addr
        off = 0
        while t[0] == "gep" and not t[3]:
            off += t[2]
            t = t[1]
        if t == b:
            out.setdefault(off, set()).add(w.val)
    return out


def new(c):
    fs = c.fns(["slow_alloc_large<", "alloc_small_sampled_hooks_or_perthread<"], A, tu=TU, floor=80)
    for f in fs:
        p = pol(f.name)
        inst = "%s-%s" % ("large" if "large" in f.name else "small", kind(p))
        hooked = "NoHooks" not in p
        sret = "NonSizeReturning" not in p and "SizeReturning" in p
        iv = sites(f, INV)
        nn = [i for i in iv if "New" in i.cshort]
        P = PF(f, K=48, events=lambda i: "n" if i in nn else "x" if i in iv else None)
        al = sites(f, r"do_malloc_pages$|SampleSmallAllocation$|CpuCache::Allocate(Slow|Fast)?(NoHooks)?$|ThreadCache::Allocate$")
        vals = {}
        for i in al:
            t = f.term(i)
            vals[("ext", t, (0,)) if re.search("pages|Sample", i.cshort) else t] = ("ext", t, (1,)) if re.search("pages|Sample", i.cshort) else None
        if hooked:
            c.expect(nn, "new", "calls-" + inst, f, "allocations are never reported", "MallocHook::InvokeNewHook", TU)
        for i in nn:
            F = fields(f, i, 3)
            for S in P.at(i):
                for v in F.get(0, {None}):
                    ok = v is not None and all(x in vals for x, G in cases(f, v, S))
                    c.ob("new", ok, "ptr-" + inst, i, "reports another block")
                    c.ob("new", v is not None and (entails(S, cmp("ne", v, ("null",))) or all(entails(G, cmp("ne", x, ("null",))) for x, G in cases(f, v, S))), "nonnull-" + inst, i, "reports a failed allocation")
                cap = F.get(16, {None})
                for v in cap:
                    c.ob("new", v is not None and iscap(f, v, S, vals), "capacity-" + inst, i, "reports another real size: %s" % (show(v)[:60] if v else "none"))
                for v in F.get(8, {None}):
                    c.ob("new", (v in cap) if sret else v == ("arg", 0), "requested-" + inst, i, "reports another requested size: %s" % (show(v)[:60] if v else "none"))
        for t, S in P.rets():
            oom = t[0] == "call" and "handle_oom" in t[1] or any(x[0] == "call" and "handle_oom" in x[1] for x in subterms(t))
            k = n_(P, S, "n") if nn else 0
            c.ob("new", k == (0 if oom or not hooked else 1), "once-" + inst, f, "a path reports %s allocations" % k)
            if "x" in P.labels:
                c.ob("new", n_(P, S, "x") == 0, "onlynew-" + inst, f, "an allocation is reported as a deallocation")


def iscap(f, v, S, vals):
    for x, G in cases(f, v, S):
        x = uncast(x)
        if x in [y for y in vals.values() if y]:
            continue
        if x[0] == "call" and "class_to_size" in x[1]:
            continue
        return False
    return True


def illformed(S):
    """The pointer does not start its block: the free is reported as an error."""
    for x in S:
        if x[0] == "not" and x[1][0] == "call" and "PointerIsCorrectlyAligned" in x[1][1]:
            return True
        if x[0] == "cmp" and x[1] == "ne" and ("arg", 0) in x[2:]:
            o = x[2] if x[3] == ("arg", 0) else x[3]
            if o[0] == "call" and "start_address" in o[1]:
                return True
    return False


def delete(c):
    for f in c.fns([r"::FreeWithHooksOrPerThread\(", "InvokeHooksAndFreePages<"], A, tu=TU, floor=3):
        pages = "Pages" in f.name
        inst = "pages-%s" % kind(pol(f.name)) if pages else "small"
        iv = sites(f, INV)
        dd = [i for i in iv if "Delete" in i.cshort]
        rel = sites(f, r"::Deallocate(Slow|SlowNoHooks)?$|InsertRange$|PageAllocator::Delete$|GuardedPageAllocator::Deallocate$|Span::Delete$")
        c.expect(dd, "delete", "calls-" + inst, f, "deallocations are never reported", "MallocHook::InvokeDeleteHook", TU)
        P = PF(f, K=96, events=lambda i: "n" if i in dd else "x" if i in iv else None)
        for i in dd:
            F = fields(f, i, 4)
            c.ob("delete", F.get(0) == {("arg", 0)}, "ptr-" + inst, i, "reports another block")
            sz = [k for k in range(1, 3)]
            a = [("arg", k) for k in range(f.nargs)] if hasattr(f, "nargs") else None
            c.ob("delete", F.get(8) and all(x[0] == "arg" for x in F[8]) and F.get(16) and all(uncast(x)[0] == "arg" for x in F[16]) and
                 [uncast(next(iter(F[16])))[1]] == [next(iter(F[8]))[1] + 1], "size-" + inst, i, "the given size is not reported")
            for v in F.get(24, {None}):
                v = uncast(v) if v else v
                if pages:
                    ok = v is not None and any(x[0] == "call" and re.search("GetLargeSize|GetSize", x[1]) for x in subterms(v)) and ("arg", 0) in set(subterms(v))
                else:
                    ok = v is not None and v[0] == "call" and "class_to_size" in v[1] and uncast(v[2][-1]) == ("arg", 3)
                c.ob("delete", ok, "real-" + inst, i, "reports another real size: %s" % (show(v)[:80] if v else "none"))
        for i in rel:
            for S in P.at(i):
                if pages and n_(P, S, "n") == 0:
                    # an ill-formed guarded pointer is reported by the guarded allocator
                    ok = illformed(S)
                else:
                    ok = n_(P, S, "n") == 1
                c.ob("delete", ok, "before-%s-%s" % (i.cshort.split("::")[-1], inst), i, "the block is given back before (or without) being reported")
        for t, S in P.rets():
            k = n_(P, S, "n")
            bad = illformed(S)
            c.ob("delete", k == 1 or (k == 0 and pages and bad), "once-" + inst, f, "a path reports %s deallocations" % k)


def resize(c):
    for f in c.fns("^do_realloc", A, tu=TU):
        iv = sites(f, INV)
        dd, nn = [i for i in iv if "Delete" in i.cshort], [i for i in iv if "New" in i.cshort]
        al = sites(f, "fast_alloc$")
        c.expect(dd, "resize", "del", f, "the old size is never reported", "MallocHook::InvokeDeleteHook", TU)
        c.expect(nn, "resize", "new", f, "the new size is never reported", "MallocHook::InvokeNewHook", TU)
        P = PF(f, K=96, events=lambda i: "d" if i in dd else "n" if i in nn else None)
        gs = sites(f, "GetSize(AndSampled)?$")
        old = {f.term(g) for g in gs} | {("ext", f.term(g), (0,)) for g in gs}
        for i in dd:
            F = fields(f, i, 4)
            c.ob("resize", F.get(0) == {("arg", 0)}, "ptr-del", i, "reports another block")
            c.ob("resize", F.get(24) and F[24] <= old, "old", i, "reports another size for the old block")
        for i in nn:
            F = fields(f, i, 3)
            c.ob("resize", F.get(0) == {("arg", 0)}, "ptr-new", i, "reports another block")
            c.ob("resize", F.get(8) == {("arg", 1)}, "requested", i, "reports another requested size")
            c.ob("resize", F.get(16) and F[16] <= old, "real", i, "reports another real size")
            for S in P.at(i):
                c.ob("resize", n_(P, S, "d") == 1, "order", i, "the new size is reported before the old one")
        for t, S in P.rets():
            k = (n_(P, S, "d"), n_(P, S, "n"))
            want = (1, 1) if t == ("arg", 0) else (0, 0)
            c.ob("resize", k == want, "once", f, "a path reports %d deletions and %d allocations" % k)


def hooks(S):
    """True / False / None: whether hooks are known to be registered on S."""
    for x in S:
        if x[0] == "call" and x[1].endswith("HaveHooks"):
            return True
        if x[0] == "not" and x[1][0] == "call" and x[1][1].endswith("HaveHooks"):
            return False
    return None


def slow(c):
    Ah = A + ["::HaveHooks"]
    for f in c.fns(["slow_alloc_small<", r"::FreeSmallSlow\("], Ah, tu=TU, floor=40):
        inst = "free" if "::FreeSmallSlow" in f.name else "alloc"
        s = sites(f, "NoHooks$")
        P = PF(f, K=32)
        for i in s:
            for S in P.at(i):
                c.ob("slow", hooks(S) is False, "nohooks-" + inst, i, "the hookless path is taken although hooks may be registered")
                if inst == "alloc":
                    w = [f.term(j) for j in sites(f, r"RecordedAllocationFast$")]
                    c.ob("slow", any(entails(S, cmp("eq", x, 0)) for x in w), "sampled-" + inst, i, "a sampled allocation takes the path that does not sample")
        for i in sites(f, "alloc_small_sampled_hooks_or_perthread$"):
            w = [f.term(j) for j in sites(f, r"RecordedAllocationFast$")]
            c.ob("slow", uncast(f.term(i.ops[-1])) in w, "weight-" + inst, i, "passes on another sampling weight")
    fs = c.fns(r"Static::HaveHooks\(\)|::HaveHooks\(", ["HookList.*::empty"], tu=TU)
    for f in fs:
        if "Static" not in f.name:
            continue
        P = PF(f, K=16)
        seen = set()
        for t, S in P.rets():
            for x in subterms(t):
                seen.add(x)
            for q in S:
                seen |= set(subterms(q))
        s = " ".join(show(x) for x in seen if x[0] in ("call", "load"))
        for l in ("new_hooks_", "delete_hooks_"):
            c.ob("slow", l in s, "lists-" + l, f, "%s is not considered" % l)
        for t, S in P.rets():
            for v, G in cases(f, t, S):
                vals(c, f, v, G)
    f = c.fn("^MallocHook_HooksChanged$", A, tu=TU)
    s = sites(f, "MaybeForceSlowPath$")
    c.expect(s, "slow", "changed", f, "a hook change does not leave the fast path", "MaybeForceSlowPath", TU)
    P = PF(f, events=lambda i: "m" if i in s else None)
    for t, S in P.rets():
        c.ob("slow", n_(P, S, "m") >= 1, "changed", f, "a hook change does not leave the fast path")
    B = ["HaveHooks", "UncacheCpuSlab", "SlowNoHooks", "MaybeForceSlowPath"]
    for f in c.fns(r"CpuCache<.*::MaybeForceSlowPath\(", B, tu=TU):
        u = sites(f, "UncacheCpuSlab$")
        c.expect(u, "slow", "uncache", f, "the fast path is never left", "UncacheCpuSlab", TU)
        P = PF(f, events=lambda i: "u" if i in u else None)
        for t, S in P.rets():
            k = n_(P, S, "u")
            c.ob("slow", k == 1 or hooks(S) is False, "uncache", f, "the fast path is kept although hooks are registered")
    for f in c.fns([r"CpuCache<.*::AllocateSlow\(", r"CpuCache<.*::DeallocateSlow\("], B, tu=TU, floor=2):
        n = "AllocateSlow" if "::Alloc" in f.name else "DeallocateSlow"
        op = sites(f, "SlowNoHooks$")
        mf = sites(f, "MaybeForceSlowPath$")
        c.expect(op, "slow", "op-" + n, f, "does nothing", "SlowNoHooks", TU)
        c.expect(mf, "slow", "force-" + n, f, "the fast path is not left again", "MaybeForceSlowPath", TU)
        P = PF(f, events=lambda i: "o" if i in op else "m" if i in mf else None)
        for i in mf:
            for S in P.at(i):
                c.ob("slow", n_(P, S, "o") == 1, "after-" + n, i, "leaves the fast path before the operation that re-enters it")
        for t, S in P.rets():
            c.ob("slow", n_(P, S, "m") >= 1 and n_(P, S, "o") == 1, "force-" + n, f, "the fast path is not left again")
            if n == "AllocateSlow":
                c.ob("slow", t in {f.term(i) for i in op}, "result-" + n, f, "returns another object")
        for i in op:
            a = args(f, i)
            c.ob("slow", a[1:] == [("arg", k) for k in range(1, len(a))], "args-" + n, i, "passes on other arguments")


def vals(c, f, v, G):
    """HaveHooks' value: true unless both lists are known empty."""
    e = {}
    G = [x for x in G if x[0] != "iff"]
    for l in ("new_hooks_", "delete_hooks_"):
        for x in G:
            if l in show(x) and not ("new_hooks_" in show(x) and "delete_hooks_" in show(x)):
                e[l] = x
    if v in (("false",), I(0)):
        c.ob("slow", len(e) == 2, "value", f, "denies hooks without looking at both lists")
    elif v in (("true",), I(1)):
        c.ob("slow", len(e) >= 1, "value", f, "claims hooks without looking")
    else:
        neg = False
        while v[0] in ("not", "zext", "trunc") or (v[0] == "cmp" and v[1] in ("eq", "ne") and v[3] == I(0)):
            if v[0] == "not" or (v[0] == "cmp" and v[1] == "eq"):
                neg = not neg
            v = v[2] if v[0] == "cmp" else v[1]
        s = show(v)
        both = "new_hooks_" in s and "delete_hooks_" in s
        if both:
            # not (empty and empty)  or  (not empty) or (not empty)
            ok = re.match("and", v[0]) is not None if neg else re.match("or", v[0]) is not None
        else:
            # one list decides what is left: the other is known
            ok = neg and len(e) == 1 and next(iter(e)) not in s
        c.ob("slow", ok, "value", f, "does not say whether either list holds a hook: " + s[:80])
