"""Failed requests are reported the way each entry point promises."""
from tcm import *
from lib import _

EINVAL, ENOMEM = ("int", 22), ("int", 12)
NULLS = (("null",), ("int", 0))


def is_null(t):
    if t in NULLS:
        return True
    if t[0] == "insv":
        return is_null(t[2]) and (t[1][0] in ("undef", "poison", "zero") or is_null(t[1]))
    if t[0] == "x" and "zeroinitializer" in str(t):
        return True
    return False


def errno_writes(f):
    return [w for w in writes(f) if "__errno_location" in show(w.addr)]


def run(c):
    c.rule("policy", "every allocation request carries the out-of-memory behaviour its entry point promises")
    c.rule("outcome", "out-of-memory handlers return null (with ENOMEM for the malloc family) or never return")
    c.rule("slow", "every allocation path either returns a non-null object or its own out-of-memory outcome")
    c.rule("result", "an entry point returns exactly what its allocation returned")
    c.rule("argument", "invalid alignments are refused with the documented code before anything is allocated; a failed posix_memalign leaves the result untouched")
    E = entries(c, ALLOC)
    for n, f in E.items():
        want = ALLOC[n][2]
        r = role(n)
        P = PF(f, K=64)
        al = sites(f, r"fast_alloc$|slow_alloc_(small|large)$")
        for i in al:
            c.ob("policy", policy(i)[0] == want, n, i, "out-of-memory policy %s, expected %s" % (policy(i)[0], want))
        for i in sites(f, "handle_oom$"):
            k = oom(i.callee)
            c.ob("policy", k == want, "oom-" + n, i, "out-of-memory policy %s, expected %s" % (k, want))
        vals = {f.term(i) for i in sites(f, r"fast_alloc$|slow_alloc_(small|large)$|do_realloc$|handle_oom$")}
        if r == "posixmemalign":
            posix(c, f, P, al, n)
            continue
        bad = r in ("alignedalloc", "alignedallocatleast")
        rl = []
        for rt in f.rets:
            x = f.term(rt.ops[0]) if rt.ops else None
            if x is not None and x[0] == "insv":
                for (p_, n_), F in structs(f, P, rt):
                    if p_ in NULLS and n_ == ("int", 0):
                        rl.append((("null",), F))
                    elif p_[0] == "ext" and p_[2] == (0,) and n_ == ("ext", p_[1], (1,)):
                        rl.append((p_[1], F))
                    else:
                        rl.append((x, F))
        for t, S in rl or P.rets():
            if t in vals:
                if bad:
                    c.ob("argument", pow2_ok(S, ("arg", 0)), "valid-" + n, f, "allocates with an alignment that is not known to be a power of two")
                else:
                    c.ob("result", True, n, f)
            elif is_null(t):
                if bad:
                    c.ob("argument", pow2_bad(S, ("arg", 0)), "reject-" + n, f, "refuses a valid alignment")
                elif r in ("realloc", "reallocarray"):
                    c.ob("result", True, n, f)      # freeing form, decided elsewhere
                else:
                    c.ob("result", False, n, f, "returns null without trying to allocate")
            else:
                c.ob("result", False, n, f, "returns %s instead of the allocation's result" % show(t))
        if bad:
            ws = errno_writes(f)
            c.ob("argument", bool(ws) and all(w.val == EINVAL for w in ws), "errno-" + n, f, "the refusal does not set EINVAL")
            P2 = PF(f, K=64, events=lambda i: ["errno"] if any(w.ins is i for w in ws) else None)
            for t, S in P2.rets():
                if is_null(t):
                    c.ob("argument", cnt(P2, S, "errno") >= 1, "seterr-" + n, f, "the refusal does not set EINVAL")
            for w in ws:
                for S in P.at(w.ins):
                    c.ob("argument", pow2_bad(S, ("arg", 0)), "noerr-" + n, w.ins, "sets EINVAL for a valid alignment")
    outcomes(c)
    slow(c)


def cnt(P, S, e):
    n = P.count(S, e)
    return n[0] if isinstance(n, tuple) else n


def oom(name):
    m = re.search(r"TCMallocPolicy<[^<>]*?(\w+?)OomPolicy", name)
    return m.group(1) if m else None


def posix(c, f, P, al, n):
    A = ("arg", 1)

    def bad(S):
        return pow2_bad(S, A) or any(x[0] == "cmp" and x[1] == "ne" and x[3] == ("int", 0) and x[2] in (("and", A, I(7)), ("and", I(7), A), ("urem", A, I(8))) for x in S)

    def good(S):
        return pow2_ok(S, A) and any(x[0] == "cmp" and x[1] == "eq" and x[3] == ("int", 0) and x[2] in (("and", A, I(7)), ("and", I(7), A), ("urem", A, I(8))) for x in S) or (pow2_ok(S, A) and entails(S, cmp("uge", A, 8)))
    for i in al:
        for S in P.at(i):
            c.ob("argument", good(S), "valid-" + n, i, "allocates with an alignment that is not a power-of-two multiple of the pointer size")
    vals = {f.term(i) for i in al}
    ws = [w for w in writes(f) if w.addr == ("arg", 0)]
    c.ob("argument", bool(ws), "store-" + n, f, "the result is never stored")
    for w in ws:
        c.ob("argument", w.val in vals, "value-" + n, w.ins, "stores something else than the allocated block")
        for S in P.at(w.ins):
            c.ob("argument", entails(S, cmp("ne", w.val, ("null",))), "untouched-" + n, w.ins, "overwrites the caller's pointer on failure")
    P2 = PF(f, K=64, events=lambda i: ["st"] if any(w.ins is i for w in ws) else None)
    for t, S in P2.rets():
        for v, F in cases(f, t, S):
            k = cnt(P2, F, "st")
            if v == ("int", 0):
                c.ob("argument", k == 1, "ok-" + n, f, "reports success without storing the block")
            elif v == EINVAL:
                c.ob("argument", bad(F) and k == 0, "einval-" + n, f, "refuses a valid alignment")
            elif v == ENOMEM:
                c.ob("argument", k == 0 and any(entails(F, cmp("eq", x, ("null",))) for x in vals), "enomem-" + n, f, "reports out-of-memory although a block was allocated")
            else:
                c.ob("argument", False, "code-" + n, f, "returns an undocumented code " + show(v))
    c.ob("argument", not errno_writes(f), "errno-" + n, f, "posix_memalign changes errno")


def outcomes(c):
    fs = c.fns("TCMallocPolicy<.*::handle_oom", ["CrashWithOOM"], tu=TU, floor=6)
    seen = set()
    for f in fs:
        k = oom(f.name)
        seen.add(k)
        # the crash handler is the callee itself
        rets = PF(f, K=16).rets() if f.rets else []
        if k == "Cpp":
            live = [r for r in f.rets if r.b in f.livb and r.b not in f.crash]
            calls_ = [i for i in f.all("call") if "CrashWithOOM" in i.callee]
            c.ob("outcome", not live and calls_, "cpp", f, "a throwing allocation can return after running out of memory")
            for i in calls_:
                c.ob("outcome", f.term(i.ops[0]) == ("arg", 0), "cpp-size", i, "reports a different size")
        else:
            c.ob("outcome", bool(rets), k + "-returns", f, "a non-throwing allocation terminates the program")
            for t, S in rets:
                c.ob("outcome", is_null(t), k + "-null", f, "the out-of-memory outcome is not null: " + show(t))
            ws = errno_writes(f)
            if k == "Malloc":
                P = PF(f, K=16, events=lambda i: ["e"] if any(w.ins is i for w in ws) else None)
                for t, S in P.rets():
                    c.ob("outcome", cnt(P, S, "e") >= 1 and all(w.val == ENOMEM for w in ws), "malloc-errno", f, "errno is not set to ENOMEM")
            else:
                c.ob("outcome", not ws, "null-errno", f, "changes errno")
    c.need(seen >= {"Cpp", "Malloc", "Null"}, "out-of-memory policies: %s" % seen)
    for f in c.fns("CrashWithOOM", [], tu="tcmalloc/internal/logging.cc"):
        live = [r for r in f.rets if r.b in f.livb and r.b not in f.crash]
        c.ob("outcome", not live, "crash", f, "the out-of-memory crash can return")


def slow(c):
    fs = c.fns([r"fast_alloc<", r"slow_alloc_small<", r"slow_alloc_large<", "alloc_small_sampled_hooks_or_perthread<"], ANCH, tu=TU, floor=40)
    for f in fs:
        k = oom(f.name)
        kind = re.search(r"fast_alloc|slow_alloc_small|slow_alloc_large|alloc_small_sampled", f.name).group(0)
        pol = re.sub(r"tcmalloc::(tcmalloc_internal::)?", "", re.search(r"TCMallocPolicy<(.*?)>>?[(,]", f.name).group(1)) if re.search(r"TCMallocPolicy<(.*?)>>?[(,]", f.name) else ""
        inst = kind + "-" + (k or "?")
        P = PF(f, K=64)
        sub = sites(f, r"(slow_alloc_small|slow_alloc_large|alloc_small_sampled_hooks_or_perthread|fast_alloc)$")
        hs = sites(f, "handle_oom$")
        for i in sub + hs:
            c.ob("slow", oom(i.callee) == k, "policy-" + inst, i, "continues with a different out-of-memory policy")
            if i.ops:
                c.ob("slow", f.term(i.ops[0]) == ("arg", 0), "size-" + inst, i, "continues with a different size")
        src = sites(f, r"::AllocateSlow(NoHooks)?$|::AllocateFast$|ThreadCache::Allocate$|do_malloc_pages$|Sample(Small|Large)Allocation$")
        done = {f.term(i) for i in sub + hs}
        pts = set()
        for i in src:
            t = f.term(i)
            pts |= {t, ("ext", t, (0,))}
        for t, S in P.rets():
            if t in done:
                if t in {f.term(i) for i in hs}:
                    # nothing else obtained on this path
                    c.ob("slow", any(entails(S, cmp("eq", p, ("null",))) for p in pts) or nullphi(f, S, pts), "oom-" + inst, f, "reports out-of-memory although an object was obtained")
                else:
                    c.ob("slow", True, "tail-" + inst, f)
                continue
            got = ptr_of(f, t)
            ok = got is not None and any(entails(S, cmp("ne", g, ("null",))) for g in got_all(f, got, S))
            c.ob("slow", ok, "nonnull-" + inst, f, "can return null without the out-of-memory outcome: " + show(t)[:120])


def got_all(f, g, S):
    out = {g}
    for x in S:
        if x[0] == "cmp" and x[1] == "eq" and g in (x[2], x[3]):
            out |= {x[2], x[3]}
    return out


def nullphi(f, S, pts):
    for x in S:
        if x[0] == "cmp" and x[1] == "eq" and x[3] in NULLS and x[2][0] == "phi":
            p = f.ins[x[2][1]]
            if all(f.term(o) in pts or f.term(o)[0] == "ext" for o in p.ops):
                return True
    return False


def ptr_of(f, t):
    if t[0] == "call" and ("to_pointer" in str(t[1]) or "as_pointer" in str(t[1])):
        return t[2] if not isinstance(t[2], tuple) or (t[2] and isinstance(t[2][0], str)) else t[2][0]
    if t[0] == "insv":
        while t[0] == "insv" and t[1][0] == "insv":
            t = t[1]
        return t[2]
    return t
