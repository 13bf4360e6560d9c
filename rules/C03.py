"""realloc keeps the contents, frees the old block once and only on success."""
from tcm import *
from lib import _

OLD = ("arg", 0)


def chain(S, t):
    """Terms equal to t under S (transitively)."""
    out, todo = {t}, [t]
    while todo:
        x = todo.pop()
        for f in S:
            if f[0] == "cmp" and f[1] == "eq" and x in (f[2], f[3]):
                for y in (f[2], f[3]):
                    if y not in out:
                        out.add(y)
                        todo.append(y)
    return out


def cnt(P, S, e):
    n = P.count(S, e)
    return n[0] if isinstance(n, tuple) else n


def run(c):
    c.rule("route", "realloc of null allocates, realloc to zero frees and returns null, anything else reallocates the given block to the given size")
    c.rule("copy", "a moved block receives exactly the first min(old size, new size) bytes of the old one")
    c.rule("free", "the old block is freed exactly once, after the copy, and only when the new block exists")
    c.rule("keep", "a block is kept in place only when its size already is the one the new request would get")
    E = entries(c, {k: v for k, v in ALLOC.items() if role(k) in ("realloc", "reallocarray")})
    for n, f in E.items():
        spec = ALLOC[n][0]
        arr = isinstance(spec, tuple)

        def issz(t):
            return is_product(t, ("arg", spec[0]), ("arg", spec[1])) if arr else t == ("arg", spec)
        al, fr, re_ = sites(f, "fast_alloc$"), sites(f, "do_free$"), sites(f, "do_realloc$")
        c.expect(al, "route", "calls-" + n, f, "never allocates", "fast_alloc<", TU)
        c.expect(fr, "free", "calls-" + n, f, "never frees the block", "do_free<", TU)
        c.expect(re_, "route", "calls-" + n, f, "never reallocates", "do_realloc", TU)
        P = PF(f, K=64, events=lambda i: ["alloc"] if i in al else ["free"] if i in fr else ["re"] if i in re_ else None)
        szs = {a for i in al + re_ for a in [args(f, i)[1 if i in re_ else 0]] if issz(a)} | ({("arg", spec)} if not arr else set())

        def zero(S):
            return any(entails(S, cmp("eq", z, 0)) for z in szs) or (arr and any(entails(S, cmp("eq", ("arg", k), 0)) for k in spec))

        def nonzero(S):
            return any(entails(S, cmp("ne", z, 0)) for z in szs)
        for i in al:
            for S in P.at(i):
                c.ob("route", entails(S, cmp("eq", OLD, ("null",))), "malloc-" + n, i, "allocates a fresh block although a block was given")
        for i in fr:
            c.ob("free", f.term(i.ops[0]) == OLD, "which-" + n, i, "frees something else than the given block")
            for S in P.at(i):
                c.ob("free", zero(S) and entails(S, cmp("ne", OLD, ("null",))), "zero-" + n, i, "frees the block although the new size is not zero")
        for i in re_:
            a = args(f, i)
            c.ob("route", a[0] == OLD and issz(a[1]), "args-" + n, i, "reallocates something else than asked")
            for S in P.at(i):
                c.ob("route", nonzero(S) and entails(S, cmp("ne", OLD, ("null",))), "re-" + n, i, "reallocates a null block or to size zero")
        av, rv = {f.term(i) for i in al}, {f.term(i) for i in re_}
        hv = {f.term(i) for i in sites(f, "handle_oom$")}
        for t, S in P.rets():
            k = tuple(cnt(P, S, e) for e in ("alloc", "free", "re"))
            if t in av:
                c.ob("route", k == (1, 0, 0), "one-" + n, f, "does more than allocate")
            elif t in rv:
                c.ob("route", k == (0, 0, 1), "one-" + n, f, "does more than reallocate")
            elif t in hv:
                c.ob("free", k == (0, 0, 0), "oom-" + n, f, "touches the block although the request failed")
            else:
                c.ob("route", t in (("null",), ("int", 0)) and k == (0, 1, 0), "one-" + n, f, "returns %s after %s (alloc, free, realloc)" % (show(t), k))
    for f in c.fns("^do_realloc", ANCH + ["SizeMap::GetSizeClass", "BytesToLengthCeil"], tu=TU):
        core(c, f)


def core(c, f):
    al = sites(f, "fast_alloc$")
    fr = sites(f, "do_free$")
    cp = sites(f, r"llvm\.mem(cpy|move)|^mem(cpy|move)")
    gs = sites(f, "GetSize(AndSampled)?$")
    c.expect(al, "route", "core-alloc", f, "never allocates", "fast_alloc<", TU)
    c.expect(fr, "free", "core-free", f, "never frees the old block", "do_free<", TU)
    c.ob("copy", cp, "core-copy", f, "never copies the contents")
    c.need(gs, "old size of do_realloc")
    olds = set()
    for g in gs:
        c.ob("copy", f.term(g.ops[0]) == OLD, "size-of", g, "measures another block")
        olds |= {f.term(g), ("ext", f.term(g), (0,))}
    P = PF(f, K=128, events=lambda i: ["alloc"] if i in al else ["free"] if i in fr else ["copy"] if i in cp else None)
    news = {f.term(i) for i in al}
    for i in al:
        c.ob("route", f.term(i.ops[0]) == ("arg", 1), "new-size", i, "allocates a different size than asked")
        c.ob("route", policy(i)[0] in ("Malloc",), "policy", i, "realloc uses another failure policy")
    for i in cp:
        a = args(f, i)
        c.ob("copy", a[0] in news and a[1] == OLD, "ends", i, "copies between the wrong blocks")
        for S in P.at(i):
            for v, F in cases(f, a[2], S):
                isold = bool(chain(F, v) & olds)
                isnew = ("arg", 1) in chain(F, v)
                o = next((x for x in olds if x[0] == "ext"), None)
                ok = (isold and any(entails(F, cmp("ule", x, ("arg", 1))) or entails(F, cmp("ult", x, ("arg", 1))) for x in olds)) or \
                     (isnew and any(entails(F, cmp("ule", ("arg", 1), x)) or entails(F, cmp("uge", x, ("arg", 1))) for x in olds))
                c.ob("copy", ok, "length", i, "copies %s bytes" % show(v))
            c.ob("copy", any(entails(S, cmp("ne", x, ("null",))) for x in news), "nonnull", i, "copies into a block that may be null")
            c.ob("copy", cnt(P, S, "free") == 0, "before-free", i, "copies after the old block was freed")
    for i in fr:
        c.ob("free", f.term(i.ops[0]) == OLD, "which", i, "frees something else than the old block")
        for S in P.at(i):
            c.ob("free", cnt(P, S, "free") == 0, "once", i, "frees the old block twice")
            c.ob("free", any(entails(S, cmp("ne", x, ("null",))) for x in news), "success", i, "frees the old block although the new one may be null")
    for t, S in P.rets():
        k = tuple(cnt(P, S, e) for e in ("alloc", "copy", "free"))
        if t in news and not any(entails(S, cmp("eq", x, ("null",))) for x in news):
            c.ob("free", k == (1, 1, 1), "moved", f, "returns the new block after %s (alloc, copy, free)" % (k,))
        elif t in news or t in (("null",), ("int", 0)):
            c.ob("free", k == (1, 0, 0), "failed", f, "touches the old block although no new block was obtained %s" % (k,))
        elif t == OLD:
            c.ob("keep", k == (0, 0, 0), "inplace-pure", f, "keeps the block after %s (alloc, copy, free)" % (k,))
            eq = set()
            for o in olds:
                eq |= chain(S, o)
            c.ob("keep", any(fits(f, x, S) for x in eq), "inplace", f, "keeps the block although the new request would get another size")
        else:
            c.ob("route", False, "result", f, "returns %s" % show(t))


def fits(f, t, S):
    """t is the capacity a fresh request of arg1 bytes would get."""
    N = ("arg", 1)
    s = show(t)
    if t[0] == "call" and "class_to_size" in t[1]:
        return any(x[0] == "call" and "GetSizeClass" in x[1] and x[2][-1] == N for x in subterms(t))
    if t[0] == "lin" or t[0] in ("shl", "mul"):
        if any(x[0] == "call" and "BytesToLengthCeil" in x[1] and x[2][-1] == N for x in subterms(t)):
            return True
        # pages * page size, pages = ceil(N / page size)
        return any(x[0] in ("lshr", "udiv") and x[1] == N for x in subterms(t)) and any(x[0] == "and" and N in x for x in subterms(t))
    if t[0] == "call" and "in_bytes" in t[1]:
        return any(x == N for x in subterms(t))
    if t[0] == "load" or "class_to_size_" in s:
        return N in set(subterms(t)) or "phi" in s
    return False
