"""Every sampled allocation is recorded once and taken back once, with one set of facts."""
from tcm import *
from lib import _
from C04 import pol, kind, uncast, truthy
from C05 import falsy, n_
from C37 import fields

A14 = [a for a in ANCH if a != "^absl::"] + ["^absl::base_internal", "^absl::(Time|Now|GetStackTrace|FormatSpec|MakeSpan|Span)", "SizeMap::", "MallocHook::", "GuardedPage", "PageAlloc", "PageMap", "Span::", "Register", "Unregister",
      "ReportM", "MaybeSave", "TCMallocPolicy", "GetMemoryTag", "BytesToL", "StatsCounter", "SimplifyType", "ReportFree", "heap_partitioning_mode", "IsExpandedSizeClass"]
# StackTrace / SampledAlloc layout, by meaning
ST = {"handle": 0, "req": 8, "align": 16, "alloc": 32, "weight": 48, "time": 56, "start": 80, "hint": 41, "cold": 42, "sret": 40, "guard": 73, "type": 74}
SA = {"handle": 0, "req": 8, "align": 16, "alloc": 32, "weight": 40, "time": 64, "ptr": 80, "hint": 88, "cold": 89}


def run(c):
    c.rule("sample", "a sampled allocation is announced, recorded and attached once, or not at all")
    c.rule("facts", "the record, the announcement and the result describe the same block")
    c.rule("unsample", "freeing detaches the record once and announces the same facts; what was added is taken back")
    c.rule("match", "a free that contradicts the record is reported, not carried out")
    c.rule("span", "attaching and detaching a record are inverse")
    lay = layout(c)
    c.each(c.fns("SampleifyAllocation<", A14, tu=TU, floor=8), lambda f: sample(c, f, lay))
    c.each(c.fns("MaybeUnsampleAllocation<", A14, tu=TU, floor=4), lambda f: unsample(c, f))
    callers(c)
    span(c)


def layout(c):
    return ST, SA


def base_off(t):
    off = 0
    while t[0] == "gep" and not t[3]:
        off += t[2]
        t = t[1]
    return t, off


class Obj:
    """Stores and copies into a local structure."""
    def __init__(self, f, base):
        self.f, self.base = f, base
        self.st = {}
        for w in writes(f):
            if w.kind == "store":
                b, o = base_off(w.addr)
                if b == base:
                    self.st.setdefault(o, []).append((w.val, w.ins))
        self.cp = {}
        for i in f.live("call"):
            if "memcpy" in (i.callee or "") or "memmove" in (i.callee or ""):
                d, s, n = (f.term(x) for x in i.ops[:3])
                b, o = base_off(d)
                if b == base:
                    self.cp[o] = (s, n)

    def vals(self, o):
        return {v for v, _i in self.st.get(o, ())}

    def canon(self, t):
        """t with reads of singly written fields replaced by what was written."""
        if t[0] == "load":
            b, o = base_off(t[1])
            if b == self.base:
                v = self.vals(o)
                return next(iter(v)) if len(v) == 1 else ("field", o)
        if not isinstance(t, tuple):
            return t
        return tuple(self.canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     tuple(self.canon(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else
                           (tuple((self.canon(k) if isinstance(k, tuple) else k, v) for k, v in [y])[0] if isinstance(y, tuple) and len(y) == 2 else y) for y in x) if isinstance(x, tuple) else x
                     for x in t)


CONV = ("uitofp", "sitofp", "fptosi", "fptoui", "zext", "sext", "trunc")


def frac(t):
    """(sign, numerators, denominators) of a floating-point product."""
    s = 1
    while True:
        if t[0] in CONV:
            t = [x for x in t[1:] if isinstance(x, tuple)][-1]
        elif t[0] == "lin" and len(t[1]) == 1 and t[1][0][1] in (1, -1) and t[1][0][0] != 1 and any(x[0] in ("fptoui", "fptosi") for x in [t[1][0][0]]):
            s *= t[1][0][1]
            t = t[1][0][0]
        elif t[0] == "fneg":
            s = -s
            t = t[1]
        else:
            break
    if t[0] in ("fmul", "fdiv"):
        a, b = [x for x in t[1:] if isinstance(x, tuple)][:2]
        s1, n1, d1 = frac(a)
        s2, n2, d2 = frac(b)
        if t[0] == "fdiv":
            n2, d2 = d2, n2
        return s * s1 * s2, sorted(n1 + n2, key=repr), sorted(d1 + d2, key=repr)
    return s, [t], []


def lin(d):
    from paths import lin_of
    r = {}
    for k, v in d:
        for a, b in lin_of(k).items():
            r[a] = r.get(a, 0) + v * b
            if not r[a]:
                del r[a]
    if len(r) == 1 and 1 not in r and list(r.values()) == [1]:
        return next(iter(r))
    return ("lin", tuple(sorted(r.items(), key=repr)))


def same(a, b):
    from paths import lin_of
    return a == b or lin_of(a) == lin_of(b)


def isfrac(t, canon, w, r, extra=None):
    s, n, d = frac(t)
    n = [canon(x) for x in n]
    d = [canon(x) for x in d]
    wantn = [w] + ([extra] if extra else [])
    wantd = [lin([(r, 1), (("int", 1), 1)])]
    return len(n) == len(wantn) and len(d) == 1 and all(any(same(x, y) for y in wantn) for x in n) and all(any(same(y, x) for x in n) for y in wantn) and same(d[0], wantd[0]), s


def sample(c, f, lay):
    p = pol(f.name)
    inst = "%s-%s" % (kind(p), "hot" if "Hot" in f.name else "cold" if "Cold" in f.name else "any")
    n = len(f.args)
    span, cls, wt, req = (("arg", n - 1 - k) for k in range(4))
    ev = {"handle": lambda i: i.op == "atomicrmw" and "handle" in show(f.term(i.ops[0])),
          "hook": lambda i: i.op == "call" and re.search("InvokeSampledNewHook$", i.cshort),
          "alloc": lambda i: i.op == "call" and re.search(r"AllocationSampleList::ReportMalloc$", i.cshort),
          "dealloc": lambda i: i.op == "call" and re.search(r"DeallocationProfilerList::ReportMalloc$", i.cshort),
          "reg": lambda i: i.op == "call" and re.search(r"SampleRecorder::Register$", i.cshort),
          "span": lambda i: i.op == "call" and re.search(r"Span::Sample$", i.cshort),
          "peak": lambda i: i.op == "call" and re.search(r"MaybeSaveSample$", i.cshort),
          "map": lambda i: i.op == "call" and re.search(r"PageMap::Set$", i.cshort),
          "unhook": lambda i: i.op == "call" and re.search("InvokeSampledDeleteHook$|Unregister$|Span::Unsample", i.cshort)}
    at = {k: [i for i in f.live() if i.b not in f.crash and g(i)] for k, g in ev.items()}

    sret = "NonSizeReturning" not in f.name

    def label(i):
        for k, g in ev.items():
            if g(i):
                return k
    P = PF(f, K=64, events=label)
    tr = sites(f, "GuardedPageAllocator::TrySample$")
    pn = sites(f, "PageAllocator::New$")
    sn = sites(f, "Span::New$")
    cs = sites(f, "class_to_size$")
    for k, rx in (("hook", "InvokeSampledNewHook"), ("alloc", "ReportMalloc"), ("dealloc", "ReportMalloc"), ("reg", "SampleRecorder.*::Register"), ("span", "Span::Sample")):
        c.expect(at[k], "sample", k + "-" + inst, f, "a sampled allocation is never passed to %s" % rx, rx, TU)
    if not (at["reg"] and at["hook"]):
        return
    so = Obj(f, f.term(at["reg"][0].ops[1]))
    ho = Obj(f, f.term(at["hook"][0].ops[0]))
    for k in ("alloc", "dealloc", "reg"):
        for i in at[k]:
            c.ob("facts", f.term(i.ops[1]) == so.base, "trace-%s-%s" % (k, inst), i, "is given another record")
    # --- counts and results
    guarded = [("ext", f.term(i), (0,)) for i in tr]
    gstat = [("ext", f.term(i), (1,)) for i in tr]

    def feasible(S):
        """TrySample returns a pointer exactly with the guarded status (C15)"""
        for p_, g in zip(guarded, gstat):
            if entails(S, cmp("eq", g, 10)) and entails(S, cmp("eq", p_, ("null",))):
                return False
            if entails(S, cmp("ne", g, 10)) and entails(S, cmp("ne", p_, ("null",))):
                return False
        return True

    def isguard(S):
        """the guarded allocation succeeded (True), did not (False), was not tried (None)"""
        for g in gstat:
            for x in S:
                if x[0] == "cmp" and g in set(subterms(x)) and x[3][0] == "int":
                    if x[1] == "eq" and x[2] == g:
                        return True
                    if x[1] == "ne" and x[2] == g:
                        return False
        return None
    for r in f.rets:
        for (ptr, cap), S in structs(f, P, r):
            if not feasible(S):
                continue
            if ptr in (("null",), I(0)):
                for k in ("hook", "alloc", "dealloc", "reg", "span"):
                    c.ob("sample", not at[k] or n_(P, S, k) == 0, "none-%s-%s" % (k, inst), f, "a sample whose memory was not obtained is recorded")
                c.ob("sample", any(entails(S, cmp("eq", f.term(i), ("null",))) for i in pn), "why-" + inst, f, "a sampled allocation fails although its memory was obtained")
                continue
            for k in ("hook", "alloc", "dealloc", "reg", "span", "handle", "peak"):
                c.ob("sample", at[k] and n_(P, S, k) == 1, "once-%s-%s" % (k, inst), f, "%s happens %s times for a sample" % (k, n_(P, S, k) if at[k] else 0))
            g = isguard(S)
            large = entails(S, cmp("eq", cls, 0))
            small = entails(S, cmp("ne", cls, 0))
            c.ob("facts", large or small, "kind-" + inst, f, "mixes small and large samples")
            if g:
                c.ob("facts", ptr in guarded, "ptr-guarded-" + inst, f, "returns another pointer than the guarded one")
                c.ob("facts", same(cap, req), "cap-guarded-" + inst, f, "returns capacity the guard does not allow: " + show(cap)[:50])
                c.ob("sample", n_(P, S, "map") == 1 if at["map"] else False, "map-" + inst, f, "a guarded block's page is not mapped to its span")
            else:
                ok = ptr[0] == "call" and ptr[1].endswith("start_address")
                c.ob("facts", ok, "ptr-" + inst, f, "returns something else than the span's start")
                if ok:
                    for sv, G in cases(f, ptr[2][-1] if isinstance(ptr[2], tuple) and ptr[2] and isinstance(ptr[2][0], tuple) else ptr[2], S):
                        want = [span] if large else [f.term(i) for i in pn]
                        c.ob("facts", sv in want, "start-" + inst, f, "returns the start of another span")
                cc = so.canon(uncast(cap))
                if large:
                    ok = cc == ("field", ST["alloc"]) or (cc[0] == "call" and "bytes_in_span" in cc[1] and span in set(subterms(cc)))
                else:
                    ok = cc == ("field", ST["alloc"]) or cc in [f.term(i) for i in cs]
                c.ob("facts", ok, "cap-" + inst, f, "returns another capacity: " + show(cap)[:60])
    # --- the span that the record is attached to
    for i in at["span"]:
        for S in P.at(i):
            c.ob("facts", f.term(i.ops[1]) in {f.term(j) for j in at["reg"]}, "rec-" + inst, i, "attaches another record")
            g = isguard(S)
            for sv, G in cases(f, f.term(i.ops[0]), S):
                want = [f.term(j) for j in sn] if g else [span] if entails(G, cmp("eq", cls, 0)) else [f.term(j) for j in pn]
                c.ob("facts", sv in want, "attach-" + inst, i, "attaches the record to another span")
    for i in at["map"]:
        a = args(f, i)
        c.ob("facts", len(a) == 3 and a[2] in {f.term(j) for j in sn} and any(g in set(subterms(a[1])) for g in guarded), "map-" + inst, i, "maps another page or span")
    for i in sn:
        c.ob("facts", any(g in set(subterms(f.term(o))) for o in i.ops for g in guarded), "gspan-" + inst, i, "the guarded block's span covers another page")
    # --- memory
    np_ = [i for i in sites(f, "BytesToLengthCeil$")]

    def pages(t):
        t = so.canon(uncast(t))
        if t[0] == "call" and "BytesToLengthCeil" in t[1]:
            x = so.canon(t[2][-1] if isinstance(t[2][0], tuple) else t[2])
            return x == ("field", ST["alloc"]) or x in [f.term(i) for i in cs]
        return False
    for i in tr:
        a = [so.canon(f.term(o)) for o in i.ops]
        c.ob("facts", a[1] == req, "gsize-" + inst, i, "guards another size")
        c.ob("facts", a[2][0] in ("call", "int") or a[2][0] == "arg", "galign-" + inst, i, "guards another alignment")
        c.ob("facts", pages(f.term(i.ops[3])), "gpages-" + inst, i, "guards another number of pages")
        c.ob("facts", f.term(i.ops[4]) == so.base, "gtrace-" + inst, i, "the guard is given another record")
        for S in P.at(i):
            c.ob("facts", entails(S, cmp("ne", cls, 0)), "gsmall-" + inst, i, "guards a large block")
    for i in pn:
        a = args(f, i)
        c.ob("facts", pages(a[1]), "npages-" + inst, i, "obtains another number of pages")
        c.ob("facts", uncast(a[2]) == I(1), "nobj-" + inst, i, "obtains a span for several objects")
        for S in P.at(i):
            for t, G in cases(f, a[-1], S):
                hm = [x for x in G if x[0] == "cmp" and x[1] == "eq" and "heap_partitioning_mode" in show(x[2])]
                if t[0] == "cmp":
                    part = t
                    c.ob("facts", "partition" in show(t) and t[1] == "eq" and t[3] == I(1) and bool(hm), "tag-" + inst, i, "tag " + show(t)[:50])
                elif t == I(1):
                    c.ob("facts", bool(hm), "tag-" + inst, i, "uses the second sampled tag without partitioning")
                else:
                    c.ob("facts", t == I(0), "tag-" + inst, i, "a sample gets memory that is not tagged as sampled: " + show(t)[:40])
            c.ob("facts", isguard(S) is False, "alone-" + inst, i, "obtains pages for a block that is guarded")
    # --- record contents
    single = {"req": [req], "weight": [wt]}
    for k, w in single.items():
        c.ob("facts", so.vals(ST[k]) == set(w), "%s-%s" % (k, inst), f, "the record holds another value for " + k)
    h = so.vals(ST["handle"]) - {I(0)}
    c.ob("facts", len(h) == 1 and any(x[0] == "rmw" for x in subterms(next(iter(h)))), "handle-" + inst, f, "the record's handle is not fresh")
    for i in at["handle"]:
        c.ob("facts", i.d.get("rmw", i.d.get("kind", "add")) == "add" or "rmw(add" in show(f.term(i)), "fresh-" + inst, i, "handles repeat")
        c.ob("facts", f.term(i.ops[1]) == I(1) or f.term(i.ops[1])[0] == "int" and f.term(i.ops[1])[1] != 0, "fresh-" + inst, i, "handles repeat")
    for v, i in so.st.get(ST["alloc"], ()):
        if v == I(0) and i.b == f.blocks[0][0].b:
            continue
        for S in P.at(i):
            large, small = entails(S, cmp("eq", cls, 0)), entails(S, cmp("ne", cls, 0))
            if v in [f.term(j) for j in cs]:
                ok = small and uncast(args(f, [j for j in cs if f.term(j) == v][0])[1]) == cls
            elif v[0] == "call" and "bytes_in_span" in v[1]:
                ok = large and span in set(subterms(v))
            elif v == req:
                ok = isguard(S) is True and (sret or any(x[0] == "call" and x[1].endswith("size_returning") or (x[0] == "cmp" and "size_returning" in show(x)) for x in S))
            else:
                ok = False
            c.ob("facts", ok, "alloc-" + inst, i, "the record holds another real size: " + show(v)[:50])
    sv = so.vals(ST["start"]) - {("null",)}
    c.ob("facts", len(sv) == 1 and next(iter(sv))[0] == "call" and next(iter(sv))[1].endswith("start_address"), "start-rec-" + inst, f, "the record holds another address")
    gv = so.vals(ST["guard"]) - {I(0)}
    for v, i in so.st.get(ST["guard"], ()):
        for S in P.at(i):
            for x, G in cases(f, v, S):
                g = isguard(G)
                if g:
                    c.ob("facts", x in gstat or (x[0] == "int" and any(entails(G, cmp("eq", s, x[1])) for s in gstat)), "guard-" + inst, i, "the record does not say it is guarded")
                elif g is False:
                    c.ob("facts", x in gstat, "guard-" + inst, i, "the record holds another guard status")
    # --- announcement
    for k in ("handle", "req", "alloc", "hint", "cold"):
        a, b = ho.vals(SA[k]), so.vals(ST[k])
        ok = len(a) == 1
        if ok:
            t = ho.canon(next(iter(a)))
            x = uncast(t)
            ok = False
            for y in (t, x):
                if y[0] == "load" and base_off(y[1]) == (so.base, ST[k]):
                    ok = True
                if {y} == b or {uncast(z) for z in b} == {y}:
                    ok = True
                if any(z[0] == "load" and base_off(z[1]) == (so.base, ST[k]) for z in subterms(y)) and k in ("cold",):
                    ok = True
        c.ob("facts", ok, "hook-%s-%s" % (k, inst), at["hook"][0], "the announcement's %s is not the record's" % k)
    for k in ("align", "time"):
        s = ho.cp.get(SA[k])
        ok = s is not None and base_off(s[0]) == (so.base, ST[k]) and s[1][0] == "int" and s[1][1] >= 12
        ok = ok or bool(ho.vals(SA[k])) and {so.canon(x) for x in ho.vals(SA[k])} <= (so.vals(ST[k]) | {("field", ST[k])} | {so.canon(x) for x in so.vals(ST[k])})
        c.ob("facts", ok, "hook-%s-%s" % (k, inst), at["hook"][0], "the announcement's %s is not the record's" % k)
    w = ho.vals(SA["weight"])
    ok = len(w) == 1 and isfrac(next(iter(w)), so.canon, wt, req) == (True, 1)
    c.ob("facts", ok, "hook-weight-" + inst, at["hook"][0], "the announced weight is not weight / (size + 1)")
    for S in P.at(at["hook"][0]):
        for v in ho.vals(SA["ptr"]):
            for x, G in cases(f, v, S):
                if not feasible(G):
                    continue
                g = isguard(G)
                y = so.canon(x)
                if g:
                    ok = x in guarded
                else:
                    ok = y[0] == "call" and y[1].endswith("start_address") or y == ("field", ST["start"])
                c.ob("facts", ok, "hook-ptr-" + inst, at["hook"][0], "announces another pointer")
    # everything announced is written before
    for k in ("alloc", "dealloc", "reg", "hook"):
        for i in at[k]:
            for off in ("handle", "start", "type", "guard"):
                ws = [j for v, j in so.st.get(ST[off], ()) if not (v in (I(0), ("null",)) and j.b == 0)]
                c.ob("facts", ws and any(f.dom(j, i) for j in ws), "before-%s-%s-%s" % (k, off, inst), i, "the record is used before its %s is known" % off)
    # --- fragmentation
    fr = [i for i in sites(f, "StatsCounter::Add$") if "fragmentation" in show(f.term(i.ops[0]))]
    c.expect(fr, "unsample", "frag-add-" + inst, f, "fragmentation is never added", "StatsCounter", TU)
    for i in fr:
        t = f.term(i.ops[1])
        ok = isfrac(t, so.canon, wt, req, lin([(("field", ST["alloc"]), 1), (req, -1)]))
        c.ob("unsample", ok == (True, 1), "frag-add-" + inst, i, "adds another fragmentation estimate")


def rec(t, name):
    """t reads the named field of the detached record."""
    return t[0] == "load" and show(t[1]).endswith("->" + name) and "Span::Unsample" in show(t[1])


def points(v, u):
    """v is computed from u's address, not from what it holds"""
    if v == u:
        return True
    return v[0] != "load" and any(points(x, u) for x in v if isinstance(x, tuple) and x)


def unsample(c, f):
    p = pol(f.name)
    inst = kind(p) + ("-new" if "New" in f.name else "")
    un = sites(f, "Span::Unsample$")
    c.expect(un, "unsample", "detach-" + inst, f, "the record is never detached", "Span::Unsample", TU)
    if not un:
        return
    u = f.term(un[0])
    hk = sites(f, "InvokeSampledDeleteHook$")
    rf = sites(f, "ReportFree$")
    rg = sites(f, "SampleRecorder::Unregister$")
    fr = [i for i in sites(f, "StatsCounter::Add$") if "fragmentation" in show(f.term(i.ops[0]))]
    for k, s, rx in (("hook", hk, "InvokeSampledDeleteHook"), ("report", rf, "ReportFree"), ("unregister", rg, "Unregister")):
        c.expect(s, "unsample", k + "-" + inst, f, "a sample's end is never passed to " + rx, rx, TU)
    if not (hk and rf and rg):
        return
    P = PF(f, K=96, events=lambda i: "u" if i in un else "h" if i in hk else "f" if i in rf else "g" if i in rg else "a" if i in fr else None)
    n = len(f.args)
    lds = {f.term(i) for i in f.live("load")}
    rq, al = ([x for x in lds if rec(x, k)] for k in ("requested_size", "allocated_size"))
    for S in [s for r in f.rets for s in P.at(r)]:
        c.ob("unsample", n_(P, S, "u") == 1, "detach-" + inst, f, "the record is detached %s times" % n_(P, S, "u"))
        if entails(S, cmp("eq", u, ("null",))):
            for k in "hfg" + ("a" if fr else ""):
                c.ob("unsample", n_(P, S, k) == 0, "none-%s-%s" % (k, inst), f, "an unsampled block is announced as sampled")
        else:
            for k in "hfg":
                c.ob("unsample", n_(P, S, k) == 1 and entails(S, cmp("ne", u, ("null",))), "once-%s-%s" % (k, inst), f, "a sample's end is announced %s times" % n_(P, S, k))
            if fr:
                c.ob("unsample", n_(P, S, "a") == 1 or any(entails(S, cmp("ule", A, R)) for A in al for R in rq), "frag-" + inst, f, "fragmentation is not taken back")
    c.expect(fr, "unsample", "frag-sub-" + inst, f, "fragmentation is never taken back", "StatsCounter", TU)
    for i in fr:
        t = f.term(i.ops[1])
        s, nn, dd = frac(t)
        ok = s == -1 and len(nn) == 2 and len(dd) == 1
        if ok:
            W = [x for x in nn if rec(x, "weight")]
            D = [x for x in nn if not rec(x, "weight")]
            R = [y for y in subterms(dd[0]) if rec(y, "requested_size")]
            A = [y for x in D for y in subterms(x) if rec(y, "allocated_size")]
            ok = len(W) == 1 and R and A and same(dd[0], lin([(R[0], 1), (I(1), 1)])) and same(D[0], lin([(A[0], 1), (R[0], -1)]))
        c.ob("unsample", bool(ok), "frag-sub-" + inst, i, "takes back another fragmentation estimate")
    for i in rg:
        c.ob("unsample", f.term(i.ops[1]) == u, "rec-" + inst, i, "releases another record")
    # no field of the record is read once it is released
    for i in f.live("load"):
        t = f.term(i)
        if u in set(subterms(t)):
            for g in rg:
                c.ob("unsample", not reach(f, g, i), "after-" + inst, i, "the record is read after it was released")
    for i in rf:
        c.ob("unsample", rec(f.term(i.ops[1]), "sampled_alloc_handle"), "handle-" + inst, i, "reports the end of another sample")
    ho = Obj(f, f.term(hk[0].ops[0]))
    for k, name in (("handle", "sampled_alloc_handle"), ("req", "requested_size"), ("alloc", "allocated_size"), ("hint", "access_hint"), ("cold", "cold_allocated")):
        v = ho.vals(SA[k])
        ok = len(v) == 1 and (rec(uncast(next(iter(v))), name) or (k == "cold" and any(rec(y, name) for y in subterms(next(iter(v))))))
        c.ob("unsample", ok, "hook-%s-%s" % (k, inst), hk[0], "the announcement's %s is not the record's" % name)
    for k, name in (("align", "requested_alignment"), ("time", "allocation_time")):
        s = ho.cp.get(SA[k])
        ok = s is not None and show(s[0]).endswith("->" + name) or any(any(name in show(y) for y in subterms(x)) for x in ho.vals(SA[k]))
        c.ob("unsample", ok, "hook-%s-%s" % (k, inst), hk[0], "the announcement's %s is not the record's" % name)
    into = [v for o in ho.st for v in ho.vals(o) if points(v, u)]
    for g in rg:
        c.ob("unsample", not (into and any(reach(f, g, h) for h in hk)), "stack-" + inst, hk[0], "the announcement refers to a record that is already released for reuse")
    c.ob("unsample", ho.vals(SA["ptr"]) == {("arg", n - 4)} or ho.vals(SA["ptr"]) == {("arg", 1)}, "hook-ptr-" + inst, hk[0], "announces another pointer")
    for v in ho.vals(SA["weight"]) or {None}:
        ok = False
        if v:
            s, nn, dd = frac(v)
            ok = s == 1 and len(nn) == 1 and rec(nn[0], "weight") and len(dd) == 1 and any(same(dd[0], lin([(y, 1), (I(1), 1)])) for y in subterms(dd[0]) if rec(y, "requested_size"))
        c.ob("unsample", ok, "hook-weight-" + inst, hk[0], "the announced weight is not weight / (size + 1)")
    match(c, f, P, u, rg, un, inst, n)


def reach(f, a, b):
    if a.b == b.b and a.idx < b.idx:
        return True
    seen, todo = set(), list(f.succ[a.b])
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += f.succ[x]
    return b.b in seen


def match(c, f, P, u, rg, un, inst, n):
    size, has, span = ("arg", n - 3), ("arg", n - 2), ("arg", n - 1)
    ptr = ("arg", n - 4)
    for i in rg:
        for S in P.at(i):
            fields_ = {}
            for x in S:
                for y in subterms(x):
                    for nm in ("requested_size", "allocated_size", "requested_size_returning", "allocation_type", "guarded_status"):
                        if rec(y, nm):
                            fields_.setdefault(nm, y)
            R, A = fields_.get("requested_size"), fields_.get("allocated_size")
            if not falsy(S, has):
                ok = False
                if R is not None:
                    ok = entails(S, cmp("eq", size, R)) and True
                    rt = fields_.get("requested_size_returning")
                    if not ok and A is not None and rt is not None:
                        ok = entails(S, cmp("ule", R, size)) and entails(S, cmp("ule", size, A)) and truthy(S, rt)
                c.ob("match", ok, "size-" + inst, i, "a free with a size that contradicts the record is carried out")
            st = [x for x in S if x[0] == "cmp" and x[1] == "eq" and "SimplifyType" in show(x[2]) and "SimplifyType" in show(x[3])]
            ok = any(("allocation_type->" in show(x) or "->allocation_type" in show(x)) for x in st)
            ty = fields_.get("allocation_type")
            ok = ok or (ty is not None and any(x[0] == "cmp" and x[1] == "eq" and ty in x[2:] for x in S))
            c.ob("match", ok, "type-" + inst, i, "a block is freed by the other family of functions")
            ok = any(x[0] == "cmp" and x[1] == "eq" and ptr in x[2:] and "start_address" in show(x[2]) + show(x[3]) for x in S)
            g = fields_.get("guarded_status")
            ok = ok or (g is not None and any(x[0] == "cmp" and x[1] == "eq" and g in x[2:] for x in S))
            c.ob("match", ok, "addr-" + inst, i, "a free of an address inside a block is carried out")
    # unsampled: the given size must fit the span
    for r in f.rets:
        for S in P.at(r):
            if entails(S, cmp("eq", u, ("null",))) and not falsy(S, has):
                b = [y for x in S for y in subterms(x) if y[0] == "call" and y[1].endswith("bytes_in_span")]
                ok = False
                if b:
                    b = b[0]
                    up = entails(S, cmp("ule", size, b))
                    lo = any(entails(S, cmp("ule", lin([(b, 1), (I(-k), 1)]), size)) for k in (4095, 8191, 32767, 262143))
                    zero = entails(S, cmp("eq", size, 0)) and any(x[0] == "cmp" and x[1] == "eq" and x[2] == b and x[3][0] == "int" for x in S)
                    ok = up and lo or zero
                c.ob("match", ok, "unsampled-" + inst, f, "a free with a size that does not fit the span is carried out")


def callers(c):
    """The sample's weight and size reach the recorder, and both ends are wired."""
    for f in c.fns("do_malloc_pages<", A14 + ["SampleLargeAllocation", "SampleifyAllocation"], tu=TU, floor=8):
        inst = kind(pol(f.name))
        s = sites(f, "SampleLargeAllocation$|SampleifyAllocation$")
        c.expect(s, "sample", "large-" + inst, f, "large allocations are never sampled", "Sample(Large|ify)Allocation", TU)
        P = PF(f, K=32)
        w = ("arg", 1)
        for i in s:
            a = [f.term(o) for o in i.ops]
            c.ob("facts", ("arg", 0) in a and w in a, "large-args-" + inst, i, "samples another size or weight")
            for S in P.at(i):
                c.ob("sample", entails(S, cmp("ne", w, 0)), "large-w-" + inst, i, "samples an allocation that was not picked")
        pn = sites(f, "PageAllocator::New(Aligned)?$")
        for t, S in P.rets():
            pass


def span(c):
    A = ["AllocatedBytes", "StatsCounter", "num_pages"]
    tu = "tcmalloc/span.cc"
    for nm, on in (("Sample", True), ("UnsampleSlow", False)):
        f = c.fn(r"Span::%s\(" % nm, A, tu=tu)
        inst = nm
        ad = sites(f, "StatsCounter::Add$")
        so = [i for i in ad if "sampled_objects_size_" in show(f.term(i.ops[0]))]
        c.expect(so, "span", "size-" + inst, f, "the live sampled size is not kept", "StatsCounter", tu)
        P = PF(f, K=16, events=lambda i: "s" if i in so else None)
        for t, S in P.rets():
            c.ob("span", n_(P, S, "s") == 1, "size-" + inst, f, "the live sampled size is changed %s times" % n_(P, S, "s"))
        sgn = set()
        for i in so:
            v = f.term(i.ops[1])
            neg = v[0] == "lin" and v[1][0][1] == -1
            x = v[1][0][0] if v[0] == "lin" and len(v[1]) == 1 else v
            while x[0] in CONV:
                x = [y for y in x[1:] if isinstance(y, tuple)][-1]
            c.ob("span", x[0] == "call" and "AllocatedBytes" in x[1] and neg == (not on), "amount-" + inst, i, "changes the live sampled size by another amount: " + show(v)[:60])
        recw = [w for w in writes(f) if w.kind == "store" and "sampled_allocation" in show(w.addr)]
        if on:
            c.ob("span", any(w.val == ("arg", 1) for w in recw) and all(w.val == ("arg", 1) for w in recw), "record-" + inst, f, "another record is attached")
        else:
            c.ob("span", recw and all(w.val == ("null",) for w in recw), "record-" + inst, f, "the record stays attached")
            for t, S in P.rets():
                c.ob("span", t[0] == "load" and "sampled_allocation" in show(t), "result-" + inst, f, "another record is returned")
        fl = [w for w in writes(f) if w.kind == "store" and "first_page_" in show(w.addr) or w.kind == "store" and "sampled_" == show(w.addr).split("->")[-1]]
        c.ob("span", bool(fl), "flag-" + inst, f, "the span's sampled flag is not changed")
        for w in fl:
            s = show(w.val)
            c.ob("span", ("or" in s) == on and (on or "and(" in s), "flag-" + inst, w.ins, "the span's sampled flag is set wrongly: " + s[:60])
    f = c.fn(r"Span::Unsample\(\)", ["UnsampleSlow"], tu=TU)
    P = PF(f, K=8)
    us = sites(f, "UnsampleSlow$")
    for t, S in P.rets():
        for v, G in cases(f, t, S):
            fl = [x for x in G if x[0] == "cmp" and x[2][0] == "and" and "first_page_" in show(x[2])]
            if v == ("null",):
                c.ob("span", any(x[1] == "eq" for x in fl), "fast", f, "a sampled span yields no record")
            else:
                c.ob("span", v in {f.term(i) for i in us}, "fast", f, "another record is returned")
