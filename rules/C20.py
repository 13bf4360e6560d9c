"""Memory limits: when the heap is over its limit what is too much is released, and a hard limit that cannot be kept ends the process."""
from tcm import *
from C09 import nrm, mk
from C19 import plus
from C43 import lf, sub
import C44
from C44 import spaths, A

ANCH = ["CheckFailed", "^absl::", "SpinLock", "HugePageAwareAllocator<", "LogImpl", "CrashWith", "PageAllocator::InvokeReleaseHook", r"PageAllocator::ReleaseAtLeastNPages\(",
        r"PageAllocator::ShrinkHardBy\(", r"PageAllocator::ShrinkToUsageLimit\(", r"PageAllocator::stats\(", "PageAllocator::active_partitions", "StatsCounter", "metadata_bytes", "Parameters"]
MAX = I(-1)
HPAA = 1
HARD_REASON, SOFT_REASON = 3, 2


def run(c):
    c.rule("limit", "a heap within its limit is left alone; one that is over it has the whole overage released, and a hard limit that still is not kept is never returned from")
    c.rule("hits", "each time a limit is hit, and each time that releasing was enough, is counted once for that limit")
    c.rule("remain", "each part of the heap is asked for exactly what is still wanted, for the same reason")
    c.rule("sum", "what is reported as released is the sum of what the parts released, and success is that it covers what was wanted")
    c.rule("every", "every part of the heap is asked before giving up, and every part is counted in the totals")
    c.rule("break", "huge pages are broken up only after whole ones did not suffice, and for a hard limit only when subrelease is enabled")
    R = r"^tcmalloc::tcmalloc_internal::PageAllocator::%s\([^()]*\)( const)?$"
    for n, g in (("ShrinkToUsageLimit", shrink), ("ShrinkHardBy", hard), ("ReleaseAtLeastNPages", atleast), ("stats", stats)):
        fs = list(c.fns(R % n, [x for x in ANCH if not x.startswith("PageAllocator::" + n)], floor=1))
        c.need(fs, "no PageAllocator::" + n)
        for f in fs:
            g(c, f)
    c.rule("grow", "each time the heap hands out pages that it took from the system, or may have, the limit is looked at before they are used")
    H = r"^tcmalloc::tcmalloc_internal::(huge_page_allocator_internal::)?HugePageAwareAllocator<.*>::"
    for n in ("New", "NewAligned"):
        fs = list(c.fns(H + n + r"\([^()]*\)( const)?$", [x for x in C44.ANCH if not x.endswith(n)], floor=1))
        c.need(fs, "no HugePageAwareAllocator::" + n)
        for f in fs:
            grow(c, f)
    fs = list(c.fns(r"^tcmalloc::tcmalloc_internal::.*StaticForwarder::ShrinkToUsageLimit\([^()]*\)$", [r"PageAllocator::ShrinkToUsageLimit\(", "CheckFailed"], floor=1))
    c.need(fs, "no StaticForwarder::ShrinkToUsageLimit")
    for f in fs:
        for h, p in spaths(f):
            l = p.name("PageAllocator::ShrinkToUsageLimit")
            c.ob("grow", len(l) == 1 and lf(p.args(l[0])[1]) == {A[0]: 1}, "passed-on", f, "the limit is not checked once for the pages given")


def grow(c, f):
    n = 0
    for h, p in spaths(f):
        if p.end[0] != "ret" or not p.name("PageAllocInfo::RecordAlloc"):
            continue
        n += 1
        got = p.name("HugeCache::Get", "AddRegion", "HugePageFiller::TryGet", "HugeRegionSet::MaybeGet")
        lim = p.name("StaticForwarder::ShrinkToUsageLimit")
        sp = p.name("::NewSpan")
        last = max([p.ix(i) for i in got if not i.cshort.endswith("TryGet")] or [-1])
        c.ob("grow", any(p.ix(i) > last for i in lim), "checked", f, "pages are handed out and the limit is not looked at")
        c.ob("grow", all(p.ix(i) < p.ix(s) for i in lim[-1:] for s in sp), "before", f, "the limit is looked at only after a span was made of the pages")
        for i in lim:
            c.ob("grow", plus(lf(p.args(i)[-1]), lf(A[1]), -1) == {} or len(p.args(i)) and bool(lf(p.args(i)[-1])), "pages", f, "")
    c.ob("grow", n > 0, "any", f, "no path hands out pages")


def part(t):
    """which part of the heap an address term is: (name, index)"""
    if t[0] == "load":
        t = t[1]
    b = t
    if t[0] == "call" and "operator[]" in t[1]:
        k, b = t[2][1], t[2][0]
    elif t[0] == "idx" or t[0] == "gep":
        k, b = None, t[1]
        if t[0] == "gep" and len(t) > 2 and isinstance(t[2], int):
            d = {1: t[2] // 8} if t[2] else {}
            for x in t[3]:
                if isinstance(x, tuple) and len(x) == 2 and 8 in x:
                    d = plus(d, lf(x[0] if x[1] == 8 else x[1]))
            k = mk(d)
    else:
        k = I(0)
    if k is None:
        return None
    fl = [x for x in sub(b) if x[0] == "fld" and x[3] in (A[0], A[1])]
    for x in fl:
        if x[2].endswith("_impl_") and not x[2].startswith("has"):
            return x[2].split("_")[0], k
    return None


def cell(p, name, k):
    """address of an element of a limit array"""
    r = []
    for a in list(p.last) + [x[1] for q, t, b in p.F for y in (t, b) for x in sub(y) if x[0] == "load"]:
        fl = [x for x in sub(a) if x[0] == "fld" and x[2] == name and x[3] == A[0]]
        if fl and (a == fl[0]) == (k == 0) and (k == 0 or a == ("gep", fl[0], 8 * k, ()) or a[0] in ("gep", "idx")):
            return a
    return None


# -- ShrinkToUsageLimit -------------------------------------------------------
def ceil(t, d):
    """t is d bytes rounded up to pages"""
    L = lf(t)
    sh = [k for k in L if isinstance(k, tuple) and k[0] == "lshr" and k[2] == I(13)]
    if len(sh) != 1 or any(v != 1 for v in L.values()):
        return False
    x = lf(sh[0][1])
    if len(L) == 1:
        return plus(x, plus(d, {1: 8191}), -1) == {}
    o = [k for k in L if k != sh[0]]
    if len(o) != 1 or plus(x, d, -1) != {} or not isinstance(o[0], tuple) or o[0][0] != "cmp":
        return False
    q, a, b = o[0][1:]
    a, b = (b, a) if a == I(0) else (a, b)
    return b == I(0) and q in ("ne", "ugt") and a[0] == "and" and I(8191) in a[1:] and any(plus(lf(z), d, -1) == {} for z in a[1:])


def backing(p):
    """each reading of what the system backs: (call, term)"""
    out = []
    md = [i for i in p.calls if i.cshort.endswith("metadata_bytes")]
    for i in p.calls:
        if i.cshort.endswith("PageAllocator::stats"):
            x = p.args(i)[0]
            base = plus({("load", x, None): 1}, {("load", ("gep", x, 16, ()), None): -1})
            out.append((i, [plus(base, {p.val(m): 1}) for m in md if p.ix(m) > p.ix(i)]))
    return out


def rel(p, d, b, strict):
    """d against the term b: True/False when d > b (strict) is known"""
    for q, x, y in p.F:
        if y == b and plus(lf(x), d, -1) == {} and q in ("ule", "eq"):
            return False
        if x == b and plus(lf(y), d, -1) == {} and q == "ult":
            return True
        if x == b and plus(lf(y), d, -1) == {} and q == "eq":
            return False
    return None


def delta(p, name, k):
    a = cell(p, name, k)
    if a is None or a not in p.last:
        return {}
    return plus(lf(p.last[a]), {("load", a, None): 1}, -1)


def inlim(p, name):
    return [a for a in p.last if any(x[0] == "fld" and x[2] == name for x in sub(a))]


def shrink(c, f):
    seen = set()
    for h, p in spaths(f):
        if h is not None or p.end[0] != "ret":
            c.ob("limit", p.end[0] == "ret", "loop", f, "")
            continue
        la = cell(p, "limits_", 0)
        ha = cell(p, "limits_", 1)
        soft = ("load", la, None) if la else None
        hd = ("load", ha, None) if ha else None
        bs = backing(p)
        c.ob("limit", not inlim(p, "limits_"), "kept", f, "the limits are changed by being checked")
        sh = p.name("PageAllocator::ShrinkHardBy")
        off = soft and any(q == "eq" and {x, y} == {soft, MAX} for q, x, y in p.F)
        B = [d for i, ds in bs[:1] for d in ds]
        over = next((r for r in (rel(p, d, soft, True) for d in B) if r is not None), None) if soft else None
        # the highest amount backed so far
        pk = [a for a in p.last if any(x[0] == "fld" and x[2] == "peak_backed_bytes_" for x in sub(a))]
        for a in pk:
            c.ob("hits", any(plus(lf(p.last[a]), d, -1) == {} for d in B) and any(rel(p, d, ("load", a, None), True) for d in B), "peak", f, "the peak is set to something that is not a new peak")
        if not pk:
            c.ob("hits", any(rel(p, d, x, True) is False for d in B for q, t, b in p.F for y in (t, b) for x in sub(y)
                             if x[0] == "load" and x[1][0] == "fld" and x[1][2] == "peak_backed_bytes_"), "peak-kept", f, "a new peak is not noted")
        if not sh:
            c.ob("limit", bool(off) or over is False, "idle", f, "nothing is released though the limit is not kept")
            c.ob("hits", not inlim(p, "limit_hits_") and not inlim(p, "successful_shrinks_after_limit_hit_"), "idle", f, "a limit that was not hit is counted")
            seen.add("idle")
            continue
        c.ob("limit", over is True and not off, "needed", f, "memory is released though the limit is kept")
        a = p.args(sh[0])
        c.ob("limit", a[0] == A[0] and a[2] == I(0) and any(ceil(a[1], plus(d, {soft: 1}, -1)) for d in B), "overage", f, "what is released for the soft limit is not the overage")
        c.ob("hits", delta(p, "limit_hits_", 0) == {1: 1}, "soft", f, "a hit of the soft limit is not counted once")
        hov = next((r for r in (rel(p, d, hd, True) for d in B) if r is not None), None) if hd else None
        c.ob("hits", hov is not None and delta(p, "limit_hits_", 1) == ({1: 1} if hov else {}), "hard", f, "hits of the hard limit are not counted exactly when what is backed is above it")
        r1 = p.truth(p.val(sh[0]))
        c.ob("limit", r1 is not None, "looked", f, "whether releasing was enough is not looked at")
        c.ob("hits", delta(p, "successful_shrinks_after_limit_hit_", 0) == ({1: 1} if r1 else {}), "soft-won", f, "successful releases for the soft limit are not counted exactly")
        if r1:
            c.ob("limit", len(sh) == 1, "enough", f, "more is released after enough was")
            c.ob("hits", delta(p, "successful_shrinks_after_limit_hit_", 1) == {}, "hard-not", f, "a success for the hard limit is counted that was not needed")
            seen.add("soft")
            continue
        none = hd and any(q == "eq" and {x, y} == {hd, MAX} for q, x, y in p.F)
        late = [(i, ds) for i, ds in bs[1:] if p.ix(i) > p.ix(sh[0])]
        B2 = [d for i, ds in late for d in ds if any(p.ix(m) > p.ix(sh[0]) and d.get(p.val(m)) for m in p.calls if m.cshort.endswith("metadata_bytes"))]
        if len(sh) == 1:
            fine = hd and any(rel(p, d, hd, True) is False for d in B2)
            c.ob("limit", bool(none or fine), "hard", f, "the soft limit could not be kept and the hard one is not looked at")
            c.ob("hits", delta(p, "successful_shrinks_after_limit_hit_", 1) == {}, "hard-not", f, "a success for the hard limit is counted that was not needed")
            seen.add("none" if none else "fine")
            continue
        b = p.args(sh[1])
        c.ob("limit", len(sh) == 2 and b[0] == A[0] and b[2] == I(1) and hd is not None and any(rel(p, d, hd, True) and ceil(b[1], plus(d, {hd: 1}, -1)) for d in B2), "hard-overage", f,
             "what is released for the hard limit is not what is then still above it")
        c.ob("limit", p.truth(p.val(sh[1])) is True, "fatal", f, "a hard limit that is not kept is returned from")
        c.ob("hits", delta(p, "successful_shrinks_after_limit_hit_", 1) == {1: 1}, "hard-won", f, "a successful release for the hard limit is not counted")
        seen.add("hard")
    c.ob("limit", {"idle", "soft", "none", "hard"} <= seen, "all", f, "a limit is not acted upon: only " + ", ".join(sorted(seen)))


# -- asking the parts in turn -------------------------------------------------
def asks(p):
    return [i for i in p.calls if "ReleaseAtLeastNPages" in i.cshort.split("::")[-1]]


def accumulate(c, f, P):
    """the running total at each loop header: a value that every way in keeps
    at what was released so far"""
    heads = {l["header"] for l in f.loops}
    cand = {}
    for h, p in P:
        if p.end[0] in ("stop", "turn"):
            s = cand.setdefault(p.end[1], set())
            s |= set(p.end[2])
    ch = True
    while ch:
        ch = False
        for h, p in P:
            if p.end[0] not in ("stop", "turn"):
                continue
            tot = {}
            for i in asks(p):
                tot = plus(tot, lf(p.val(i)))
            bases = [{}] if h is None else [{("phi", x): 1} for x in cand.get(h, ())] + [{("v", x): 1} for x in cand.get(h, ())]
            for x in list(cand[p.end[1]]):
                v = lf(p.N(p.end[2][x])) if x in p.end[2] else None
                if v is None or not any(plus(v, plus(tot, b), -1) == {} for b in bases):
                    cand[p.end[1]].discard(x)
                    ch = True
    # a header whose phis are not its own but dominate it keeps them
    return cand


def below(p, d, want):
    """is d < want known: True, False (want <= d) or None"""
    for q, x, y in p.F:
        if y == want and plus(lf(x), d, -1) == {}:
            return {"ult": True, "eq": False}.get(q)
        if x == want and plus(lf(y), d, -1) == {} and q in ("ule", "ult", "eq"):
            return False
    return None


def phis(f, h, cand):
    r = []
    for x in cand.get(h, ()):
        r += [{("phi", x): 1}, {("v", x): 1}]
    return r


def walk(c, f, want, reason, fn):
    """the shared shape of both: what is asked of each part, and the totals"""
    P = spaths(f)
    cand = accumulate(c, f, P)
    heads = {l["header"] for l in f.loops}
    for h in heads:
        c.ob("sum", bool(cand.get(h)), "total", f, "what was released so far is not carried through the loop")
    # headers at which it is known that more is wanted
    more = {h: True for h in heads}

    def base(h, p):
        if h is None:
            return {}
        # the phi of this header that these asks build on
        for x in sorted(cand.get(h, ())):
            for k in (("phi", x), ("v", x)):
                if any(k in lf(t) for i in asks(p) for t in p.args(i)) or p.end[0] != "ret" and any(k in lf(p.N(v)) for v in p.end[2].values()) \
                        or any(k in lf(y) for q, t, b in p.F for y in (t, b)) or p.end[0] == "ret" and isinstance(p.end[1], tuple) and any(z == k for z in sub(p.N(p.end[1]))):
                    return {k: 1}
        return None

    info = []
    for h, p in P:
        b = base(h, p)
        if b is None:
            # nothing on this path looks at the total
            b = {("phi", next(iter(cand.get(h, {0})), 0)): 1}
        tots = [b]
        for i in asks(p):
            tots.append(plus(tots[-1], lf(p.val(i))))
        info.append((h, p, tots))
    def known(h, p, d):
        r = below(p, d, want)
        if r is None and h is not None and d == tots0[h, id(p)] and more.get(h):
            return True
        return r
    tots0 = {(h, id(p)): t[0] for h, p, t in info}
    ch = True
    while ch:
        ch = False
        for h, p, t in info:
            if p.end[0] in ("stop", "turn") and more.get(p.end[1]) and known(h, p, t[-1]) is not True:
                more[p.end[1]] = False
                ch = True
    for h, p, t in info:
        for n, i in enumerate(asks(p)):
            a = p.args(i)
            ok = False
            full = plus({want: 1}, t[n], -1)
            k = known(h, p, t[n])
            x = a[1] if len(a) > 1 else None
            if x is not None:
                if plus(lf(x), full, -1) == {}:
                    ok = k is True or t[n] == {}
                elif x == I(0):
                    ok = k is False
                elif x[0] == "select":
                    # want > total ? want - total : 0
                    q = x[1]
                    z = sorted(x[2:], key=lambda y: y == I(0))
                    ok = z[1] == I(0) and plus(lf(z[0]), full, -1) == {} and q[0] == "cmp"
                elif x[0] in ("usubsat",) or x[0] == "call" and "usub.sat" in x[1]:
                    ok = True
            c.ob("remain", ok, "asked", f, "a part is not asked for what is still wanted")
            c.ob("remain", len(a) > 2 and reason(p, a[2]), "why", f, "a part is asked for another reason than the one given")
    # every part
    U = ("cold", "normal", "sampled")
    done = {h: set(U) for h in heads}
    main = {h: True for h in heads}

    def after(h, p):
        d = set(done[h]) if h is not None else set()
        idx = {}
        for i in asks(p):
            a = p.args(i)[0]
            if "Breaking" not in i.cshort and fn == "hard":
                continue
            w = part(a)
            if w is None:
                continue
            if w[0] == "cold":
                d.add("cold")
            else:
                idx.setdefault(w[0], []).append(w[1])
        for q, x, y in p.F:
            if q == "eq" and y == I(0) and x[0] == "load" and x[1][0] == "fld" and x[1][2] == "has_cold_impl_":
                d.add("cold")
        if h is not None and p.end[0] != "turn" or p.end[0] == "ret":
            for q, x, y in p.F:
                if h is not None and q in ("ule", "sle", "eq") and any(z in (("phi", k), ("v", k)) for z in (x, y) for k in IND.get(h, ())):
                    b, i = (x, y) if any(y in (("phi", k), ("v", k)) for k in IND[h]) else (y, x)
                    kk = next(k for k in IND[h] if i in (("phi", k), ("v", k)))
                    w = IND[h][kk]
                    if bound(p, b, w):
                        d.add(w)
        s = idx.get("sampled", [])
        if I(0) in s and (I(1) in s or any(q == "eq" and y == I(0) and x[0] == "load" and x[1][0] == "fld" and x[1][2] == "sampled_partition_active_" for q, x, y in p.F)):
            d.add("sampled")
        return d

    # loops that go through a part's heaps one by one from the first
    IND = {}
    for h in heads:
        use = [(p, part(p.args(i)[0]), i) for g, p, t in info if g == h for i in asks(p)]
        ph = {}
        for p, w, i in use:
            if w and w[0] != "cold":
                for k in [z[1] for z in [w[1]] if z[0] in ("phi", "v")]:
                    ph[k] = w[0]
        for k, w in list(ph.items()):
            for g, p, t in info:
                if p.end[0] in ("stop", "turn") and p.end[1] == h and k in p.end[2]:
                    v = p.N(p.end[2][k])
                    good = v == I(0) if g != h else any(plus(lf(v), {(m, k): 1, 1: 1}, -1) == {} for m in ("phi", "v"))
                    turn_asks = g != h or any((part(p.args(i)[0]) or (0, 0)) == (w, ("phi", k)) or (part(p.args(i)[0]) or (0, 0)) == (w, ("v", k)) for i in asks(p))
                    c.ob("every", good and turn_asks, "step", f, "the heaps of a part are not asked one by one from the first")
        IND[h] = ph
    ch = True
    while ch:
        ch = False
        for h, p, t in info:
            if p.end[0] in ("stop", "turn"):
                d = after(h, p)
                n = done[p.end[1]] & d
                if n != done[p.end[1]]:
                    done[p.end[1]] = n
                    ch = True
    return info, known, after, cand


def bound(p, b, w):
    """is b the number of heaps of the part w"""
    if b[0] == "load" or b[0] == "zext":
        pass
    if w == "normal":
        return b[0] == "call" and b[1].endswith("active_partitions")
    if w == "sampled":
        act = [x for x in sub(b) if x[0] == "fld" and x[2] == "sampled_partition_active_"]
        if b[0] == "select" and act:
            return set(b[2:]) == {I(2), I(1)}
        if b == I(2):
            return any(q == "ne" and y == I(0) and any(z[0] == "fld" and z[2] == "sampled_partition_active_" for z in sub(x)) for q, x, y in p.F)
        if b == I(1):
            return any(q == "eq" and y == I(0) and any(z[0] == "fld" and z[2] == "sampled_partition_active_" for z in sub(x)) for q, x, y in p.F)
        return bool(act) and lf(b).get(1) == 1
    return False


U = {"cold", "normal", "sampled"}


def atleast(c, f):
    info, known, after, cand = walk(c, f, A[1], lambda p, r: r == A[2], "all")
    for h, p, t in info:
        if p.end[0] != "ret":
            continue
        r = lf(p.N(p.end[1]))
        c.ob("sum", plus(r, t[-1], -1) == {}, "result", f, "what is reported is not the sum of what was released")
        hk = p.name("InvokeReleaseHook")
        c.ob("sum", len(hk) == 1 and len(p.args(hk[0])) >= 3 and p.args(hk[0])[-3] == A[1] and plus(lf(p.args(hk[0])[-2]), t[-1], -1) == {} and p.args(hk[0])[-1] == A[2], "hook", f,
             "the hooks are not told once what was wanted and released")
        d = after(h, p)
        c.ob("every", d >= U or known(h, p, t[-1]) is False, "parts", f, "a part of the heap is not asked: " + ", ".join(sorted(U - d)))


def hard(c, f):
    H = A[2]

    def kinds(p):
        k = {0, 1}
        for q, x, y in p.F:
            if {x, y} >= {H} and (x[0] == "int" or y[0] == "int"):
                v = x[1] if x[0] == "int" else y[1]
                if q == "eq":
                    k &= {v}
                elif q == "ne":
                    k -= {v}
                elif q == "ult" and x == H:
                    k = {z for z in k if z < v}
                elif q == "ult":
                    k = {z for z in k if z > v}
        return k

    def val(t, k):
        if t[0] == "int":
            return t[1]
        if t[0] in ("phi", "v"):
            # a choice made before the loops
            s = {p.N(p.s.env[t[1]]) for h, p in P0 if h is None and k in kinds(p) and t[1] in p.s.env}
            return val(s.pop(), k) if len(s) == 1 else None
        if t[0] == "select":
            q = t[1]
            v = None
            if q[0] == "cmp" and H in q[2:] and any(z[0] == "int" for z in q[2:]):
                n = next(z[1] for z in q[2:] if z[0] == "int")
                v = {"eq": k == n, "ne": k != n}.get(q[1])
            return None if v is None else val(t[2] if v else t[3], k)
        d = lf(t)
        if set(d) <= {1, H} and d:
            return d.get(1, 0) + d.get(H, 0) * k
        return None

    P0 = spaths(f)

    def reason(p, t):
        return all(val(t, k) == (HARD_REASON if k else SOFT_REASON) for k in kinds(p))

    info, known, after, cand = walk(c, f, A[1], reason, "hard")
    for h, p, t in info:
        ak = asks(p)
        brk = [i for i in ak if "Breaking" in i.cshort]
        sub_on = any(q == "ne" and y == I(0) and x[0] == "call" and x[1].endswith("hpaa_subrelease") for q, x, y in p.F)
        sub_off = any(q == "eq" and y == I(0) and x[0] == "call" and x[1].endswith("hpaa_subrelease") for q, x, y in p.F)
        if h is None:
            c.ob("break", bool(ak) and ak[0].cshort.endswith("PageAllocator::ReleaseAtLeastNPages") and p.args(ak[0])[0] == A[0], "first", f, "whole huge pages are not released first")
            c.ob("break", all(i in brk for i in ak[1:]), "twice", f, "whole huge pages are asked for again")
            if brk or p.end[0] != "ret":
                c.ob("break", 1 not in kinds(p) or sub_on, "subrelease", f, "huge pages are broken up for a hard limit though subrelease is disabled")
        else:
            c.ob("break", all(i in brk for i in ak), "twice", f, "whole huge pages are asked for again")
        if p.end[0] != "ret":
            continue
        r = p.N(p.end[1])
        k = known(h, p, t[-1])
        d = after(h, p)
        rv = {I(1): True, I(-1): True, I(0): False}.get(r)
        if rv is None and r[0] == "cmp":
            q, x, y = r[1:]
            if q in ("uge", "ugt"):
                q, x, y = {"uge": "ule", "ugt": "ult"}[q], y, x
            ok = q == "ule" and x == A[1] and plus(lf(y), t[-1], -1) == {}
            c.ob("sum", ok, "verdict", f, "success is not that what was released covers what was wanted")
            rv = k if k is None else not k
        else:
            c.ob("sum", rv is not None and k is (not rv), "verdict", f, "success is not that what was released covers what was wanted")
        if k is not False:
            refuse = sub_off and kinds(p) == {1}
            other = any(q == "ne" and I(HPAA) in (x, y) and any(z[0] == "fld" and z[2] == "alg_" for w in (x, y) for z in sub(w)) for q, x, y in p.F)
            c.ob("every", d >= U or refuse or other, "parts", f, "a part of the heap is not asked: " + ", ".join(sorted(U - d)))


# -- stats --------------------------------------------------------------------
def stats(c, f):
    P = spaths(f)
    heads = {l["header"] for l in f.loops}
    offs = {}
    done = {h: set(U | {"first"}) for h in heads}

    def count(h, p):
        """checks the additions on a path; the parts it covers"""
        got = {}
        for i in p.calls:
            if not i.cshort.endswith("::stats"):
                continue
            a = p.args(i)
            w = part(a[1])
            c.ob("every", w is not None, "part", f, "statistics are taken from something that is no part of the heap") if h is None or True else None
            x = a[0]
            if x == A[0]:
                c.ob("every", h is None and p.calls.index(i) == min(p.calls.index(j) for j in p.calls if j.cshort.endswith("::stats")), "first", f, "the totals are started anew")
            else:
                n = set()
                for ad, v, st in p.st:
                    for o in (0, 8, 16):
                        src = ("load", x if o == 0 else ("gep", x, o, ()), None)
                        if lf(v).get(src):
                            c.ob("every", plus(lf(v), {src: 1, ("load", ad, None): 1}, -1) == {}, "add", f, "a part's statistics are not added to the totals")
                            offs.setdefault(ad, set()).add(o)
                            n.add(o)
                c.ob("every", n == {0, 8, 16}, "fields", f, "not every number of a part is added to the totals")
            if w:
                got.setdefault(w[0], []).append(w[1])
        return got

    res = [(h, p, count(h, p)) for h, p in P]
    for a, o in offs.items():
        c.ob("every", len(o) == 1, "mixed", f, "different statistics are added together")
    c.ob("every", len(offs) == 3 and len({min(o) for o in offs.values()}) == 3, "mixed", f, "different statistics are added together")
    start = {}
    for h, p, got in res:
        for kind, ks in got.items():
            c.ob("every", len(ks) == len(set(ks)), "twice", f, "a part is counted twice")

    def after(h, p, got):
        d = set(done[h]) if h is not None else set()
        if "cold" in got or any(q == "eq" and y == I(0) and any(z[0] == "fld" and z[2] == "has_cold_impl_" for z in sub(x)) for q, x, y in p.F):
            d.add("cold")
        s = got.get("sampled", [])
        if I(0) in s:
            d.add("s0")
        if I(1) in s or any(q == "eq" and y == I(0) and any(z[0] == "fld" and z[2] == "sampled_partition_active_" for z in sub(x)) for q, x, y in p.F):
            d.add("s1")
        if {"s0", "s1"} <= d:
            d.add("sampled")
        if I(0) in got.get("normal", []):
            d.add("first")
        if h is not None and p.end[0] != "turn":
            for q, x, y in p.F:
                if q in ("ule", "sle", "eq") and bound(p, x, "normal") and y[0] in ("phi", "v") and IND.get(h) == y[1]:
                    d.add("normal")
                if q in ("ule", "sle", "eq") and y[0] in ("phi", "v") and SND.get(h) == y[1] and bound(p, x, "sampled"):
                    d.add("sampled")
        return d

    IND, SND = {}, {}
    for h in heads:
        for g, p, got in res:
            if g == h and p.end[0] == "turn":
                for nm, D in (("normal", IND), ("sampled", SND)):
                    ks = got.get(nm, [])
                    if len(ks) == 1 and ks[0][0] in ("phi", "v"):
                        D[h] = ks[0][1]
    for D, nm in ((IND, "normal"), (SND, "sampled")):
        for h, k in D.items():
            for g, p, got in res:
                if p.end[0] in ("stop", "turn") and p.end[1] == h and k in p.end[2]:
                    v = p.N(p.end[2][k])
                    if g == h:
                        c.ob("every", any(plus(lf(v), {(m, k): 1, 1: 1}, -1) == {} for m in ("phi", "v")) and len(got.get(nm, [])) == 1, "step", f, "the heaps of a part are not counted one by one")
                    else:
                        c.ob("every", v == (I(1) if I(0) in got.get(nm, []) else I(0)), "from", f, "the first heaps of a part are not counted once")
                        start[h] = v
    ch = True
    while ch:
        ch = False
        for h, p, got in res:
            if p.end[0] in ("stop", "turn"):
                n = done[p.end[1]] & after(h, p, got)
                if n != done[p.end[1]]:
                    done[p.end[1]], ch = n, True
    for h, p, got in res:
        if p.end[0] == "ret":
            d = after(h, p, got)
            c.ob("every", d >= U, "parts", f, "a part of the heap is not counted: " + ", ".join(sorted(U - d)))
            if h is not None:
                for nm in got:
                    c.ob("every", nm not in done[h], "twice", f, "a part is counted twice")
