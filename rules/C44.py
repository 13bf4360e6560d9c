"""The huge-page-aware page heap: each span comes from one part of the heap, which covers it and is told of it, and its pages go back to where they came from."""
from tcm import *
from segs import segs
from C09 import nrm, mk
from C19 import plus
from C43 import Path, lf, sub

ANCH = ["CheckFailed", "^absl::", "SpinLock", "HugePageFiller<", "HugeCache::", "HugeAllocator::", "HugeRegionSet<", "PageTracker::", "StaticForwarder::", ":Span::",
        "AllocationGuard", "LogImpl", "ReportCorruptedFree", "PageAllocInfo::", "LifetimeTracker::", "MetadataObjectAllocator<", "HugePageAwareAllocator<.*>::AddRegion"]
A = [("arg", k) for k in range(6)]
PP = 256


def run(c):
    c.rule("source", "a span has exactly the pages one part of the heap handed out for the request; when none did there is no span and nothing is recorded")
    c.rule("tracker", "a huge page that is split is registered with its tracker, its first pages taken, before the rest is offered to others; a whole one has no tracker")
    c.rule("return", "freed pages go back to the part that handed them out, once, and nothing that is still in use goes along")
    c.rule("count", "donated and abandoned pages are counted exactly while they are donated and abandoned")
    c.rule("gone", "a tracker is forgotten by the page map and its huge page returned, as backed or as released, before it is freed")
    c.rule("release", "what is reported as released is the sum of what the parts report, each asked for no more than is still wanted")
    H = r"^tcmalloc::tcmalloc_internal::(huge_page_allocator_internal::)?HugePageAwareAllocator<.*>::"
    for n, g in (("New", new), ("NewAligned", new), ("Delete", delete), ("TreatHugepageTrackers", treat), ("ReleaseAtLeastNPages", atleast), ("ReleaseAtLeastNPagesBreakingHugepages", atleast),
                 ("AddRegion", region)):
        fs = list(c.fns(H + n + r"\([^()]*\)( const)?$", [x for x in ANCH if not x.endswith(n)], floor=1))
        c.need(fs, "no HugePageAwareAllocator::" + n)
        for f in fs:
            g(c, f)


def keep8(t):
    """the low eight bits are a page's place in its huge page, not a width change"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "and" and len(t) == 3 and I(255) in t[1:]:
        return ("low8", keep8(t[1] if t[2] == I(255) else t[2]))
    return tuple(keep8(x) if isinstance(x, tuple) else x for x in t)


class Seg(Path):
    def N(self, t, d=0):
        return Path.N(self, keep8(t), d)

    def name(self, *n):
        return [i for i in self.calls if any(i.cshort.endswith(x) for x in n)]

    def ix(self, i):
        return self.s.ins.index(i)

    def truth(self, t):
        z = self.is0(t)
        return None if z is None else not z

    def count(self, fld):
        """by how much a counter changes, as a linear term; {} when it does not"""
        a = [a for a in self.last if any(x[0] == "fld" and x[2] == fld and x[3] == A[0] for x in sub(a))]
        if not a:
            return {}
        if len(a) > 1:
            return None
        return plus(lf(self.last[a[0]]), lf(("load", a[0], None)), -1)

    def eqv(self, a, b):
        """a is b, or is shown to be by what this path compared"""
        d = plus(lf(a), lf(b), -1)
        if not d:
            return True
        for p, x, y in self.F:
            if p == "eq":
                e = plus(lf(x), lf(y), -1)
                if e and (d == e or plus(d, e) == {} or any(plus(d, {k: v * s for k, v in e.items()}) == {} for s in (PP, -PP, 8192, -8192))):
                    return True
        return False

    def below(self, t, n):
        """t < n by what this path compared"""
        return any(a == t and b[0] == "int" and (p == "ult" and b[1] <= n or p in ("ule", "eq") and b[1] < n) for p, a, b in self.F)


def escaped(f):
    """locals that another function may write"""
    out = set()
    for i in f.ins.values():
        if i.op in ("call", "icall") and not i.cshort.startswith("llvm.") and not i.cshort.endswith("MetadataObjectAllocator::New"):
            for x in i.ops:
                t = nrm(f.term(x))
                while t and t[0] in ("fld", "gep", "idx"):
                    t = t[3] if t[0] == "fld" else t[1]
                if t and t[0] == "alloca":
                    out.add(t)
    return out


def spaths(f):
    d = {}
    for i in f.ins.values():
        if i.op == "store":
            a = nrm(f.term(i.ops[1]))
            if a[0] == "alloca" or any(x[0] == "alloca" for x in sub(a)):
                d.setdefault(a, []).append(i)
    esc = escaped(f)
    loc = {a: v[0] for a, v in d.items() if len(v) == 1 and not any(x in esc for x in sub(a))}
    hs = [l["header"] for l in f.loops]
    out = [(None, Seg(s, loc)) for s in segs(f, stop=hs)]
    for h in hs:
        out += [(h, Seg(s, loc)) for s in segs(f, start=f.blocks[h][0], stop=[x for x in hs if x != h])]
    return out


def field(t, name):
    return any(x[0] == "fld" and x[2] == name and x[3] == A[0] for x in sub(t))


def scale(t, k):
    return mk({a: v * k for a, v in lf(t).items()})


def hlpages(t, n):
    """t is n pages rounded up to huge pages"""
    d = lf(t)
    if not all(v == 1 and isinstance(k, tuple) for k, v in d.items()):
        return False
    sh = [k for k in d if k[0] == "lshr" and k[2] == I(8)]
    if len(d) == len(sh) == 1:
        return plus(lf(sh[0][1]), plus(lf(n), {1: 255}), -1) == {}
    ne = [k for k in d if k[0] == "cmp" and k[1] == "ne" and set(k[2:]) == {I(0), ("low8", n)}]
    return len(d) == 2 and len(ne) == 1 and len(sh) == 1 and sh[0][1] == n


# -- New, NewAligned ----------------------------------------------------------
def new(c, f):
    aligned = "NewAligned(" in f.name
    N = A[1]
    kinds = set()
    for h, p in spaths(f):
        if p.end[0] not in ("ret", "stop", "turn"):
            continue
        if p.end[0] != "ret":
            c.ob("source", False, "loop", f, "")
            continue
        r = p.N(p.end[1])
        if aligned and not p.name("HugeCache::Get", "HugePageFiller::TryGet", "MaybeGet") and p.name("HugePageAwareAllocator::New"):
            continue
        got, last = [], -1
        for i in p.name("HugePageFiller::TryGet", "HugeRegionSet::MaybeGet", "HugeCache::Get"):
            a, v = p.args(i), p.val(i)
            if i.cshort.endswith("TryGet"):
                ok = p.truth(("load", a[0], None))
                c.ob("source", field(a[1], "filler_") and a[2] == N, "filler-ask", f, "the filler is not asked for the pages requested")
                c.ob("source", p.below(N, PP + 1), "filler-fit", f, "the filler is asked for what no huge page holds")
                page = None if not ok else "filler"
            elif i.cshort.endswith("MaybeGet"):
                ok = p.truth(v)
                c.ob("source", field(a[0], "regions_") and a[1] == N, "region-ask", f, "the regions are not asked for the pages requested")
                page = "region"
            else:
                x = ("ext", v, 0)
                ok = next((p.truth(t) for q, t, b in p.F if q in ("eq", "ne") and b == I(0) and t[0] == "and" and any(y[0] == "ext" and y[1] == v for y in t[1:])), None)
                if ok is None:
                    ok = next((p.truth(t) for q, t, b in p.F if q in ("eq", "ne") and b == I(0) and any(y[0] == "ext" and y[1] == v for y in sub(t))), None)
                c.ob("source", a[1] == I(1) and p.below(N, PP + 1) or hlpages(a[1], N), "cache-ask", f, "the cache is not asked for the huge pages requested")
                page = "cache"
            c.ob("source", ok is not None, "asked", f, "whether pages were handed out is not looked at")
            got.append((i, ok, page))
        win = [(i, k) for i, ok, k in got if ok]
        c.ob("source", len(win) <= 1, "once", f, "pages are taken from two places for one request, and some are lost")
        sp, ra, ss, bk = p.name("::NewSpan"), p.name("PageAllocInfo::RecordAlloc"), p.name("::SetSpan"), p.name("::Back")
        if r == I(0):
            if win:
                # only when the page handed out is page zero, which it is not
                c.ob("source", any(q == "eq" and b == I(0) and pageof(p, win[0][0], win[0][1], t) for q, t, b in p.F) and not sp, "lost", f, "pages are handed out and no span is made of them")
                continue
            c.ob("source", not sp and not ra and not ss, "none", f, "a request that failed is recorded")
            c.ob("count", p.count("donated_huge_pages_") == {} and p.count("abandoned_pages_") == {}, "none", f, "a request that failed changes the counts")
            c.ob("source", any(k == "cache" for i, ok, k in got), "give-up", f, "a request is refused before the system was asked")
            continue
        c.ob("source", len(win) == 1 and got[-1][0] is win[0][0], "have", f, "a span is made of pages nothing handed out")
        if len(win) != 1:
            continue
        w, k = win[0]
        kinds.add(k)
        c.ob("source", len(sp) == 1 and r == p.val(sp[0]), "span", f, "what is returned is not the span")
        if len(sp) != 1:
            continue
        a = p.args(sp[0])[-2:]
        P = a[0]
        c.ob("source", p.eqv(a[1], N), "length", f, "the span's length is not the request's")
        c.ob("source", len(ra) == 1 and p.args(ra[0])[1] == P and p.eqv(p.args(ra[0])[2], N), "record", f, "the allocation is not recorded, or not as it is")
        c.ob("source", len(ss) == 1 and p.args(ss[0])[-2:] == [P, r], "map", f, "the page map does not lead to the span")
        c.ob("source", all(p.args(i)[-2] == P and p.eqv(p.args(i)[-1], N) for i in bk), "back", f, "pages other than the span's are backed")
        c.ob("release", any(p.eqv(p.args(i)[-1], N) for i in p.name("::ShrinkToUsageLimit")), "limit", f, "the usage limit is not looked at for the allocation")
        if aligned:
            one = p.below(A[2], 2)
            c.ob("source", one or p.below(A[2], PP + 1) and k == "cache" and hugestart(p, w, P), "aligned", f, "an aligned span may not begin at a huge page")
        sd = p.name("Span::set_donated")
        c.ob("count", len(sd) <= 1 and all(p.args(i)[0] == r for i in sd), "mark", f, "the wrong span is marked as donating")
        donated = bool(sd) and yes(p, p.args(sd[-1])[1])
        c.ob("count", donated is not None, "mark-what", f, "whether the span is marked as donating is not clear")
        c.ob("count", p.count("abandoned_pages_") == {}, "abandon", f, "an allocation changes the abandoned pages")
        sh, nt, ct, gt = p.name("::SetHugepage"), p.name("MetadataObjectAllocator::New"), p.name("HugePageFiller::Contribute"), p.name("PageTracker::Get")
        if k != "cache":
            c.ob("source", pageof(p, w, k, P), "page", f, "the span's pages are not the ones handed out")
            c.ob("tracker", not sh and not nt and not ct and not gt, "none", f, "an allocation within a huge page changes its tracker")
            c.ob("count", not donated and p.count("donated_huge_pages_") == {}, "kept", f, "an allocation within a huge page is counted as donating")
            continue
        v = p.val(w)
        S = ("ext", v)
        hl = p.args(w)[1]
        st = next((x for x in allterms(p) if x[0] == "ext" and x[1] == v and idx(x) == 0), None)
        if st is None:
            c.ob("source", False, "range", f, "where the huge pages begin is not used")
            continue
        ln = next((x for x in allterms(p) if x[0] == "ext" and x[1] == v and idx(x) == 1), hl)
        lasts = [plus(plus(lf(st), lf(x)), {1: -1}) for x in (hl, ln)]
        small = hl == I(1)
        whole = p.eqv(scale(hl, PP), N)
        kinds.add("whole" if whole and not small else "small" if small else "tail")
        put = [(p.args(i)[-2], p.args(i)[-1], i) for i in sh]
        if whole and not small:
            c.ob("source", hugestart(p, w, P), "page", f, "the span's pages are not the ones handed out")
            c.ob("tracker", not nt and not ct and not gt and all(b == I(0) for a_, b, i in put), "whole", f, "a huge page that is not split gets a tracker")
            c.ob("tracker", any(a_ == st for a_, b, i in put) and any(lf(a_) in lasts for a_, b, i in put), "clear", f, "a huge page keeps an old tracker")
            c.ob("count", not donated and p.count("donated_huge_pages_") == {}, "whole", f, "a huge page that is not split is counted as donated")
            continue
        c.ob("tracker", len(nt) == len(gt) == len(ct) == 1, "one", f, "a huge page that is split does not get one tracker")
        if not (len(nt) == len(gt) == len(ct) == 1):
            continue
        T = p.val(nt[0])
        na = p.args(nt[0])
        at = [p.N(("load", x, None)) for x in na[1:3]]
        here = N if small else mk(plus(plus(lf(N), lf(scale(hl, PP)), -1), {1: PP}))
        want = lf(st) if small else None
        ok = lf(at[0]) == want if small else lf(at[0]) in lasts
        c.ob("tracker", ok and field(na[0], "tracker_allocator_"), "where", f, "the tracker is for another huge page")
        dn = I(0) if small else ("int", 1)
        c.ob("tracker", bit(at[1]) == (0 if small else 1), "kind", f, "the tracker does not know whether its huge page was donated")
        g = p.args(gt[0])
        c.ob("tracker", g[0] == T and p.eqv(g[1], here), "taken", f, "the pages in use are not taken from the tracker")
        ca = p.args(ct[0])
        c.ob("tracker", field(ca[0], "filler_") and ca[1] == T and bit(ca[2]) == (0 if small else 1), "offer", f, "the rest of the huge page is not offered as what it is")
        c.ob("tracker", p.ix(gt[0]) < p.ix(ct[0]), "first", f, "pages in use are offered to others")
        mine = [i for a_, b, i in put if b == T and lf(a_) == lf(at[0])]
        c.ob("tracker", len(mine) == 1 and len([1 for a_, b, i in put if b != I(0)]) == 1, "known", f, "the page map does not lead to the tracker")
        c.ob("tracker", not any(b == I(0) and (not mine or p.ix(i) > p.ix(mine[0])) for a_, b, i in put), "stays", f, "the page map loses the tracker again")
        for i in p.name("set_abandoned_count"):
            b = p.args(i)
            wd = [q for q in p.name("PageTracker::was_donated") if p.truth(p.val(q)) is True]
            c.ob("count", b[0] == T and p.eqv(b[1], here) and (not small or wd), "size", f, "the pages to be abandoned are not the donating span's")
        if small:
            c.ob("source", P == ("ext",) + tuple([p.val(gt[0])]) + P[2:] if P[0] == "ext" else hugestart(p, w, P), "page", f, "the span's pages are not the ones handed out")
            c.ob("count", not donated and p.count("donated_huge_pages_") == {}, "kept", f, "an allocation within a huge page is counted as donating")
            continue
        c.ob("source", hugestart(p, w, P), "page", f, "the span's pages are not the ones handed out")
        c.ob("tracker", any(b == I(0) and a_ == st for a_, b, i in put), "clear", f, "a huge page keeps an old tracker")
        wd = [p.truth(p.val(q)) for q in p.name("PageTracker::was_donated")]
        c.ob("count", bool(p.name("set_abandoned_count")) or False in wd, "size", f, "the pages to be abandoned are not remembered")
        c.ob("count", donated and p.count("donated_huge_pages_") == {1: 1}, "donate", f, "a donated huge page is not counted, or its span not marked")
    c.ob("source", {"cache", "whole", "tail"} | (set() if aligned else {"filler", "region", "small"}) <= kinds, "any", f, "a part of the heap is never used: %s" % sorted(kinds))


def yes(p, t):
    """a boolean, by what this path compared; None if that does not tell"""
    b = bit(t)
    if b is not None:
        return bool(b)
    if t[0] == "cmp" and t[1] in ("eq", "ne"):
        if p.eqv(t[2], t[3]):
            return t[1] == "eq"
        if any(q == "ne" and {x, y} == set(t[2:]) for q, x, y in p.F):
            return t[1] == "ne"
    return p.truth(t)


def bit(t):
    """a boolean constant"""
    if t[0] == "cmp" and t[2][0] == "int" and t[3][0] == "int":
        return int((t[2][1] != t[3][1]) == (t[1] == "ne"))
    return abs(t[1]) & 1 if t[0] == "int" else None


def idx(x):
    k = x[2]
    while isinstance(k, tuple):
        if not k:
            return None
        k = k[1] if k[0] == "int" else k[0]
    return k


def allterms(p):
    for i in p.calls:
        for x in p.args(i):
            yield from sub(x)
    for a, v, i in p.st:
        yield from sub(v)
    for q, a, b in p.F:
        yield from sub(a)
        yield from sub(b)


def hugestart(p, w, P):
    """P is the first page of the huge pages that w got"""
    d = lf(P)
    return len(d) == 1 and all(v == PP and isinstance(k, tuple) and k[0] == "ext" and k[1] == p.val(w) and idx(k) == 0 for k, v in d.items())


def pageof(p, w, k, t):
    a = p.args(w)
    if k == "filler":
        # the result's second member
        return t[0] == "load" and (t[1][:3] == ("gep", a[0], 8) and not t[1][3] or t[1][0] == "fld" and t[1][2] == "page" and t[1][3] == a[0])
    if k == "region":
        return t == ("load", a[2], None)
    if hugestart(p, w, t):
        return True
    return any(t[:2] == ("ext", p.val(i)) and idx(t) == 0 for i in p.name("PageTracker::Get"))


# -- Delete -------------------------------------------------------------------
def gone(c, p, T, f, at=None):
    """a tracker's huge page goes back to the cache"""
    def loc(x):
        return x[:2] == ("call", "PageTracker::location") and x[2][0] == T or at is not None and x == at
    n = sum(1 for i in p.name("HugeCache::Release", "HugeCache::ReleaseUnbacked") if loc(p.args(i)[1]) and p.args(i)[2] == I(1))
    rel = [i for i in p.name("HugeCache::Release", "HugeCache::ReleaseUnbacked") if loc(p.args(i)[1]) and p.args(i)[2] == I(1)]
    c.ob("gone", len(rel) == 1, "page", f, "an empty huge page is not returned once")
    rd = [p.truth(p.val(i)) for i in p.name("PageTracker::released") if p.args(i)[0] == T and rel and p.ix(i) < p.ix(rel[0])]
    if rel:
        c.ob("gone", bool(rd) and rd[-1] == rel[0].cshort.endswith("Unbacked"), "backing", f, "a huge page that was released to the system is returned as backed, or the reverse")
    forget(c, p, T, f, loc)
    wd = [p.truth(p.val(i)) for i in p.name("PageTracker::was_donated") if p.args(i)[0] == T]
    ab = [p.truth(p.val(i)) for i in p.name("PageTracker::abandoned") if p.args(i)[0] == T]
    c.ob("count", bool(wd) and wd[-1] is not None, "ask", f, "whether the huge page was donated is not looked at")
    d = {1: -1} if True in wd else {}
    c.ob("count", p.count("donated_huge_pages_") == d, "donated", f, "the donated huge pages do not follow")
    if True in wd:
        c.ob("count", bool(ab) and ab[-1] is not None, "ask-abandoned", f, "whether the huge page was abandoned is not looked at")
    x = p.count("abandoned_pages_")
    sa = [p.args(i) for i in p.name("set_abandoned") if p.args(i)[0] == T]
    if True in wd and True in ab:
        c.ob("count", isabn(x, T, -1) and len(sa) == 1 and bit(sa[0][1]) == 0, "unabandon", f, "abandoned pages stay counted once their huge page is gone")
    else:
        c.ob("count", x == {} and not any(bit(y[1]) for y in sa), "abandoned", f, "the abandoned pages change with a huge page that was not abandoned")


def forget(c, p, T, f, loc):
    sh = [i for i in p.name("::SetHugepage")]
    dl = [i for i in p.name("MetadataObjectAllocator::Delete") if p.args(i)[1] == T]
    c.ob("gone", len(sh) == 1 and loc(p.args(sh[0])[-2]) and p.args(sh[0])[-1] == I(0), "map", f, "the page map leads to a tracker that is gone")
    c.ob("gone", len(dl) == 1 and field(p.args(dl[0])[0], "tracker_allocator_"), "free", f, "the tracker is not freed once")
    if len(dl) == 1:
        late = [i for i in p.calls if p.ix(i) > p.ix(dl[0]) and T in p.args(i)]
        c.ob("gone", not late, "use", f, "a tracker is used after it was freed")


def isabn(x, T, s):
    return x is not None and len(x) == 1 and all(v == s and isinstance(k, tuple) and k[:2] == ("call", "PageTracker::abandoned_count") and k[2][0] == T for k, v in x.items())


def delete(c, f):
    kinds = set()
    for h, p in spaths(f):
        if p.end[0] not in ("ret", "stop", "turn"):
            continue
        if p.end[0] != "ret":
            c.ob("return", False, "loop", f, "")
            continue
        rf, cs, gh, pu, mp = p.name("PageAllocInfo::RecordFree"), p.name("::ClearSpan"), p.name("::GetHugepage"), p.name("HugePageFiller::Put"), p.name("HugeRegionSet::MaybePut")
        cr = p.name("HugeCache::Release", "HugeCache::ReleaseUnbacked")
        sa = p.name("set_abandoned")
        c.ob("return", len(rf) == 1, "record", f, "a free is not recorded once")
        if len(rf) != 1:
            continue
        P, N = p.args(rf[0])[1:3]
        c.ob("return", P[0] == N[0] == "load" and P != N and A[1] in tuple(sub(P)) and A[1] in tuple(sub(N)), "what", f, "what is recorded is not the span's pages")
        c.ob("return", len(cs) == 1 and p.args(cs[0])[-1] == P, "clear", f, "the page map still leads to the span")
        hp = mk(lf(("lshr", P, I(8))))
        c.ob("return", bool(gh) and p.args(gh[0])[-1] == hp, "look", f, "the huge page's tracker is not looked up")
        if not gh:
            continue
        T = p.val(gh[0])
        z = p.is0(T)
        don = next((p.truth(t) for q, t, b in p.F if b == I(0) and t[0] == "load" and A[1] in tuple(sub(t)) and t not in (P, N)), None)
        if z is False:
            c.ob("return", len(pu) == 1 and not mp, "filler", f, "the pages are not given back to the filler alone")
            if len(pu) != 1:
                continue
            a = p.args(pu[0])
            c.ob("return", field(a[0], "filler_") and a[1] == T and a[2:4] == [P, N], "filler-what", f, "what the filler gets back is not the span's pages")
            full = p.is0(p.val(pu[0]))
            c.ob("return", full is not None, "filler-ask", f, "whether the huge page is empty is not looked at")
            if full:
                kinds.add("filler")
                c.ob("return", not cr and not p.name("::SetHugepage", "MetadataObjectAllocator::Delete"), "used", f, "a huge page in use is given back")
                c.ob("count", p.count("donated_huge_pages_") == {}, "used", f, "a huge page in use is no more counted as donated")
                if don:
                    c.ob("count", isabn(p.count("abandoned_pages_"), T, 1) and len(sa) == 1 and p.args(sa[0])[0] == T and bit(p.args(sa[0])[1]) == 1, "abandon", f, "abandoned pages are not counted")
                else:
                    c.ob("count", don is False and p.count("abandoned_pages_") == {} and not sa, "keep", f, "pages are counted as abandoned that are not")
            else:
                kinds.add("empty")
                R = p.val(pu[0])
                gone(c, p, R if any(R in p.args(i) for i in p.name("MetadataObjectAllocator::Delete")) else T, f, hp)
                c.ob("return", len(cr) == 1, "once", f, "an empty huge page is returned twice")
            continue
        c.ob("return", z is True and len(mp) == 1 and field(p.args(mp[0])[0], "regions_") and p.args(mp[0])[1:3] == [P, N], "region", f, "the regions are not asked whether the pages are theirs")
        if len(mp) != 1:
            continue
        own = p.truth(p.val(mp[0]))
        c.ob("return", own is not None, "region-ask", f, "whether a region took the pages is not looked at")
        if own:
            kinds.add("region")
            c.ob("return", not pu and not cr and not sa and not p.name("::SetHugepage", "MetadataObjectAllocator::Delete"), "region-only", f, "pages of a region go elsewhere as well")
            c.ob("count", p.count("donated_huge_pages_") == {} and p.count("abandoned_pages_") == {}, "region", f, "pages of a region change the counts")
            continue
        big = [i for i in cr if p.args(i)[1] == hp]
        c.ob("return", len(big) == 1 and big[0].cshort.endswith("Release"), "cache", f, "whole huge pages are not returned once")
        if len(big) != 1:
            continue
        n = p.args(big[0])[2]
        H = next((x for x in (n, mk(plus(lf(n), {1: 1}))) if hlpages(x, N)), None)
        c.ob("return", H is not None, "cover", f, "what is returned is not the huge pages of the span")
        if H is None:
            continue
        whole = p.eqv(scale(H, PP), N)
        if whole:
            kinds.add("whole")
            c.ob("return", n == H and not pu and len(cr) == 1, "whole", f, "some of the huge pages are not returned")
            c.ob("count", p.count("donated_huge_pages_") == {} and p.count("abandoned_pages_") == {} and not sa, "whole", f, "huge pages that were not donated change the counts")
            continue
        last = mk(plus(plus(lf(hp), lf(H)), {1: -1}))
        c.ob("return", len(gh) == 2 and lf(p.args(gh[1])[-1]) == lf(last), "last", f, "the last huge page's tracker is not looked up")
        if len(gh) != 2:
            continue
        L = p.val(gh[1])
        if p.is0(L) is not False:
            c.ob("return", bool(p.name("ReportDoubleFree")), "double", f, "a double free goes on unnoticed")
            continue
        c.ob("return", len(pu) == 1, "tail", f, "the span's part of the last huge page is not given back to the filler")
        if len(pu) != 1:
            continue
        a = p.args(pu[0])
        c.ob("return", field(a[0], "filler_") and a[1] == L and lf(a[2]) == lf(scale(last, PP)) and p.eqv(a[3], mk(plus(plus(lf(N), lf(scale(H, PP)), -1), {1: PP}))),
             "tail-what", f, "what the filler gets back is not the span's part of the last huge page")
        full = p.is0(p.val(pu[0]))
        c.ob("return", full is not None, "tail-ask", f, "whether the last huge page is empty is not looked at")
        if full:
            kinds.add("tail-used")
            c.ob("return", plus(lf(H), lf(n), -1) == {1: 1} and len(cr) == 1 and not p.name("::SetHugepage", "MetadataObjectAllocator::Delete"), "tail-used", f, "a huge page in use is given back")
            c.ob("count", isabn(p.count("abandoned_pages_"), L, 1) and len(sa) == 1 and p.args(sa[0])[0] == L and bit(p.args(sa[0])[1]) == 1 and p.count("donated_huge_pages_") == {},
                 "tail-abandon", f, "abandoned pages are not counted")
            continue
        R = p.val(pu[0])
        L = R if any(R in p.args(i) for i in p.name("MetadataObjectAllocator::Delete")) else L
        rd = [p.truth(p.val(i)) for i in p.name("PageTracker::released") if p.args(i)[0] == L]
        if len(cr) == 2:
            kinds.add("tail-split")
            c.ob("return", plus(lf(H), lf(n), -1) == {1: 1}, "tail-twice", f, "the last huge page is returned twice")
            gone(c, p, L, f, last)
        else:
            kinds.add("tail-joined")
            c.ob("return", n == H, "tail-lost", f, "the last huge page is lost")
            c.ob("gone", bool(rd) and rd[0] is False, "tail-backing", f, "a huge page that was released to the system is returned as backed")
            forget(c, p, L, f, lambda x: x[:2] == ("call", "PageTracker::location") and x[2][0] == L or lf(x) == lf(last))
            c.ob("count", p.count("donated_huge_pages_") == {1: -1} and p.count("abandoned_pages_") == {} and not any(bit(p.args(i)[1]) for i in sa), "tail-count", f, "the donated huge pages do not follow")
    c.ob("return", {"filler", "empty", "region", "whole", "tail-used", "tail-split", "tail-joined"} <= kinds, "any", f, "a way back is never taken: %s" % sorted(kinds))


def treat(c, f):
    some = end = False
    for h, p in spaths(f):
        ft = p.name("FetchFullyFreedTracker")
        if h is None:
            c.ob("gone", not ft or p.end[0] != "ret", "start", f, "")
            continue
        if p.end[0] not in ("ret", "turn", "stop"):
            continue
        c.ob("gone", len(ft) == 1, "fetch", f, "the empty huge pages are not fetched one at a time")
        if len(ft) != 1:
            continue
        T = p.val(ft[0])
        z = p.is0(T)
        if p.end[0] == "ret":
            end = True
            c.ob("gone", z is True, "all", f, "an empty huge page is left behind")
        else:
            some = True
            c.ob("gone", z is False, "null", f, "a tracker that is not there is used")
            gone(c, p, T, f)
    c.ob("gone", some and end, "any", f, "empty huge pages are never returned")


# -- releasing ----------------------------------------------------------------
def atleast(c, f):
    parts(c, f, A[1], A[2])


def parts(c, f, want, reason):
    some = False
    for h, p in spaths(f):
        if p.end[0] != "ret":
            c.ob("release", p.end[0] not in ("stop", "turn"), "loop", f, "")
            continue
        r = lf(p.N(p.end[1]))
        s = {}
        for i in sorted(p.name("ReleaseCachedPages", "HugeRegionSet::ReleasePages", "HugePageFiller::ReleasePages"), key=p.ix):
            a, v = p.args(i), p.val(i)
            left = plus(lf(want), s, -1)
            if i.cshort.endswith("ReleaseCachedPages"):
                c.ob("release", not s and field(a[0], "cache_") and hlpages(a[1], want), "cache", f, "the cache is not asked for what is wanted")
                s = plus(s, lf(scale(v, PP)))
                continue
            cold = any(q == "eq" and b == I(2) and field(t, "tag_") for q, t, b in p.F) and any(p.truth(p.val(j)) is True for j in p.name("release_max_cold_pages"))
            enough = any(q in ("ule", "eq") and x == want and lf(y) == s or q == "ult" and x == want and lf(y) == s for q, x, y in p.F)
            ok = lf(a[1]) == left and not (enough and not any(q == "ule" and (x, lf(y)) == (want, s) for q, x, y in [])) or a[1] == I(0) and enough or cold and i.cshort.startswith("HugePageFiller")
            if lf(a[1]) == left and s:
                ok = any(q in ("ult", "ule") and lf(x) == s and y == want for q, x, y in p.F)
            c.ob("release", ok, "remainder", f, "a part is asked for more than is still wanted")
            s = plus(s, lf(v))
            some = True
        c.ob("release", r == s, "sum", f, "what is reported is not what was released")
        rr = p.name("PageAllocInfo::RecordRelease")
        c.ob("release", len(rr) == 1 and p.args(rr[0])[1] == want and lf(p.args(rr[0])[2]) == s and p.args(rr[0])[3] == reason, "record", f, "the release is not recorded as it was")
    c.ob("release", some, "any", f, "only the cache is ever asked")


def region(c, f):
    some = False
    for h, p in spaths(f):
        if p.end[0] not in ("ret",):
            continue
        g, n, ct = p.name("HugeAllocator::Get"), p.name("MetadataObjectAllocator::New"), p.name("HugeRegionSet::Contribute")
        if n or ct:
            some = True
            c.ob("source", len(n) == len(ct) == 1 and p.args(ct[0])[1] == p.val(n[0]) and field(p.args(ct[0])[0], "regions_") and field(p.args(n[0])[0], "region_allocator_"), "region", f, "a region is made and not offered")
        if g:
            c.ob("source", len(g) == 1 and p.args(g[0])[1] == I(512), "region-size", f, "a region is not of a region's size")
            v = p.val(g[0])
            ok = next((p.truth(t) for q, t, b in p.F if b == I(0) and t[0] == "and" and any(y[0] == "ext" and y[1] == v for y in t[1:])), None)
            c.ob("source", ok is not None and ok == bool(n), "region-have", f, "a region is made where there is no memory, or memory is lost")
            if n:
                q = p.args(n[0])[1]
                at = p.N(("load", q, None))
                c.ob("source", at[0] == "ext" and at[1] == v and idx(at) == 0, "region-where", f, "the region is not the range that was got")
    c.ob("source", some, "region-any", f, "no region is ever made")
