"""The huge page filler keeps each huge page it holds in the one list its
state calls for, and its page counts follow every change of a huge page."""
from tcm import *
from segs import segs
from lib import contradictory
from C09 import nrm, truthy, add, mk
from C19 import lin, plus, sub, eqv
from C34 import memory, final, ld, repl
from C11 import ends_of
from C17 import consts, n2, base, called_ok, knows

HF = r"^tcmalloc::tcmalloc_internal::HugePageFiller<tcmalloc::tcmalloc_internal::PageTracker>::"
AN = ["PageTrackerLists", "HintedTrackerLists", "TList<", r"PageTracker::(Get|Put|ReleaseFree|MarkSubreleased|Collapse|SetAnonVmaName|RecordFeatures)\(",
      r"HugePageFiller<.*>::(AddToFillerList|RemoveFromFillerList|DonateToFillerList|RecordLifetime|UpdateFillerStatsTracker|ListFor|IndexFor|SelectCandidates|ReleaseCandidates|FreePagesInPartialAllocs|GetDesiredSubreleasePages)\(",
      "Clock", "NextRandom", "std::.*sort", "CompareForSubrelease", "RangeTracker<", "Bitmap<"]
LISTS = ("regular_alloc_", "regular_alloc_partial_released_", "regular_alloc_released_", "donated_alloc_")
USED = {"regular_alloc_partial_released_": "n_used_partial_released_", "regular_alloc_released_": "n_used_released_"}


def run(c):
    c.rule("lists", "adding and removing a huge page agree on its list, position and counters")
    c.rule("out", "a huge page changes only while it is in no list, and is put back exactly once")
    c.rule("fit", "an allocation comes from the first list of its kind whose huge pages have room")
    c.rule("pages", "the page, huge page and unmapped counts change by what was allocated, freed or released")
    c.rule("flags", "the count of released huge pages changes with their flag")
    c.rule("handed", "what is returned is what was taken, and a huge page leaves only when it is wholly free")
    fs = {}
    for n in ("AddToFillerList", "RemoveFromFillerList", "DonateToFillerList", "TryGet", "Put", "Contribute", "ReleaseCandidates", "HandleReleaseFree",
              "HandleUnbackedHugePage", "OnCollapseSuccess", "FetchFullyFreedTracker", "free_pages"):
        an = [a if not a.startswith("HugePageFiller") else a.replace("(" + n + "|", "(").replace("|" + n + "|", "|").replace("|" + n + ")", ")") for a in AN]
        fs[n] = c.fns(r"%s%s\(" % (HF, n), an, floor=1)
        c.need(fs[n], "no HugePageFiller::" + n)
    homes(c, fs["AddToFillerList"], fs["RemoveFromFillerList"], fs["DonateToFillerList"])
    for f in fs["TryGet"]:
        tryget(c, f)
    for f in fs["Put"]:
        put(c, f)
    for f in fs["Contribute"]:
        contribute(c, f)
    for n in ("ReleaseCandidates", "HandleReleaseFree", "HandleUnbackedHugePage", "OnCollapseSuccess"):
        for f in fs[n]:
            changed(c, f, n)
    for f in fs["FetchFullyFreedTracker"]:
        fetch(c, f)
    for f in fs["free_pages"]:
        total(c, f)


# -- terms --------------------------------------------------------------------
def pf(n, o):
    return nrm(("fld", "PageTracker", n, o))


def flat(t):
    """the term with pure calls alike wherever they were made"""
    t = n2(t)

    def g(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "call" and len(t) > 3 and re.search(r"RangeTracker::|IndexFor|ListFor", t[1]):
            return t[:2] + tuple(g(x) for x in t[2:3]) + (0,) + t[4:]
        return tuple(g(x) if isinstance(x, tuple) else x for x in t)
    return g(t)


def cell(a, this):
    """(member of the filler, index within it, its stride) an address leads to"""
    a = nrm(a)
    off = {}
    stride = None
    while isinstance(a, tuple) and a:
        if a[0] == "fld":
            if a[3] == this:
                if a[1] != "HugePageFiller":
                    return None
                return a[2], mk(off)
            a = a[3]
        elif a[0] == "gep":
            off = plus(off, {1: a[2]} if a[2] else {})
            for k, v in a[3]:
                off = plus(off, {k: v})
            a = a[1]
        else:
            return None
    return None


def kind(s, x, dense):
    """an index into a pair of members is that of the density `dense`"""
    a = lin(x)
    if a and len(a) == 1 and 1 not in a:
        (k, v), = a.items()
        return nrm(k) == dense
    if not a or set(a) == {1}:
        v = a.get(1, 0) != 0
        for y in s.F:
            if y[0] == "cmp" and y[1] in ("eq", "ne") and y[3][0] == "int" and n2(y[2]) == dense:
                if y[3] == I(0):
                    if (y[1] == "ne") == v:
                        return True
                elif y[3] == I(1) and (y[1] == "eq") == v:
                    return True
        if dense[0] == "int":
            return (dense != I(0)) == v
    return False


def cells(s, this):
    """what a path stores in the filler: {(member, index): (change, instruction)}"""
    out, val = memory(s)
    r = {}
    for a, v, i in out:
        k = cell(a, this)
        if k:
            d = sub(n2(v), ld(a))
            if k in r:
                # a second change of the same counter
                d = sub(n2(v), ld(a))
            r[k] = (d, i)
    return r, out


def named(s, cs, n):
    return [(k[1], d, i) for k, (d, i) in cs.items() if k[0] == n]


def events(s, this):
    """(what, huge page, instruction) in order"""
    out = []
    for i in s.ins:
        if i.op == "call":
            n = i.cshort.split("::")[-1]
            a = [nrm(x) for x in s.args(i)] if i.cshort != "<indirect>" else []
            if i.cshort.startswith("HugePageFiller::"):
                if n in ("RemoveFromFillerList", "AddToFillerList", "DonateToFillerList"):
                    out.append(({"R": "out", "A": "in", "D": "donate"}[n[0]], a[1], i))
            elif i.cshort.startswith("PageTracker::") and n in ("Get", "Put", "ReleaseFree", "MarkSubreleased"):
                out.append((n, a[0], i))
            elif i.cshort.startswith("HintedTrackerLists::") and n == "GetLeast":
                out.append(("least", nrm(s.term(s.f.term(i))), i))
        elif i.op == "store":
            a = nrm(s.t(i.ops[1]))
            if a[0] == "fld" and a[1] == "PageTracker" and a[2] in ("unbroken_", "has_dense_spans_", "donated_", "released_count_"):
                out.append(("set " + a[2], a[3], i))
    return out


def known_null(s, t):
    for x in s.F:
        if x[0] == "cmp" and x[1] in ("eq", "ne") and x[3] in (("null",), I(0)) and nrm(x[2]) == t:
            return x[1] == "eq"
    return None


def typestate(c, f, s, ev, pt, tag, fresh=False, leaves=False):
    """pt is out of its list whenever it changes, and back in at the end"""
    inside = not fresh
    back = 0
    for w, p, i in ev:
        if p != pt:
            continue
        if w in ("out", "least"):
            c.ob("out", inside or w == "least", tag + "-twice", i, "a huge page is removed that is in no list")
            inside = False
        elif w in ("in", "donate"):
            c.ob("out", not inside, tag + "-added", i, "a huge page is added to a second list")
            inside = True
            back += 1
        else:
            c.ob("out", not inside, tag + "-changed", i, "a huge page changes while a list holds it by its old state")
    c.ob("out", inside != leaves, tag + "-end", f, "a huge page that stays is in no list" if not leaves else "a huge page given away is still in a list")


# -- the lists ----------------------------------------------------------------
def homes(c, adds, rems, dons):
    A, R = [], []
    for fs, op, to in ((adds, "Add", A), (rems, "Remove", R)):
        for f in fs:
            this, pt = ("arg", 0), ("arg", 1)
            for s in ends_of(f):
                if s.end[0] != "ret":
                    c.ob("lists", False, op, f, "filing a huge page loops")
                    continue
                cs, out = cells(s, this)
                l = s.calls(r"HintedTrackerLists::(Add|Remove)$")
                q = s.calls(r"TList::(prepend|append|remove)$")
                F = {flat(x) for x in s.F}
                if op == "Add" and q:
                    full = any(x[0] == "cmp" and x[1] == "eq" and x[3] == I(256) and "longest_free" in repr(x[2]) for x in F)
                    c.ob("lists", full and not l and len(q) == 1 and cell(s.args(q[0])[0], this) == ("fully_freed_trackers_", I(0)) and nrm(s.args(q[0])[1]) == pt and not q[0].cshort.endswith("remove"),
                         "Add-free", f, "only a wholly free huge page waits to be fetched")
                    continue
                ok = len(l) == 1 and l[0].cshort.endswith(op) and not q
                c.ob("lists", ok, op + "-one", f, "a huge page is not %s exactly one list" % ("added to" if op == "Add" else "removed from"))
                if not ok:
                    continue
                a = [flat(x) for x in s.args(l[0])]
                k = cell(a[0], this)
                c.ob("lists", k is not None and k[0] in LISTS and a[1] == pt, op + "-which", f, "not a list of huge pages")
                if k is None or k[0] not in LISTS:
                    continue
                if op == "Add":
                    c.ob("lists", not any(x[0] == "cmp" and x[1] == "eq" and x[3] == I(256) and "longest_free" in repr(x[2]) for x in F) and any(x[0] == "cmp" and x[3] == I(256) and "longest_free" in repr(x[2]) for x in F), "Add-used", f, "a wholly free huge page is filed among those in use")
                dense = ld(pf("has_dense_spans_", pt))
                cnt = {n: named(s, cs, n) for n in USED.values()}
                if k[0] == "donated_alloc_":
                    c.ob("lists", "longest_free" in repr(a[2]) and a[2][0] == "call" and not any(cnt.values()), op + "-donated", f, "a donated huge page is not filed by its longest free range alone")
                    c.ob("lists", op == "Remove" and zeroed(F, pf("donated_", pt)) is False, op + "-isdonated", f, "a huge page not donated is taken for donated")
                    to.append((s, f, k[0], a[2], F))
                    continue
                c.ob("lists", kind(s, k[1], dense), op + "-density", f, "the list is that of the other density")
                ix = a[2]
                g = ix[0] == "call" and ix[1].endswith("ListFor")
                if g:
                    b = ix[2]
                    g = "longest_free" in repr(b[1]) and b[2][0] == "call" and b[2][1].endswith("IndexFor") and b[2][2][-1] == pt and (b[3] == dense or kind(s, b[3], dense)) and "allocs" in repr(b[4])
                c.ob("lists", g, op + "-index", f, "the position is not that for the huge page's longest range, density and allocations")
                rel, fr = zeroed(F, pf("released_count_", pt)), room(F, pt)
                if k[0] == "regular_alloc_":
                    c.ob("lists", rel is True, op + "-whole", f, "a huge page with released pages is filed among the whole ones")
                else:
                    c.ob("lists", fr is not None and fr == (k[0] == "regular_alloc_partial_released_"), op + "-partial", f, "huge pages with backed free pages and those without are mixed up")
                want = USED.get(k[0])
                for n, v in cnt.items():
                    if n == want:
                        d = flat(v[0][1]) if len(v) == 1 else None
                        u = ("call", "RangeTracker::used", (pf("free_", pt),), 0)
                        c.ob("lists", d is not None and eqv(d, u if op == "Add" else sub(I(0), u)) and kind(s, v[0][0], dense), "%s-%s" % (op, n), f, "the used pages counted for the list do not change by the huge page's")
                    else:
                        c.ob("lists", not v, "%s-other-%s" % (op, n), f, "the used pages of another list change")
                if op == "Add":
                    o = final(out)
                    c.ob("lists", o.get(pf("donated_", pt)) == I(0), "Add-regular", f, "a huge page filed as regular is still marked donated")
                else:
                    c.ob("lists", zeroed(F, pf("donated_", pt)) is True, "Remove-regular", f, "a donated huge page is looked for among the regular ones")
                to.append((s, f, k[0], flat(ix), F))
    n = 0
    for s, f, k, ix, F in A:
        G = {x for x in F if "donated_" not in repr(x)}
        for s2, f2, k2, ix2, F2 in R:
            if k2 == "donated_alloc_":
                continue
            G2 = {x for x in F2 if "donated_" not in repr(x)}
            if contradictory(G | G2) or any(f.neg(x) in G2 for x in G):
                continue
            n += 1
            c.ob("lists", k == k2 and ix == ix2, "agree", f2, "a huge page added to %s is looked for in %s" % (k, k2))
    c.ob("lists", n > 0, "agree-any", "", "adding and removing have no case in common")
    for f in dons:
        this, pt = ("arg", 0), ("arg", 1)
        for s in ends_of(f):
            l = s.calls(r"HintedTrackerLists::(Add|Remove)$")
            a = [flat(x) for x in s.args(l[0])] if len(l) == 1 else None
            ok = a is not None and cell(a[0], this) == ("donated_alloc_", I(0)) and a[1] == pt and a[2][0] == "call" and "longest_free" in a[2][1] and l[0].cshort.endswith("Add")
            c.ob("lists", ok, "Donate", f, "a donated huge page is not filed by its longest free range")
            c.ob("lists", final(memory(s)[0]).get(pf("donated_", pt)) == I(1), "Donate-mark", f, "a huge page filed as donated is not marked so")


def zeroed(F, a):
    for x in F:
        if x[0] == "cmp" and x[1] in ("eq", "ne") and x[3] == I(0) and nrm(x[2]) == ld(a):
            return x[1] == "eq"
        y, neg = x, False
        while y[0] == "not":
            neg, y = not neg, y[1]
        if nrm(y) == ld(a):
            return neg
    return None


def room(F, pt):
    """whether a huge page has more free pages than released ones"""
    u = ("call", "RangeTracker::used", (pf("free_", pt),), 0)
    r = ld(pf("released_count_", pt))
    free = sub(I(256), u)
    for x in F:
        if x[0] != "cmp":
            continue
        d = sub(flat(x[2]), flat(x[3]))
        if x[1] == "ult" and eqv(d, sub(r, free)):
            return True
        if x[1] == "ule" and eqv(d, sub(free, r)):
            return False
        if x[1] == "ult" and eqv(d, sub(free, r)):
            return False
    return None


# -- allocation ---------------------------------------------------------------
def tryget(c, f):
    res, this, n, dense = ("arg", 0), ("arg", 1), ("arg", 2), ("arg", 4)
    found = set()
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("fit", False, "TryGet", f, "allocation loops")
            continue
        ev = events(s, this)
        cs, out = cells(s, this)
        m = final(out)
        tried, won = [], None
        for w, p, i in ev:
            if w != "least":
                continue
            a = [flat(x) for x in s.args(i)]
            k = cell(a[0], this)
            if k is None or k[0] not in LISTS:
                c.ob("fit", False, "TryGet-list", i, "not a list of huge pages")
                continue
            c.ob("fit", won is None, "TryGet-more", i, "a second huge page is taken")
            if k[0] == "donated_alloc_":
                c.ob("fit", eqv(a[1], n), "TryGet-donated", i, "donated huge pages are not searched from the length wanted")
                c.ob("fit", kind(s, I(0), dense), "TryGet-sparse", i, "a donated huge page is taken for a dense span")
            else:
                b = a[1]
                g = b[0] == "call" and b[1].endswith("ListFor") and b[2][1] == n and b[2][2] == I(0) and b[2][3] == dense and eqv(b[2][4], I(255))
                c.ob("fit", g, "TryGet-index", i, "the list is not searched from the first that has room")
                c.ob("fit", kind(s, k[1], dense), "TryGet-density", i, "a huge page of the other density is taken")
            z = known_null(s, p)
            if z is False:
                won = (k[0], p, i)
            else:
                c.ob("fit", z is True, "TryGet-seen", i, "a huge page is taken and forgotten")
            tried.append(k[0])
        c.ob("fit", len(set(tried)) == len(tried), "TryGet-once", f, "a list is asked twice")
        rf = {a[2]: v for a, v in m.items() if a[0] == "fld" and base(a) == res}
        rest = {a: v for a, v in m.items() if base(a) == res}
        vals = [v for v in rest.values()]
        if won is None:
            ok = set(tried) >= {"regular_alloc_", "regular_alloc_partial_released_", "regular_alloc_released_"}
            ok = ok and ("donated_alloc_" in tried or kind(s, I(8), dense))
            c.ob("fit", ok, "TryGet-all", f, "an allocation fails with a list unasked: %s" % tried)
            c.ob("handed", not cs and all(v in (("null",), I(0)) for v in vals), "TryGet-none", f, "a failed allocation changes something")
            continue
        k, pt, gi = won
        found.add(k)
        typestate(c, f, s, ev, pt, "TryGet")
        g = [i for w, p, i in ev if w == "Get"]
        ok = len(g) == 1 and [nrm(x) for x in s.args(g[0])][:2] == [pt, n]
        c.ob("handed", ok, "TryGet-get", f, "the pages are not taken once from the huge page found")
        if not ok:
            continue
        r = nrm(s.term(f.term(g[0])))
        parts = [v for v in vals if v[0] == "ext" and v[1] == r]
        c.ob("handed", pt in vals and len(parts) == 1 and pagepart(parts[0]), "TryGet-result", f, "what is returned is not the huge page and page taken")
        c.ob("handed", sum(1 for v in vals if v in (I(1), I(-1))) == (1 if k in USED else 0), "TryGet-flag", f, "whether released memory was used is misreported")
        for q in USED.values():
            v = named(s, cs, q)
            if USED.get(k) == q:
                u = ("call", "RangeTracker::used", (pf("free_", pt),), 0)
                ok = len(v) == 1 and eqv(flat(v[0][1]), sub(I(0), flat(u))) and kind(s, v[0][0], dense)
                c.ob("pages", ok, "TryGet-" + q, f, "the used pages of the list do not shrink by the huge page's")
                uc = [i for i in s.calls(r"RangeTracker::used$")]
                c.ob("pages", ok and uc and all(s.ins.index(i) < s.ins.index(g[0]) for i in uc), "TryGet-before-" + q, f, "the used pages are read after they changed")
            else:
                c.ob("pages", not v, "TryGet-other-" + q, f, "the used pages of another list change")
        v = named(s, cs, "pages_allocated_")
        c.ob("pages", len(v) == 1 and eqv(v[0][1], n) and kind(s, v[0][0], dense), "TryGet-pages", f, "the pages allocated do not grow by the length")
        v = named(s, cs, "unmapped_")
        d = v[0][1] if len(v) == 1 else I(0)
        a = lin(sub(I(0), d))
        ok = len(a) == 1 and list(a.values()) == [1] and next(iter(a))[0] == "ext" and next(iter(a))[1][0] == "call" and next(iter(a))[1][3] == r[3] and not pagepart(next(iter(a)))
        c.ob("pages", ok, "TryGet-unmapped", f, "the unmapped pages do not shrink by those allocated")
        c.ob("pages", not named(s, cs, "size_"), "TryGet-size", f, "an allocation changes the number of huge pages")
        flag(c, f, s, cs, m, pt, dense, "TryGet", 1)
    c.ob("fit", found == set(LISTS), "TryGet-kinds", f, "some huge pages are never allocated from")


def pagepart(t):
    return str(t[2]) in ("0", "0()", "(0,)", "[0]") or t[2] == (0,) or t[2] == 0


def flag(c, f, s, cs, m, pt, dense, tag, by):
    """the flag and the count of those that have it change together"""
    v = named(s, cs, "n_was_released_")
    a = pf("was_released_", pt)
    st = m.get(a)
    if st is None:
        c.ob("flags", not v, tag + "-count", f, "the count of released huge pages changes without a flag")
        return
    was = zeroed(set(s.F), a)
    d = v[0][1] if len(v) == 1 else I(0)
    if st == I(0):
        want = I(-1) if was is False else I(0) if was is True else None
    else:
        want = I(1) if was is True else I(0) if was is False else None
    c.ob("flags", want is not None and eqv(d, want) and (not v or kind(s, v[0][0], dense)), tag + "-flag", f, "a flag changes without the count of those that have it")


# -- deallocation -------------------------------------------------------------
def put(c, f):
    this, pt = ("arg", 0), ("arg", 1)
    dense = ld(pf("has_dense_spans_", pt))
    n = ("arg", 3)
    u = ("call", "RangeTracker::used", (pf("free_", pt),), 0)
    rel = ld(pf("released_count_", pt))
    gone = 0
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("out", False, "Put", f, "deallocation loops")
            continue
        ev = events(s, this)
        cs, out = cells(s, this)
        m = final(out)
        F = {flat(x) for x in s.F}
        r = nrm(s.end[1])
        given = r == pt
        c.ob("handed", given or r in (("null",), I(0)), "Put-result", f, "something else than the huge page is returned")
        full = None
        for x in F:
            if x[0] == "cmp" and x[1] in ("eq", "ne") and x[3] == I(256) and "longest_free" in repr(x[2]):
                full = x[1] == "eq"
        kept = None
        for x in F:
            if x[0] == "cmp" and x[1] in ("eq", "ne") and x[3] == I(0) and nrm(x[2]) == ld(pf("dont_free_tracker_mask_", pt)):
                kept = x[1] == "ne"
        typestate(c, f, s, ev, pt, "Put", leaves=given)
        p = [i for w, q, i in ev if w == "Put"]
        ok = len(p) == 1 and [nrm(x) for x in s.args(p[0])][:3] == [pt, ("arg", 2), ("arg", 3)]
        c.ob("handed", ok, "Put-range", f, "the range is not returned once to its huge page")
        lf = s.calls(r"RangeTracker::longest_free$")
        if ok and lf and full is not None:
            c.ob("handed", all(s.ins.index(i) > s.ins.index(p[0]) for i in lf), "Put-look", f, "whether the huge page is free is looked at before the range is returned")
        if given:
            gone += 1
            c.ob("handed", full is True and kept is False, "Put-free", f, "a huge page leaves that is in use or being looked at")
        else:
            c.ob("handed", full is False or full is True and kept is True, "Put-kept", f, "a wholly free huge page stays")
        v = named(s, cs, "pages_allocated_")
        c.ob("pages", len(v) == 1 and eqv(v[0][1], sub(I(0), n)) and kind(s, v[0][0], dense), "Put-pages", f, "the pages allocated do not shrink by the length")
        v = named(s, cs, "size_")
        c.ob("pages", (len(v) == 1 and eqv(v[0][1], I(-1))) if full else not v, "Put-size", f, "the number of huge pages does not follow those that became free")
        v = named(s, cs, "unmapped_")
        un = named(s, cs, "unmapping_unaccounted_")
        ic = [i for i in s.ins if i.op == "call" and i.cshort == "<indirect>"]
        isrel = zeroed(F, pf("released_count_", pt))
        if full and isrel is False:
            c.ob("pages", len(v) == 1 and eqv(v[0][1], sub(I(0), rel)), "Put-unmapped", f, "the unmapped pages do not shrink by those of the huge page")
        else:
            c.ob("pages", not v or eqv(v[0][1], sub(I(0), rel)) and full, "Put-mapped", f, "the unmapped pages change for a huge page that stays")
        won = called_ok(s, ic[0]) if len(ic) == 1 else None
        if un:
            d = flat(un[0][1])
            c.ob("pages", len(un) == 1 and won is True and full is True and eqv(d, sub(sub(I(256), u), rel)), "Put-unaccounted", f, "pages count as newly released that were not")
        elif ic:
            c.ob("pages", won is False, "Put-accounted", f, "pages newly released are not accounted for")
        if full and isrel is False and not ic:
            c.ob("pages", room(F, pt) is False, "Put-unback", f, "a huge page given back keeps part of its memory while the rest is released")
        if full:
            a = pf("was_released_", pt)
            c.ob("flags", zeroed(F, a) is True or m.get(a) == I(0), "Put-clear", f, "a wholly free huge page keeps its flag")
        flag(c, f, s, cs, m, pt, dense, "Put", -1)
    c.ob("handed", gone > 0, "Put-gives", f, "no huge page is ever given back")


def contribute(c, f):
    this, pt = ("arg", 0), ("arg", 1)
    for s in ends_of(f):
        if s.end[0] != "ret":
            continue
        ev = events(s, this)
        cs, out = cells(s, this)
        F = s.F
        dense = None
        v = named(s, cs, "pages_allocated_")
        u = ("call", "RangeTracker::used", (pf("free_", pt),), 0)
        ok = len(v) == 1 and eqv(flat(v[0][1]), u)
        c.ob("pages", ok, "Contribute-pages", f, "the pages allocated do not grow by those in use in the huge page")
        if ok:
            c.ob("pages", any(kind(s, v[0][0], ("arg", k)) for k in range(2, len(f.d.get("args", [])) or 6)), "Contribute-density", f, "the pages are counted for the other density")
        v = named(s, cs, "size_")
        c.ob("pages", len(v) == 1 and eqv(v[0][1], I(1)), "Contribute-size", f, "the number of huge pages does not grow by one")
        typestate(c, f, s, ev, pt, "Contribute", fresh=True)
        don = [w for w, p, i in ev if w in ("in", "donate")]
        flagged = None
        for x in F:
            y, neg = x, False
            while y[0] == "not":
                neg, y = not neg, y[1]
            if y == ("arg", 2):
                flagged = not neg
            elif y[0] == "cmp" and nrm(y[2]) == ("arg", 2) and y[3] == I(0) and y[1] in ("eq", "ne"):
                flagged = (y[1] == "ne") != neg
        c.ob("lists", flagged is not None and don == (["donate"] if flagged else ["in"]), "Contribute-list", f, "a donated huge page is filed as regular or the other way round")


# -- changes ------------------------------------------------------------------
def changed(c, f, n):
    this = ("arg", 0)
    some = 0
    ret = None
    S = ends_of(f)
    sums = {s.end[1] and nrm(s.end[1]) for s in S if s.end[0] == "ret"} if n == "ReleaseCandidates" else set()
    for s in S:
        ev = events(s, this)
        cs, out = cells(s, this)
        m = final(out)
        pts = {p for w, p, i in ev}
        for pt in pts:
            typestate(c, f, s, ev, pt, n)
        muts = [(w, p, i) for w, p, i in ev if w in ("ReleaseFree", "MarkSubreleased")]
        un = named(s, cs, "unmapped_")
        if n == "OnCollapseSuccess":
            sets = [(w, p, i) for w, p, i in ev if w == "set unbroken_"]
            some += bool(sets)
            c.ob("out", not un, n + "-pages", f, "a collapse changes the unmapped pages")
            for w, p, i in sets:
                c.ob("out", nrm(s.t(i.ops[0])) in (I(1), I(-1)), n + "-whole", i, "a collapsed huge page is taken for broken")
            if s.end[0] == "ret" and not sets:
                a = pf("unbroken_", ("arg", 1))
                c.ob("out", zeroed(set(s.F), a) is False, n + "-skip", f, "a collapsed huge page stays broken")
            continue
        if not muts:
            c.ob("pages", not un, n + "-idle", f, "the unmapped pages change without a release")
            if s.end[0] == "ret" and n == "ReleaseCandidates":
                ret = nrm(s.end[1])
                v = [d for (k, x), (d, i) in cs.items() if k == "subrelease_stats_"]
            continue
        some += 1
        c.ob("pages", len(muts) == 1, n + "-once", f, "not one huge page is released at a time")
        r = nrm(s.term(f.term(muts[0][2])))
        c.ob("pages", len(un) == 1 and eqv(un[0][1], r), n + "-unmapped", f, "the unmapped pages do not grow by those released")
        if n.startswith("Handle"):
            c.ob("pages", nrm(s.end[1]) == r, n + "-returned", f, "the number returned is not that of the pages released")
            v = named(s, cs, "unmapping_unaccounted_")
            c.ob("pages", len(v) == 1 and eqv(v[0][1], r), n + "-unaccounted", f, "pages released here are not left to be accounted for")
        else:
            for p in sums:
                if p and p[0] == "phi" and s.end[0] == "turn":
                    c.ob("pages", p[1] in s.end[2] and eqv(sub(n2(s.end[2][p[1]]), p), r), n + "-sum", f, "the sum does not grow by the pages released")
            pt = muts[0][1]
            flag(c, f, s, cs, m, pt, ld(pf("has_dense_spans_", pt)), n, -1)
    c.ob("out", some > 0, n + "-any", f, "no huge page is changed")
    if n == "ReleaseCandidates":
        c.ob("pages", ret is not None and ret[0] == "phi", n + "-total", f, "the number returned is not the sum of the pages released")


def fetch(c, f):
    this = ("arg", 0)
    for s in ends_of(f):
        if s.end[0] != "ret":
            continue
        q = s.calls(r"TList::(first|last|remove|empty)$")
        rm = [i for i in q if i.cshort.endswith("remove")]
        r = nrm(s.end[1])
        if r in (("null",), I(0)):
            e = [truthy(s, s.term(f.term(i))) for i in q if i.cshort.endswith("empty")]
            c.ob("handed", not rm and True in e, "Fetch-none", f, "no huge page is returned though one waits")
        else:
            ok = len(rm) == 1 and nrm(s.args(rm[0])[1]) == r and r[0] == "call" and r[1].endswith(("first", "last"))
            c.ob("handed", ok and all(cell(s.args(i)[0], this) == ("fully_freed_trackers_", I(0)) for i in q), "Fetch-one", f, "the huge page returned is not taken off the list it waits in")


def total(c, f):
    this = ("arg", 0)
    for s in ends_of(f):
        if s.end[0] != "ret":
            continue
        a = lin(n2(s.end[1]))
        got = {}
        for k, v in a.items():
            x = cell(k[1], this) if k != 1 and k[0] == "load" else None
            if x is None:
                got = None
                break
            got[x] = v
        want = {("size_", I(0)): 256, ("unmapped_", I(0)): -1, ("pages_allocated_", I(0)): -1, ("pages_allocated_", I(8)): -1}
        c.ob("pages", got == want, "free_pages", f, "the free pages are not those of all huge pages neither in use nor unmapped")
