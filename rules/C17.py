"""A huge page's tracker knows which of its pages are free, released or used,
and hands out, takes back, releases and reports exactly those."""
from tcm import *
from segs import segs
from C09 import nrm, truthy
from C19 import lin, plus, sub, eqv, minform, at_most, bn
from C09 import add, mk
from C34 import memory, final, ld, repl
from C11 import ends_of

PT = r"^tcmalloc::tcmalloc_internal::PageTracker::"
AN = ["RangeTracker<", "Bitmap<", "SpinLock", "PageHeapSpinLockHolder", "GetPageSize"]
THIS = ("arg", 0)


def run(c):
    c.rule("take", "a range is found, marked, made backed and returned as one and the same")
    c.rule("give", "a returned range is unmarked where it lies")
    c.rule("release", "exactly pages that are free and not yet released are released, and only what the system released is recorded")
    c.rule("count", "the released count changes by the bits that changed")
    c.rule("collapse", "collapse is announced under the lock around the call, and not attempted on a released page")
    c.rule("spans", "each free page is reported once, by its state")
    for n, k in (("Get", get), ("Put", put), ("ReleaseFree", free), ("MarkSubreleased", subreleased), ("Collapse", collapse), ("AddSpanStats", spans)):
        fs = c.fns(r"%s%s\(" % (PT, n), AN, floor=1)
        c.need(fs, "no PageTracker::" + n)
        for f in fs:
            k(c, f)
    news(c)


# -- terms --------------------------------------------------------------------
def fld(n, o=THIS):
    return nrm(("fld", "PageTracker", n, o))


def isf(a, n):
    """the address of a tracker's own member"""
    while isinstance(a, tuple) and a and a[0] == "fld":
        if a[1] == "PageTracker" and a[3] == THIS:
            return a[2] == n
        a = a[3]
    return False


def consts(t):
    """the term with the number of pages of a huge page as a number"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "load" and "kPagesPerHugePage" in repr(t[1]) and "arg" not in repr(t[1]):
        return I(256)
    return tuple(consts(x) if isinstance(x, tuple) else x for x in t)


def n2(t):
    return consts(nrm(t))


def first(t):
    """t as (pages past the huge page's first)"""
    a = lin(n2(t))
    for k, v in list(a.items()):
        if k != 1 and v == 256 and k[0] == "load" and isf(k[1], "location_"):
            del a[k]
            return mk(a)
    return None


def outs(s):
    """the view of what NextFreeRange wrote through its addresses"""
    env = {}
    for i in s.ins:
        if i.op == "call" and i.cshort.endswith("::NextFreeRange"):
            a = [nrm(x) for x in s.args(i)]
            for k in (2, 3):
                env[ld(a[k])] = ("out", i.id, k)
    return env


def wrote(s):
    def w(i):
        if i.cshort.endswith("::NextFreeRange"):
            a = [nrm(x) for x in s.args(i)]
            return {a[k]: ("out", i.id, k) for k in (2, 3)}
        return {}
    return w


def view(t, env):
    return bn(repl(n2(t), env))


def called(s, i):
    return truthy(s, s.term(s.f.term(i)))


def stores(s):
    """the stores of a path to anything but its own frame, with what they store"""
    out, val = memory(s, wrote(s))
    return [(a, n2(v), i) for a, v, i in out if base(a)[0] != "alloca"]


def base(a):
    while isinstance(a, tuple) and a and a[0] in ("fld", "gep"):
        a = a[3] if a[0] == "fld" else a[1]
    return a


def delta(a, v):
    return sub(v, ld(a))


# -- one range ----------------------------------------------------------------
def get(c, f):
    n, obj = ("arg", 1), ("arg", 2)
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("take", False, "Get", f, "allocation loops")
            continue
        m = s.calls(r"RangeTracker::(FindAndMark|Mark|Unmark)$")
        ok = len(m) == 1 and m[0].cshort.endswith("FindAndMark") and isf(nrm(s.args(m[0])[0]), "free_") and nrm(s.args(m[0])[1]) == n
        c.ob("take", ok, "Get-mark", f, "what is allocated is not marked once")
        if not ok:
            continue
        x = nrm(s.term(f.term(m[0])))
        r = n2(s.end[1])
        parts = {}
        while r[0] == "insv":
            parts.setdefault(r[3][0] if isinstance(r[3], tuple) else r[3], r[2])
            r = r[1]
        w = [i for i in s.calls(r"Bitmap::CountBits$") if isf(nrm(s.args(i)[0]), "released_by_page_")]
        cl = s.calls(r"Bitmap::(ClearRange|SetRange)$")
        rel = fld("released_count_")
        none = not w and not cl
        if none:
            # nothing of the huge page was released
            c.ob("count", any(y[0] == "cmp" and (y[1], y[3]) in (("eq", I(0)), ("ule", I(0)), ("ult", I(1))) and nrm(y[2]) == ld(rel) for y in s.F), "Get-backed", f, "released pages are allocated without being counted as backed")
            back = I(0)
        else:
            good = len(w) == 1 and len(cl) == 1 and cl[0].cshort.endswith("ClearRange") and s.ins.index(w[0]) < s.ins.index(cl[0])
            good = good and isf(nrm(s.args(cl[0])[0]), "released_by_page_") and all([nrm(y) for y in s.args(i)[1:3]] == [x, n] for i in (w[0], cl[0]))
            c.ob("count", good, "Get-clear", f, "the allocated range is not counted and then marked backed")
            if not good:
                continue
            back = nrm(s.term(f.term(w[0])))
        vals = sorted(parts.items(), key=repr)
        got = [v for k, v in vals]
        c.ob("take", any(first(v) == bn(x) for v in got), "Get-page", f, "the page returned is not the one marked")
        rest = [v for v in got if first(v) is None]
        c.ob("count", len(got) == 2 and any(eqv(v, back) for v in rest), "Get-unbacked", f, "the number of released pages taken is misreported")
        m = final(stores(s))
        d = delta(rel, m[rel]) if rel in m else I(0)
        c.ob("count", eqv(d, sub(I(0), back)), "Get-count", f, "the released count changes by another number")
        o = fld("num_objects_")
        c.ob("take", o in m and eqv(delta(o, m[o]), obj), "Get-objects", f, "the object count does not grow by the span's objects")


def put(c, f):
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("give", False, "Put", f, "deallocation loops")
            continue
        u = s.calls(r"RangeTracker::(FindAndMark|Mark|Unmark)$")
        ok = len(u) == 1 and u[0].cshort.endswith("Unmark")
        if ok:
            a = s.args(u[0])
            d = first(add(a[1], mk({nrm(("load", fldloc(a[1]), None)): 512}))) if fldloc(a[1]) else None
            ok = isf(nrm(a[0]), "free_") and nrm(a[2]) == ("arg", 2) and d is not None and eqv(d, ("arg", 1))
        c.ob("give", ok, "Put-range", f, "the range unmarked is not the one returned")
        m = final(stores(s))
        o = fld("num_objects_")
        c.ob("give", o in m and eqv(delta(o, m[o]), sub(I(0), ("arg", 3))), "Put-objects", f, "the object count does not shrink by the span's objects")
        c.ob("count", not any(isf(a, "released_count_") or isf(a, "released_by_page_") for a in m) and not s.calls(r"Bitmap::(Set|Clear)"), "Put-released", f, "returning pages changes what is released")


def fldloc(t):
    """the address of the location read in a term"""
    for x in subterms(nrm(t)):
        if isinstance(x, tuple) and x and x[0] == "load" and isf(x[1], "location_"):
            return x[1]
    return None


# -- releasing ----------------------------------------------------------------
def free(c, f):
    cnt = idx = None
    S = ends_of(f)
    heads = [l["header"] for l in f.loops]
    if len(heads) != 1:
        c.ob("release", False, "ReleaseFree", f, "not one walk over the pages")
        return
    # the sum: what is returned; the position: what the next range is looked for from
    for s in S:
        if s.end[0] == "ret":
            cnt = nrm(s.end[1])
        for i in s.calls(r"Bitmap::NextFreeRange$"):
            a = [nrm(x) for x in s.args(i)]
            if isf(a[0], "released_by_page_"):
                p = a[1]
                idx = p if p[0] == "phi" else idx
    if not (cnt and cnt[0] == "phi" and idx):
        c.ob("release", False, "ReleaseFree-sum", f, "the pages released are not summed")
        return
    turned = 0
    for s in S:
        ph = s.end[2] if len(s.end) > 2 else {}
        nxt = {k: v for k, v in ph.items()}
        if s.end[0] == "stop":
            for p in (cnt, idx):
                c.ob("release", n2(nxt.get(p[1], I(1))) == I(0), "ReleaseFree-start", f, "the walk or its sum does not start from zero")
            continue
        q = [i for i in s.calls(r"Bitmap::NextFreeRange$") if isf(nrm(s.args(i)[0]), "released_by_page_") and nrm(s.args(i)[1]) == idx]
        icalls = [i for i in s.ins if i.op == "call" and i.cshort == "<indirect>"]
        if len(q) != 1 and s.end[0] == "turn":
            c.ob("release", False, "ReleaseFree-next", f, "the next range of backed pages is not looked for")
            continue
        env = outs(s)
        st = final(stores(s))
        sets = s.calls(r"Bitmap::(SetRange|ClearRange|SetBit|ClearBit)$")
        if s.end[0] == "ret":
            rel, b = fld("released_count_"), [a for a in st if isf(a, "hugepage_residency_state_")]
            c.ob("count", rel in st and eqv(delta(rel, st[rel]), cnt) or rel not in st and knows(s, cnt, True), "ReleaseFree-count", f, "the released count does not grow by what was released")
            c.ob("release", bool(q) and called(s, q[0]) is False, "ReleaseFree-all", f, "the walk stops with backed pages left unseen")
            c.ob("release", any(st[a] == I(0) for a in b) or knows(s, cnt, True), "ReleaseFree-backed", f, "a huge page that lost pages is still taken for backed")
            c.ob("release", not icalls and not sets, "ReleaseFree-after", f, "pages change after the walk")
            continue
        turned += 1
        i0, n0 = ("out", q[0].id, 2), ("out", q[0].id, 3)
        end = plusn(i0, n0)
        g = [i for i in s.calls(r"RangeTracker::NextFreeRange$") if isf(nrm(s.args(i)[0]), "free_")]
        ni, nc = view(nxt[idx[1]], env), view(nxt[cnt[1]], env)
        F = set(repl(n2(x), env) for x in s.F)
        if not icalls:
            c.ob("release", not sets and eqv(nc, cnt), "ReleaseFree-skip", f, "pages are recorded as released that were not")
            over = None
            for i in g:
                if eqv(view(s.args(i)[1], env), i0):
                    over = called(s, i) is False or at_most(F, end, ("out", i.id, 2))
            c.ob("release", over is True and eqv(ni, end), "ReleaseFree-miss", f, "free pages that are backed are passed over")
            continue
        if len(icalls) != 1 or len(g) != 1:
            c.ob("release", False, "ReleaseFree-once", f, "not one range is released at a time")
            continue
        a = s.args(icalls[0])
        fi, fn = ("out", g[0].id, 2), ("out", g[0].id, 3)
        c.ob("release", called(s, g[0]) is True and eqv(view(s.args(g[0])[1], env), i0) and called(s, q[0]) is True, "ReleaseFree-free", f, "the range released was not found free and backed")
        p, ln = first(repl(n2(a[1]), env)), view(a[2], env)
        lo_ok = p is not None and eqv(p, fi) and below(F, fi, end)
        c.ob("release", lo_ok, "ReleaseFree-page", f, "the pages released are not where the free range starts")
        top = plusn(fi, ln)
        m = minform(top)
        ok = m is not None and {eqvkey(add(m[0], m[1])), eqvkey(add(m[0], m[2]))} == {eqvkey(end), eqvkey(plusn(fi, fn))}
        ok = ok or eqv(top, end) and at_most(F, end, plusn(fi, fn)) or eqv(top, plusn(fi, fn)) and at_most(F, plusn(fi, fn), end)
        c.ob("release", ok, "ReleaseFree-len", f, "the pages released are not those both free and backed")
        won = called_ok(s, icalls[0])
        c.ob("release", won is not None, "ReleaseFree-ask", f, "whether the system released the pages is not asked")
        c.ob("release", eqv(ni, top), "ReleaseFree-on", f, "the walk does not go on behind what was released")
        if won:
            good = len(sets) == 1 and sets[0].cshort.endswith("SetRange") and isf(nrm(s.args(sets[0])[0]), "released_by_page_") and eqv(view(s.args(sets[0])[1], env), fi) and eqv(view(s.args(sets[0])[2], env), ln)
            c.ob("release", good, "ReleaseFree-mark", f, "the pages released are not marked as such")
            c.ob("count", eqv(sub(nc, cnt), ln), "ReleaseFree-sum", f, "the sum does not grow by the pages released")
            c.ob("release", st.get(fld("unbroken_")) == I(0), "ReleaseFree-broken", f, "a huge page that lost pages is still taken for unbroken")
        elif won is False:
            c.ob("release", not sets and eqv(nc, cnt), "ReleaseFree-fail", f, "pages the system kept are recorded as released")
    c.ob("release", turned >= 3, "ReleaseFree-walk", f, "the walk does not cover its cases")


def plusn(a, b):
    return mk(plus(lin(a), lin(b)))


def eqvkey(t):
    return repr(bn(t))


def below(F, a, b):
    d = sub(a, b)
    for x in F:
        if x[0] == "cmp":
            if x[1] == "ult" and eqv(x[2], a) and eqv(x[3], b) or x[1] == "ugt" and eqv(x[2], b) and eqv(x[3], a):
                return True
    return False


def knows(s, t, zero):
    return any(y[0] == "cmp" and y[3] == I(0) and nrm(y[2]) == t and (y[1] in ("eq", "ule")) == zero and y[1] in ("eq", "ule", "ne", "ugt") for y in s.F)


def called_ok(s, i):
    """whether the path takes a call to have succeeded: by the lowest bits of its result"""
    t = nrm(s.term(s.f.term(i)))
    for x in s.F:
        y, neg = x, False
        while y[0] == "not":
            neg, y = not neg, y[1]
        z = nrm(y[2]) if y[0] == "cmp" and y[3] in (I(0), I(1)) else nrm(y)
        if z[0] == "and" and len(z) == 3:
            z = z[1] if z[2] in (I(1), I(255)) else z[2] if z[1] in (I(1), I(255)) else z
        if z == t or z[0] == "ext" and z[1] == t:
            if y[0] == "cmp":
                v = (y[1] == "ne") == (y[3] == I(0)) if y[1] in ("eq", "ne") else None
                if v is None:
                    return None
                return v != neg
            return not neg
    return None


# -- bitmaps ------------------------------------------------------------------
ALL = 0xff
U, R, B = 0b10101010, 0b11001100, 0b11110000


def algebra(s):
    """what each bitmap holds along a path, as a truth table over used, released
    and found unbacked; (released at the end, counts by call) or None"""
    m = {}

    def rd(a):
        if isf(a, "released_by_page_"):
            return m.get("R", R)
        if a == ("arg", 1):
            return m.get("B", B)
        return m.get(repr(a))

    def wr(a, v):
        m["R" if isf(a, "released_by_page_") else "B" if a == ("arg", 1) else repr(a)] = v
    counts = {}
    for i in s.ins:
        if i.op != "call" or "lifetime" in i.cshort or "assume" in i.cshort:
            continue
        a = [nrm(x) for x in s.args(i)]
        n = i.cshort.split("::")[-1]
        if n == "bits" and len(a) == 2 and isf(a[1], "free_"):
            wr(a[0], U)
        elif n == "operator~":
            v = rd(a[1])
            if v is None:
                return None
            wr(a[0], ALL & ~v)
        elif n in ("operator&", "operator|"):
            v, w = rd(a[1]), rd(a[2])
            if v is None or w is None:
                return None
            wr(a[0], v & w if n == "operator&" else v | w)
        elif i.cshort.startswith("llvm.memcpy") or i.cshort.startswith("llvm.memmove"):
            v = rd(a[1])
            if v is None:
                return None
            wr(a[0], v)
        elif n == "CountBits":
            v = rd(a[0])
            if v is None:
                return None
            counts[i.id] = v
        else:
            return None
    return m.get("R", R), counts


def subreleased(c, f):
    want = ALL & ~U & ~R & B
    for s in ends_of(f):
        if s.end[0] != "ret":
            continue
        r = algebra(s)
        if r is None:
            continue
            continue
        rel, counts = r
        c.ob("release", rel == R | want, "MarkSubreleased-pages", f, "the pages marked released are not those that are free, not yet released and found unbacked")
        st = final(stores(s))
        k = fld("released_count_")
        got = table(lin(delta(k, st[k])), counts) if k in st else None
        c.ob("count", got == {want: 1} or got == {R | want: 1, R: -1}, "MarkSubreleased-count", f, "the released count does not grow by the pages newly marked")
        got = table(lin(n2(s.end[1])), counts)
        c.ob("count", got == {want: 1} or got == {R | want: 1, R: -1}, "MarkSubreleased-returned", f, "the number returned is not that of the pages newly marked")
        c.ob("release", st.get(fld("unbroken_")) == I(0), "MarkSubreleased-broken", f, "the huge page is still taken for unbroken")


def table(a, counts):
    """a sum of counts as {truth table: coefficient}"""
    r = {}
    for k, v in a.items():
        if k == 1 or k[0] != "call" or k[3] not in counts:
            return None
        t = counts[k[3]]
        r[t] = r.get(t, 0) + v
    return {k: v for k, v in r.items() if v}


# -- collapse -----------------------------------------------------------------
def collapse(c, f):
    did = 0
    rel = fld("released_count_")
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("collapse", False, "Collapse", f, "collapsing loops")
            continue
        ev, depth = [], 0
        for i in s.ins:
            if i.op == "call":
                n = i.cshort.split("::")[-1]
                if "LockHolder" in i.cshort or "SpinLock" in i.cshort:
                    un = n.startswith("~") or n.lower().startswith("unlock")
                    depth += -1 if un else 1
                    ev.append("U" if un else "L")
                elif i.cshort == "<indirect>":
                    a = s.args(i)
                    ev.append("C")
                    c.ob("collapse", depth == 0, "Collapse-unlocked", f, "the system is called under the page heap lock")
                    c.ob("collapse", first(n2(a[1])) == I(0) and n2(a[2]) == I(256), "Collapse-range", f, "the range collapsed is not the huge page")
            elif i.op == "store":
                a = nrm(s.t(i.ops[1]))
                if isf(a, "hugepage_residency_state_") and a[2] == "being_collapsed":
                    c.ob("collapse", depth > 0, "Collapse-locked", f, "the collapse is announced without the lock")
                    ev.append("1" if nrm(s.t(i.ops[0])) == I(1) else "0")
            elif i.op == "load" and nrm(s.t(i.ops[0])) == rel and "C" not in ev:
                ev.append("r")
                c.ob("collapse", depth > 0, "Collapse-look", f, "whether pages are released is looked at without the lock")
        e = "".join(ev)
        k = e.replace("r", "")
        if "C" in e:
            did += 1
            c.ob("collapse", k == "L1UCL0U", "Collapse-order", f, "the collapse is not announced, done and withdrawn in this order: %s" % k)
            c.ob("collapse", knows(s, ld(rel), True), "Collapse-whole", f, "a huge page with released pages is collapsed")
            c.ob("collapse", "r" in e and e.index("r") > e.index("L") and e.index("r") < e.index("U"), "Collapse-once", f, "the pages may be released between the look and the announcement")
        else:
            c.ob("collapse", k.count("1") == 0, "Collapse-left", f, "a collapse is announced that does not happen")
            c.ob("collapse", not knows(s, ld(rel), True), "Collapse-skip", f, "a huge page that could be collapsed is not")
    c.ob("collapse", did > 0, "Collapse-done", f, "no path collapses")


# -- reporting ----------------------------------------------------------------
def spans(c, f):
    heads = [l["header"] for l in f.loops]
    if len(heads) != 1:
        c.ob("spans", False, "AddSpanStats", f, "not one walk over the pages")
        return
    n = 0
    for s in ends_of(f):
        q = [i for i in s.calls(r"::NextFreeRange$") if isf(nrm(s.args(i)[0]), "free_")]
        if s.end[0] == "stop":
            c.ob("spans", any(n2(v) == I(0) for v in s.end[2].values()), "start", f, "the walk does not start at the first page")
            continue
        if len(q) != 1:
            c.ob("spans", False, "next", f, "the next free range is not looked for")
            continue
        idx = nrm(s.args(q[0])[1])
        if s.end[0] == "ret":
            c.ob("spans", called(s, q[0]) is False and not stores(s), "all", f, "the walk stops with free pages left out")
            continue
        n += 1
        st, val = memory(s, wrote(s))
        m = final(st)
        env = outs(s)
        late = dict(env)
        for a, v in m.items():
            if base(a)[0] == "alloca" and ld(a) in env:
                # what was stored after the call replaces what the call wrote
                if s.ins.index([i for x, _, i in st if x == a][-1]) > s.ins.index(q[0]):
                    late[ld(a)] = repl(n2(v), env)
        i0, n0 = ("out", q[0].id, 2), ("out", q[0].id, 3)
        nx = None
        for k, v in s.end[2].items():
            if idx == ("phi", k):
                nx = view(v, late)
        if nx is None:
            c.ob("spans", False, "step", f, "the walk does not go on from a position of its own")
            continue
        ln = sub(nx, i0)
        F = set(repl(n2(x), env) for x in s.F)
        gb = [i for i in s.calls(r"Bitmap::GetBit$") if isf(nrm(s.args(i)[0]), "released_by_page_") and eqv(view(s.args(i)[1], env), i0)]
        st_ = None
        for i in gb:
            st_ = called(s, i)
        fs = s.calls(r"Bitmap::Find(Set|Clear)$")
        ends = []
        for i in fs:
            if isf(nrm(s.args(i)[0]), "released_by_page_") and eqv(view(s.args(i)[1], env), plusn(i0, I(1))):
                ends.append((i.cshort.endswith("FindClear"), view(nrm(s.term(f.term(i))), env)))
        mf = minform(ln)
        es = {eqvkey(add(mf[0], mf[1])), eqvkey(add(mf[0], mf[2]))} if mf else set()
        okl = False
        for rel, e in ends:
            if eqvkey(sub(e, i0)) in es and eqvkey(n0) in es and (st_ is rel or st_ is None):
                st_ = rel
                okl = True
        if not okl and not ends and es == {eqvkey(sub(I(256), i0)), eqvkey(n0)}:
            okl = at_most(F, I(255), i0)
        c.ob("spans", okl, "range", f, "what is reported is not the run of free pages in one state")
        # one report, by length and state
        got = [(a, repl(n2(v), late), i) for a, v, i in st if base(a)[0] != "alloca"]
        small = any(x[0] == "cmp" and x[1] == "ult" and eqv(bn(x[2]), ln) for x in F)
        large = any(x[0] == "cmp" and x[1] in ("ule",) and eqv(bn(x[3]), ln) for x in F)
        kind = ("arg", 1) if small else ("arg", 2) if large else None
        nullk = kind is not None and any(x[0] == "cmp" and x[1] == "eq" and x[2] == kind and x[3] in (("null",), I(0)) for x in s.F)
        if nullk:
            c.ob("spans", not got, "unasked", f, "something is reported where nothing was asked")
            continue
        names = sorted(nm(a) for a, v, i in got)
        on = kind is not None and all(base(a) == kind for a, v, i in got)
        if small:
            ok = on and len(got) == 1 and one(got[0]) and names[0] == ("returned_length" if st_ else "normal_length") and st_ is not None
            ok = ok and eqv(index(got[0][0], env), ln)
        else:
            ok = on and len(got) == 2 and names == sorted(["spans", "returned_pages" if st_ else "normal_pages"]) and st_ is not None
            ok = ok and all(one(x) if nm(x[0]) == "spans" else eqv(sub(x[1], ld(x[0])), ln) for x in got)
        c.ob("spans", ok, "report", f, "a run is not reported once by its length and state: %s" % names)
    c.ob("spans", n > 0, "walk", f, "nothing is reported")


def nm(a):
    while isinstance(a, tuple) and a and a[0] in ("fld", "gep"):
        if a[0] == "fld" and a[2] in ("returned_length", "normal_length", "spans", "returned_pages", "normal_pages"):
            return a[2]
        a = a[3] if a[0] == "fld" else a[1]
    return "?"


def one(x):
    return eqv(sub(x[1], repl(n2(ld(x[0])), {})), I(1)) or x[1][0] == "lin" and dict(x[1][1]).get(1) == 1 and len(x[1][1]) == 2


def index(a, env):
    while isinstance(a, tuple) and a and a[0] == "fld":
        a = a[3]
    if a[0] != "gep":
        return I(0)
    return view(mk({k: v // 8 for k, v in a[3]}), env)


def news(c):
    """a new tracker has nothing released and is unbroken"""
    for f in c.fns(r"%sPageTracker\(" % PT, AN, floor=0):
        for s in ends_of(f):
            if s.end[0] != "ret":
                continue
            m = final(stores(s))
            r, u, n = (m.get(fld(k)) for k in ("released_count_", "unbroken_", "num_objects_"))
            for k, v, w in (("released_count_", r, I(0)), ("num_objects_", n, I(0)), ("unbroken_", u, I(1))):
                if v is not None:
                    c.ob("count", v == w, "new-" + k, f, "a new huge page does not start with %s" % k)
