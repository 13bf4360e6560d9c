"""The central free list keeps every span of a class in the one list that its
free objects call for, and its counters tell the truth."""
from tcm import *
from segs import segs
from C08 import reachable

CFL = r"central_freelist_internal::CentralFreeList<tcmalloc::tcmalloc_internal::central_freelist_internal::StaticForwarder>::"
AN = ["^tcmalloc::tcmalloc_internal::Span::", "FreelistPushBatch", "HintedTrackerLists<", "StatsCounter::", "StaticForwarder::", r"::IndexFor\(",
      "CentralFreeListLockHolder", r"::RecordSpanUtil\(", "SpinLock", r"CentralFreeList<.*>::AllocateSpan\(", r"CentralFreeList<.*>::DeallocateSpans\(", "RecordSameSpanRuns", "ReleaseToSpans", r"::Populate\(", "absl::base_internal::", "^absl::.*Mutex"]
NL = 8


def run(c):
    c.rule("lists", "a span is in the list its free objects call for, and in none when it has no free object or is given back")
    c.rule("util", "the utilisation histogram moves a span from its old to its new bucket")
    c.rule("counts", "the object and span counters change by what was moved")
    c.rule("flow", "objects and spans reach the caller or the page heap exactly once")
    c.rule("locked", "lists and counters change only while the lock is held")
    c.rule("runs", "objects are released to their own span, all of them")
    fs = {}
    for n in ("ReleaseToSpans", "RemoveRange", "InsertRange", "Populate", "IndexFor", "DeallocateSpans", "AllocateSpan"):
        an = [a for a in AN if n not in a]
        fs[n] = [f for f in c.fns(r"%s%s[<(]" % (CFL, n), an, floor=1) if short(f.name).split("::")[-1].startswith(n)]
        c.need(fs[n], "no " + n)
    for f in fs["ReleaseToSpans"]:
        release(c, f)
    for f in fs["RemoveRange"]:
        remove(c, f)
    for f in fs["Populate"]:
        populate(c, f)
    for f in fs["InsertRange"]:
        insert(c, f)
    for f in fs["IndexFor"]:
        index(c, f)
    forward(c, fs)
    for f in c.fns(r"central_freelist_internal::RecordSameSpanRuns<", [], floor=1):
        runs(c, f)


# -- terms --------------------------------------------------------------------
W32 = 1 << 32


def nrm(t):
    """the term without width changes"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ("trunc", "zext", "sext"):
        return nrm(t[-1])
    if t[0] == "and" and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b[0] == "int" and b[1] in (0xff, 0xffff, W32 - 1):
                return nrm(a)
    if t[0] in ("ashr", "lshr") and t[2][0] == "int" and t[1][0] == "lin":
        m = 1 << t[2][1]
        if all(v % m == 0 for k, v in t[1][1]):
            a = {}
            for k, v in t[1][1]:
                a = ladd(a, {1: v // m} if k == 1 else alin(nrm(k)), 1 if k == 1 else v // m)
            return mk(a)
    if t[0] == "lin":
        a = {}
        for k, v in t[1]:
            a = ladd(a, {1: v} if k == 1 else alin(nrm(k)), 1 if k == 1 else v)
        return mk(a)
    if t[0] == "gep" and len(t) == 4:
        b, off, a = nrm(t[1]), t[2], {}
        for k, v in t[3]:
            for q, w in alin(nrm(k)).items():
                if q == 1:
                    off += v * w
                else:
                    a[q] = a.get(q, 0) + v * w
        a = tuple(sorted(((k, v) for k, v in a.items() if v), key=repr))
        return b if not off and not a else ("gep", b, off, a)
    if t[0] == "mul" and len(t) == 3:
        return ("mul",) + tuple(sorted((nrm(x) for x in t[1:]), key=repr))
    return tuple(nrm(x) if isinstance(x, tuple) else x for x in t)


def mk(a):
    a = {k: v for k, v in a.items() if v}
    if not a:
        return I(0)
    if set(a) == {1}:
        return I(a[1])
    if len(a) == 1 and list(a.values()) == [1]:
        return next(iter(a))
    return ("lin", tuple(sorted(a.items(), key=lambda kv: repr(kv[0]))))


def same(x, y):
    return nrm(x) == nrm(y)


def add(x, y, k=1):
    return mk(ladd(alin(nrm(x)), alin(nrm(y)), k))


def callid(t):
    t = nrm(t)
    while t[0] == "ext":
        t = t[1]
    return t[3] if t[0] == "call" else None


def zero(s, x):
    return any(y[0] == "cmp" and y[1] in ("eq", "ule") and same(y[2], x) and y[3] == I(0) or
               y[0] == "cmp" and y[1] == "eq" and same(mk(ladd(alin(nrm(y[2])), alin(nrm(y[3])), -1)), x) or
               y[0] == "cmp" and y[1] == "eq" and same(mk(ladd(alin(nrm(y[3])), alin(nrm(y[2])), -1)), x) for y in s.F)


def isbw(s, t, x):
    """t is the bit width of x"""
    a = alin(nrm(t))
    if not a:
        return zero(s, x)
    k = [q for q in a if q != 1]
    if len(k) == 1 and a[k[0]] == -1 and a.get(1) in (16, 32, 64):
        q = k[0]
        if q[0] == "ctlz" or q[0] == "call" and "ctlz" in q[1]:
            y = q[1] if q[0] == "ctlz" else q[2][0]
            return same(y, x)
    # the same bit width as another one known equal
    return False


def equal(s, x, y):
    return same(x, y) or any(z[0] == "cmp" and z[1] == "eq" and {repr(nrm(z[2])), repr(nrm(z[3]))} == {repr(nrm(x)), repr(nrm(y))} for z in s.F)


def truthy(s, t):
    """True, False or None: what the path knows of a call's result"""
    t = nrm(t)
    for x in s.F:
        y, neg = x, False
        while y[0] == "not":
            neg, y = not neg, y[1]
        if nrm(y) == t:
            return not neg
        if y[0] == "cmp" and nrm(y[2]) == t and y[3] in (I(0), ("null",)):
            if y[1] == "eq":
                return neg
            if y[1] == "ne":
                return not neg
    return None


def events(s):
    """(kind, args, instruction) in order"""
    out = []
    for i in s.ins:
        if i.op != "call":
            continue
        n = i.cshort
        if n.endswith("::RecordSpanUtil"):
            a = s.args(i)
            out.append(("util", (a[1], None if a[2][0] != "int" else bool(a[2][1])), i))
        elif re.search(r"HintedTrackerLists::(Add|Remove|Move|GetLeast)$", n):
            a = s.args(i)
            out.append((n.rsplit("::", 1)[1].lower(), tuple(a[1:]), i))
        elif n.endswith("::set_nonempty_index"):
            out.append(("set", tuple(s.args(i)), i))
        elif n.endswith("StatsCounter::LossyAdd"):
            a = s.args(i)
            x = field(a[0])
            out.append(("count", (x[1] if x else None, a[1]), i))
    return out


def tally(s, ev, name):
    a = {}
    for k, v, i in ev:
        if k == "count" and v[0] == name:
            a = ladd(a, alin(nrm(v[1])))
    return mk(a)


def utils(c, f, s, ev, old, new, tag, where):
    """net histogram change: old bucket down and new bucket up; None: absent"""
    us = [(v[0], v[1]) for k, v, i in ev if k == "util"]
    down = [b for b, up in us if up is False]
    up = [b for b, up in us if up is True]
    ok = len(down) + len(up) == len(us)
    if old is None:
        ok = ok and not down and len(up) == 1 and isbw(s, up[0], new)
    elif new is None:
        ok = ok and not up and len(down) == 1 and isbw(s, down[0], old)
    elif us:
        ok = ok and len(down) == len(up) == 1 and isbw(s, down[0], old) and isbw(s, up[0], new)
    else:
        # nothing recorded: the path knows the two widths equal
        ok = any(x[0] == "cmp" and x[1] == "eq" and (samebw(s, x, old, new)) for x in s.F) or zero(s, old) and zero(s, new)
    c.ob("util", ok, tag, where, "the histogram does not follow the span: %s" % [(show(b)[:40], u) for b, u in us])


def samebw(s, x, old, new):
    """the comparison finds the two bit widths equal"""
    d = ladd(alin(nrm(x[2])), alin(nrm(x[3])), -1)

    def forms(v):
        out = [{}] if zero(s, v) else []
        for k in d:
            if k != 1 and isbw(s, mk({1: 16, k: -1}), v):
                out += [{1: w, k: -1} for w in (16, 32, 64)]
        return out
    for a in forms(old):
        for b in forms(new):
            e = ladd(a, b, -1)
            if e == d or e == {k: -v for k, v in d.items()}:
                return True
    return False


def isindex(s, t, alloc):
    """the list index for a number of allocated objects"""
    t = nrm(t)
    return t[0] == "call" and t[1].endswith("::IndexFor") and same(t[2][1], alloc) and isbw(s, t[2][2], alloc)


def placed(c, f, s, ev, span, prev, was, now, alloc, tag, where):
    """the list changes of one span: was / now = in a list before / after"""
    ls = [(k, v) for k, v, i in ev if k in ("add", "remove", "move", "getleast")]
    st = [v for k, v, i in ev if k == "set"]
    mine = all(same(v[0], span) for k, v in ls) and all(same(v[0], span) for v in st)
    c.ob("lists", mine, tag + "-span", where, "another span is moved")
    if was and now:
        if ls or st:
            net = [k for k, v in ls]
            ok = net in (["move"], ["remove", "add"]) and len(st) == 1
            if ok:
                frm = ls[0][1][1]
                to = ls[-1][1][-1]
                ok = equal(s, frm, prev) and isindex(s, to, alloc) and same(st[0][1], to)
        else:
            ok = any(x[0] == "cmp" and x[1] == "eq" and any(same(p, prev) and isindex(s, q, alloc) for p, q in ((x[2], x[3]), (x[3], x[2]))) for x in s.F)
        c.ob("lists", ok, tag + "-move", where, "the span does not end up in the list for its allocated objects, with its index recorded")
    elif was:
        c.ob("lists", [k for k, v in ls] == ["remove"] and equal(s, ls[0][1][1], prev), tag + "-out", where, "a span without free objects, or given back, stays listed: %s" % [k for k, v in ls])
    elif now:
        ok = [k for k, v in ls] == ["add"] and len(st) == 1 and isindex(s, ls[0][1][1], alloc) and same(st[0][1], ls[0][1][1])
        c.ob("lists", ok, tag + "-in", where, "a span with free objects is not listed under the index it records")
    else:
        c.ob("lists", not ls, tag + "-none", where, "an unlisted span is moved: %s" % [k for k, v in ls])


def before(s, i, j):
    k = [x.id for x in s.ins]
    return i.id in k and j.id in k and k.index(i.id) < k.index(j.id)


def one_call(s, rx):
    L = s.calls(rx)
    return L[0] if len(L) == 1 else None


def value(s, i):
    return s.t(("v", i.id))


# -- releasing objects to a span ------------------------------------------------
def pushes(s):
    """the push of a batch: a direct call, or its representation-specific forms"""
    return s.calls(r"Span::(FreelistPushBatch|ListPushBatch|BitmapPushBatch)$")


def release(c, f):
    span = ("arg", 3)
    n = 0
    for s in segs(f):
        if s.end[0] != "ret":
            continue
        n += 1
        ev = events(s)
        p = pushes(s)
        if not c.ob("flow", len(p) == 1, "release-once", f, "the objects are released %d times" % len(p)):
            continue
        p = p[0]
        a = s.args(p)
        c.ob("flow", same(a[0], span) and same(a[1], ("arg", 1)) and same(a[2], ("arg", 2)), "release-batch", p, "releases other objects")
        e = s.calls("Span::FreelistEmpty$")
        ni = s.calls("Span::nonempty_index$")
        al = s.calls("Span::Allocated$")
        for x in e + al:
            c.ob("lists", before(s, x, p), "release-before", x, "the span is examined after the release")
        if not (e and al and ni):
            c.ob("lists", False, "release-state", f, "the span's former state is not examined")
            continue
        was = truthy(s, value(s, e[0]))
        ok = truthy(s, value(s, p))
        prev, alloc = value(s, ni[0]), value(s, al[0])
        if was is None and ok is False:
            # must not matter: then no list operation may happen
            c.ob("lists", False, "release-listed", f, "a span given back is handled without asking whether it was listed")
            continue
        ret = s.end[1]
        c.ob("flow", same(ret, span) if ok is False else ret in (I(0), ("null",)) if ok else False, "release-result", p, "a span is given back although it holds objects, or kept although it holds none")
        if ok is None:
            continue
        if ok:
            cur = add(alloc, ("arg", 2), -1)
            placed(c, f, s, ev, span, prev, was is False, True, cur, "release", p)
            utils(c, f, s, ev, alloc, cur, "release", p)
        else:
            placed(c, f, s, ev, span, prev, was is False, False, None, "given-back", p)
            utils(c, f, s, ev, alloc, None, "given-back", p)
    c.need(n, "no path through ReleaseToSpans")


# -- removal ---------------------------------------------------------------------
def locks(s, start):
    """[(instruction, held)] for the events of a path, and the state at its end"""
    held, out = start, []
    for i in s.ins:
        if i.op == "call":
            n = i.cshort
            if re.search(r"SpinLock::(unlock|Unlock)$|::~\w*LockHolder$", n):
                held = False
            elif re.search(r"SpinLock::(?:lock|Lock)$|\b(\w*LockHolder)::\1$", n):
                held = True
            elif re.search(r"HintedTrackerLists::|::RecordSpanUtil$|::set_nonempty_index$|StatsCounter::LossyAdd$|::Populate$|::ReleaseToSpans$|FreelistPopBatch$", n):
                out.append((i, held))
    return out, held


def lockcheck(c, s, start, end, tag, f):
    L, h = locks(s, start)
    for i, held in L:
        c.ob("locked", held, tag, i, "changed without the lock")
    if s.end[0] == "ret":
        c.ob("locked", h == end, tag + "-end", f, "returns with the lock in the wrong state")


def remove(c, f):
    peek = sites(f, "HintedTrackerLists::PeekLeast$")
    c.need(peek, "RemoveRange looks at no list")
    N, out = ("arg", 2), ("arg", 1)
    n = 0
    for s in segs(f):
        lockcheck(c, s, False, False, "remove", f)
        pk, pop, pop_ = s.calls("HintedTrackerLists::PeekLeast$"), s.calls("Span::FreelistPopBatch$"), s.calls("::Populate$")
        ev = events(s)
        if s.end[0] == "turn":
            c.ob("locked", locks(s, False)[1], "remove-turn", f, "the lock is lost inside the loop")
        if s.end[0] == "ret":
            al = s.calls("CentralFreeList::AllocateSpan$")
            c.ob("counts", same(tally(s, ev, "counter_"), add(I(0), s.end[1], -1)) or bool(al), "remove-counter", f, "the counter drops by %s, the caller gets %s" % (show(tally(s, ev, "counter_"))[:60], show(s.end[1])[:60]))
            for i in s.calls("InvokeRemoveRangeHook$"):
                a = s.args(i)
                c.ob("flow", same(a[1], out) and (same(a[2], s.end[1]) or nrm(a[2])[0] == "umin" and any(same(y, s.end[1]) for y in a[2][1:]) and any(same(y, N) for y in a[2][1:])), "remove-hook", i, "reports other objects than were removed")
            if al:
                got = truthy(s, value(s, al[0]))
                st = [w for w in s.ins if w.op == "store" and same(s.t(w.ops[1]), out)]
                c.ob("flow", len(al) == 1 and got is not None and s.end[1] == I(1 if got else 0), "single-result", f, "a span of one object is not reported as one object")
                if got:
                    v = s.t(st[-1].ops[0]) if st else I(0)
                    c.ob("flow", any(x[0] == "call" and x[1].endswith("start_address") and same(x[2][0], value(s, al[0])) for x in subterms(v)), "single-object", f, "hands out %s" % show(v)[:60])
                    c.ob("flow", not pk and not pop, "single-only", f)
        if pop_:
            for i in pop_:
                a = s.args(i)
                k = offset(a[1], out)
                c.ob("flow", k is not None and same(a[2], add(N, k, -1)), "populate-batch", i, "fills another part of the batch")
                if s.end[0] == "ret":
                    c.ob("flow", same(s.end[1], add(k, value(s, i))) if k is not None else False, "populate-result", i, "does not report what was filled")
                if pk:
                    c.ob("flow", isnull(s, ("ext", value(s, pk[-1]), 0)) or nullext(s, value(s, pk[-1])), "populate-when", i, "asks the page heap while spans have free objects")
        if not pop:
            continue
        n += 1
        c.ob("flow", len(pop) == 1 and len(pk) >= 1, "pop-once", f)
        i = pop[0]
        a = s.args(i)
        span = a[0]
        c.ob("flow", any(callid(span) == x.id for x in pk) and first(span), "pop-span", i, "takes from a span that is not the one found")
        k = offset(a[1], out)
        c.ob("flow", k is not None and same(a[2], add(N, k, -1)), "pop-batch", i, "fills another part of the batch: %s" % show(a[1])[:60])
        if k is None:
            continue
        al = [x for x in s.calls("Span::Allocated$") if same(s.args(x)[0], span)]
        if not al:
            c.ob("lists", False, "pop-state", i, "the span's former state is not examined")
            continue
        after = before(s, i, al[0])
        alloc = value(s, al[0]) if not after else add(value(s, al[0]), value(s, i), -1)
        cur = add(alloc, value(s, i))
        e = [x for x in s.calls("Span::FreelistEmpty$") if same(s.args(x)[0], span)]
        if not e or not before(s, i, e[-1]):
            c.ob("lists", False, "pop-empty", i, "the span is not examined after the removal")
            continue
        emp = truthy(s, value(s, e[-1]))
        prev = second(s, span)
        prevs = [prev] + [value(s, x) for x in s.calls("Span::nonempty_index$")]
        pv = next((p for p in prevs if any(v[1] is not None and same(v[1], p) for kk, v, ii in ev if kk in ("remove", "move"))), None)
        if pv is None:
            pv = next((p for p in prevs if any(x[0] == "cmp" and x[1] == "eq" and any(same(z, p) for z in x[2:]) for x in s.F)), prev)
        placed(c, f, s, ev, span, pv, True, emp is False, cur, "pop", i) if emp is not None else c.ob("lists", False, "pop-known", i, "it does not matter whether objects are left")
        utils(c, f, s, ev, alloc, cur, "pop", i)
        done = add(k, value(s, i))
        if s.end[0] == "ret":
            c.ob("flow", same(s.end[1], done), "pop-result", i, "reports another number than was removed")
        elif s.end[0] == "turn":
            c.ob("flow", any(same(v, done) for v in s.end[2].values()), "pop-next", i, "the next objects do not follow these")
    c.need(n, "RemoveRange takes from no span")
    # the position starts at zero and only moves by what was taken
    for i in sites(f, "Span::FreelistPopBatch$") + sites(f, "::Populate$"):
        k = offset(f.term(i.ops[1]), ("arg", 1))
        if k is not None and nrm(k)[0] == "phi":
            p = f.ins[nrm(k)[1]]
            ini = [nrm(f.term(o)) for o, b in zip(p.ops, p.d["in"]) if not f.bdom(p.b, b)]
            c.ob("flow", all(x == I(0) for x in ini), "start", i, "the first object does not go first")


def first(t):
    t = nrm(t)
    return t[0] == "ext" and "0" in repr(t[2])


def second(s, span):
    t = nrm(span)
    if t[0] != "ext":
        return I(-99)
    return ("ext", t[1], (1,)) if isinstance(t[2], tuple) else ("ext", t[1], 1)


def isnull(s, t):
    return truthy(s, t) is False


def nullext(s, call):
    for x in s.F:
        if x[0] == "cmp" and x[1] == "eq" and x[3] in (I(0), ("null",)) and nrm(x[2])[0] == "ext" and nrm(x[2])[1] == nrm(call):
            return True
    return False


def offset(p, base):
    """index in objects of p in the batch"""
    p = nrm(p)
    if p == base:
        return I(0)
    if p[0] == "gep" and p[1] == base and p[2] % 8 == 0 and all(v % 8 == 0 for k, v in p[3]):
        a = {1: p[2] // 8}
        for k, v in p[3]:
            a = ladd(a, {k: v // 8})
        return mk(a)
    return None


# -- populating -------------------------------------------------------------------
def populate(c, f):
    n = 0
    for s in segs(f):
        if s.end[0] != "ret":
            continue
        lockcheck(c, s, True, True, "populate", f)
        ev = events(s)
        al, b = s.calls("::AllocateSpan$"), s.calls("Span::BuildFreelist$")
        if not c.ob("flow", len(al) == 1, "populate-one", f, "allocates %d spans" % len(al)):
            continue
        L = [x for x in s.ins if x.op == "call" and re.search(r"SpinLock::(unlock|lock)$", x.cshort)]
        c.ob("locked", any(before(s, x, al[0]) and x.cshort.endswith("unlock") for x in L), "populate-unlocked", al[0], "calls the page heap with the list locked")
        span = value(s, al[0])
        got = truthy(s, span)
        if got is False:
            c.ob("flow", s.end[1] == I(0) and not ev and not b, "populate-none", f, "a failed allocation leaves traces or is reported as objects")
            continue
        n += 1
        if not c.ob("flow", got is True and len(b) == 1, "populate-build", f, "a span is used unchecked or not built once"):
            continue
        i = b[0]
        a = s.args(i)
        r = value(s, i)
        fn = lambda t: field(t[1])[1] if t[0] == "load" and field(t[1]) else None
        c.ob("flow", same(a[0], span) and fn(nrm(a[1])) == "object_size_" and fn(nrm(a[2])) == "objects_per_span_" and same(a[3], ("arg", 1)) and same(a[4], ("arg", 2)), "populate-args", i, "the span is built with other sizes or into another batch")
        c.ob("flow", same(s.end[1], r), "populate-count", i, "does not report what was filled")
        full = None
        for x in s.F:
            if x[0] == "cmp" and x[1] in ("eq", "ne"):
                for p, q in ((x[2], x[3]), (x[3], x[2])):
                    if same(p, r) and fn(nrm(q)) == "objects_per_span_":
                        full = x[1] == "eq"
        e = [x for x in s.calls("Span::FreelistEmpty$")]
        if full is None and e:
            full = truthy(s, value(s, e[-1]))
        if full is None:
            c.ob("lists", False, "populate-full", i, "it does not matter whether objects are left")
            continue
        placed(c, f, s, ev, span, None, False, not full, r, "populate", i)
        utils(c, f, s, ev, None, r, "populate", i)
        q = nrm(tally(s, ev, "counter_"))
        c.ob("counts", fn(q) == "objects_per_span_", "populate-counter", i, "the counter rises by %s" % show(q)[:60])
        c.ob("counts", tally(s, ev, "num_spans_requested_") == I(1) and tally(s, ev, "num_spans_returned_") == I(0), "populate-spans", i, "the span is not counted once")
    c.need(n, "Populate builds no span")


# -- insertion ---------------------------------------------------------------------
def insert(c, f):
    N, batch = ("arg", 2), ("arg", 1)
    mp = sites(f, "MapObjectsToSpans$")
    rr = sites(f, "RecordSameSpanRuns$")
    rel = sites(f, "::ReleaseToSpans$")
    c.need(mp and rel, "InsertRange maps or releases nothing")
    a = args(f, mp[0])
    c.ob("runs", len(mp) == 1 and same(a[0], batch) and same(a[1], N), "map", mp[0], "maps other objects to spans")
    spans = nrm(strip(a[2]))
    fld = lambda t: field(t[1])[1] if t[0] == "load" and field(t[1]) else None
    for i in rr:
        r = args(f, i)
        c.ob("runs", same(strip(r[0]), spans) and same(r[1], N), "runs-of", i, "runs are taken of other spans")
    heads = {}
    for i in rel:
        h = loop_of(f, i)
        c.need(h is not None, "release loop")
        heads.setdefault(h, []).append(i)
    # every release
    for h, L in heads.items():
        st = f.blocks[h][0]
        phis = [i for i in f.blocks[h] if i.op == "phi"]
        pos = free = None
        for i in L:
            a = args(f, i)
            sp = nrm(a[3])
            k = sp[1] if sp[0] == "load" else None
            k = offset(k, spans) if k is not None else None
            ok = k is not None and nrm(k)[0] == "phi"
            if not c.ob("runs", ok, "own-span", i, "objects are released to another span: %s" % show(a[3])[:60]):
                return
            pos = nrm(k)
            ib = nrm(a[1])
            ok = ib[0] == "gep" and ib[2] == 0 and dict(ib[3]) == {pos: 2}
            c.ob("runs", ok, "own-objects", i, "another position's objects are released: %s" % show(ib)[:60])
            idx = ib[1] if ok else None
            ln = nrm(a[2])
            run_ok = ln[0] == "load" and ln[1][0] == "gep" and dict(ln[1][3]) == {pos: 1} and ln[1][2] == 0 and any(same(strip(args(f, x)[2]), ln[1][1]) for x in rr)
            c.ob("runs", run_ok or ln == I(1), "own-run", i, "a run of another length is released: %s" % show(ln)[:60])
            c.ob("runs", fld(nrm(a[4])) == "object_size_" and fld(nrm(a[5])) == "size_reciprocal_" and fld(nrm(a[6])) == "objects_per_span_", "sizes", i, "releases with other sizes")
            if idx is not None:
                filled(c, f, idx, spans, batch, N, i)
        # turns
        back = None
        for s in segs(f, start=phis[0] if phis else st):
            r = s.calls("::ReleaseToSpans$")
            if s.end[0] == "turn" and s.end[1] == h:
                c.ob("runs", len(r) == 1, "each-once", r[0] if r else f, "an iteration releases %d runs" % len(r))
                if len(r) != 1:
                    continue
                ln = s.args(r[0])[2]
                c.ob("runs", same(s.end[2].get(pos[1], I(-1)), add(pos, ln)), "next-run", r[0], "the next run does not start where this one ends: %s" % show(s.end[2].get(pos[1], I(-1)))[:60])
                v = value(s, r[0])
                got = truthy(s, v)
                ws = [(s.t(w.ops[1]), s.t(w.ops[0])) for w in s.ins if w.op == "store" and offset(s.t(w.ops[1]), spans) is not None]
                if not c.ob("flow", got is not None, "free-known", r[0], "the result is ignored"):
                    continue
                if got:
                    if not c.ob("flow", len(ws) == 1 and same(ws[0][1], v), "free-kept", r[0], "a span given back is not remembered"):
                        continue
                    q = nrm(offset(ws[0][0], spans))
                    c.ob("flow", q[0] == "phi" and same(s.end[2].get(q[1], I(-1)), add(q, I(1))), "free-next", r[0], "the next span overwrites this one")
                    free = q
                else:
                    c.ob("flow", not ws, "free-none", r[0], "a kept span is put among those given back")
        for s in segs(f, start=phis[0] if phis else st):
            if s.end[0] == "turn" and free is not None:
                r = s.calls("::ReleaseToSpans$")
                if len(r) == 1 and truthy(s, value(s, r[0])) is False:
                    c.ob("flow", same(s.end[2].get(free[1], I(-1)), free), "free-kept-count", r[0], "a kept span is counted as given back")
        for p in (pos, free):
            if p:
                i = f.ins[p[1]]
                ini = [nrm(f.term(o)) for o, b in zip(i.ops, i.d["in"]) if not f.bdom(i.b, b)]
                c.ob("runs", all(x == I(0) for x in ini), "from-zero", i, "starts at %s" % [show(x) for x in ini])
        c.need(free is not None, "no span is given back")
        # all of them
        bl = set(next(M["blocks"] for M in f.loops if M["header"] == h))
        for b in bl:
            for t in f.succ[b]:
                if t in bl or t in f.crash:
                    continue
                ok = any(x[0] == "cmp" and x[1] in ("uge", "sge", "eq") and same(x[2], pos) and same(x[3], N) or x[0] == "cmp" and x[1] in ("ule", "sle", "eq") and same(x[3], pos) and same(x[2], N) for x in f.edge_facts(b, t))
                c.ob("runs", ok, "to-the-end", f, "stops before all objects are released")
        # afterwards
        for s in segs(f):
            if s.end[0] != "ret":
                continue
            lockcheck(c, s, False, False, "insert", f)
            ev = events(s)
            d = s.calls("CentralFreeList::DeallocateSpans$")
            if not any(b == h for b in s.blocks):
                one = any(x[0] == "cmp" and x[1] == "eq" and fld(nrm(x[2])) == "objects_per_span_" and x[3] == I(1) for x in s.F)
                ok = len(d) == 1 and one
                if ok:
                    a = s.args(d[0])
                    ok = same(strip(a[1]), spans) and same(a[2], N)
                c.ob("flow", ok, "singles", f, "spans of one object are not all given back")
                c.ob("counts", not [e for e in ev if e[0] == "count" and e[1][0] == "counter_"], "singles-counter", f)
                continue
            ret = tally(s, ev, "num_spans_returned_")
            c.ob("counts", same(ret, free) or ret == I(0) and zero(s, free), "returned", f, "counts %s spans as returned" % show(ret)[:50])
            cnt = alin(nrm(tally(s, ev, "counter_")))
            cnt = ladd(cnt, alin(N), -1)
            k = list(cnt)
            ok = len(k) == 1 and cnt[k[0]] == -1 and k[0][0] == "mul" and any(same(x, free) for x in k[0][1:]) and any(fld(x) == "objects_per_span_" for x in k[0][1:]) or not cnt and zero(s, free)
            c.ob("counts", ok, "insert-counter", f, "the counter changes by %s beyond the objects inserted" % show(mk(cnt))[:70])
            if not d:
                c.ob("flow", zero(s, free), "give-back", f, "spans without objects in use are forgotten")
            else:
                a = s.args(d[0])
                c.ob("flow", len(d) == 1 and same(strip(a[1]), spans) and same(a[2], free), "give-back", d[0], "gives back other spans")
                dt = s.calls("~CentralFreeListLockHolder$") + s.calls("SpinLock::unlock$")
                c.ob("locked", any(before(s, x, d[0]) for x in dt), "give-back-unlocked", d[0], "calls the page heap with the list locked")


def filled(c, f, idx, spans, batch, N, where):
    """every position's object index is computed from its own span and object"""
    n = 0
    for w in f.live("store"):
        p = nrm(f.term(w.ops[1]))
        if not (p[0] == "gep" and p[1] == idx or p == idx):
            continue
        h = loop_of(f, w)
        if not c.ob("runs", h is not None and p[0] == "gep" and p[2] == 0 and len(p[3]) == 1 and p[3][0][1] == 2, "index-at", w, "an index is stored at %s" % show(p)[:60]):
            continue
        k = nrm(p[3][0][0])
        v = nrm(f.term(w.ops[0]))
        ok = v[0] == "call" and v[1].endswith("PtrToIdx")
        if ok:
            a = v[2]
            s, o = nrm(a[0]), nrm(a[1])
            ok = s[0] == "load" and same(offset(s[1], spans) or I(-1), k) and o[0] == "load" and same(offset(o[1], batch) or I(-1), k)
        c.ob("runs", ok, "index-of", w, "an object's index is taken from another object or span")
        ok = False
        if k[0] == "phi" and f.ins[k[1]].b == h:
            i = f.ins[k[1]]
            ok = True
            for o, b in zip(i.ops, i.d["in"]):
                t = nrm(f.term(o))
                ok = ok and (same(t, add(k, I(1))) if f.bdom(i.b, b) else t == I(0))
            bl = set(next(M["blocks"] for M in f.loops if M["header"] == h))
            for b in bl:
                for t in f.succ[b]:
                    if t not in bl and t not in f.crash:
                        e = f.edge_facts(b, t)
                        ok = ok and any(x[0] == "cmp" and x[1] in ("uge", "sge", "eq", "ule", "sle") and {repr(nrm(x[2])), repr(nrm(x[3]))} in ({repr(k), repr(N)}, {repr(add(k, I(1))), repr(N)}) for x in e)
        c.ob("runs", ok, "index-all", w, "not every object's index is computed")
        n += 1
    c.ob("runs", n > 0, "index", where, "no object index is computed")


def runs(c, f):
    """run lengths of equal spans"""
    batch, N, out = ("arg", 0), ("arg", 1), ("arg", 2)
    ws = [w for w in f.live("store") if nrm(f.term(w.ops[1])) == out or nrm(f.term(w.ops[1]))[:2] == ("gep", out)]
    lw = [w for w in ws if loop_of(f, w) is not None]
    ew = [w for w in ws if loop_of(f, w) is None]
    c.need(lw, "no run is recorded in the loop")
    h = loop_of(f, lw[0])
    phis = [i for i in f.blocks[h] if i.op == "phi"]
    at = lambda t: mk(dict(ladd({1: nrm(t)[2]}, dict(nrm(t)[3])))) if nrm(t)[0] == "gep" else I(0)
    start = None
    for s in segs(f, start=phis[0]):
        st = [w for w in s.ins if w.op == "store" and w in lw]
        if s.end[0] != "turn" or s.end[1] != h:
            continue
        if st:
            w = st[0]
            k = nrm(at(s.t(w.ops[1])))
            if not c.ob("runs", len(st) == 1 and k[0] == "phi", "run-at", w, "a run is recorded at %s" % show(k)[:50]):
                continue
            start = k
    c.need(start is not None, "no run start")
    pos = None
    for s in segs(f, start=phis[0]):
        if s.end[0] == "turn" and s.end[1] == h:
            st = [w for w in s.ins if w.op == "store" and w in lw]
            nx = s.end[2]
            steps = [i for i in phis if same(nx.get(i.id, I(-1)), add(("phi", i.id), I(1)))]
            eqs = [x for x in s.F if x[0] == "cmp" and x[1] in ("eq", "ne") and all(isent(f, y, batch, start) for y in x[2:])]
            c.ob("runs", len(eqs) >= 1, "run-compare", f, "a run does not depend on the spans")
            if st:
                ln = add(s.t(st[0].ops[0]), start)
                c.ob("runs", any(x[1] == "ne" for x in eqs), "run-ends", st[0], "a run ends between objects of one span")
                c.ob("runs", any(same(ln, ("phi", i.id)) for i in steps), "run-length", st[0], "the run's length is not its distance: %s" % show(s.t(st[0].ops[0]))[:60])
                c.ob("runs", same(nx.get(start[1], I(-1)), ln), "run-next", st[0], "the next run starts at %s" % show(nx.get(start[1], I(-1)))[:50])
            else:
                c.ob("runs", any(x[1] == "eq" for x in eqs) and same(nx.get(start[1], I(-1)), start), "run-goes-on", f, "a run goes on over objects of another span")
    for s in segs(f):
        if s.end[0] == "ret":
            st = [w for w in s.ins if w.op == "store" and w in ew]
            ok = len(st) == 1
            if ok and h in s.blocks:
                k = at(s.t(st[0].ops[1]))
                ok = same(k, start) and same(s.t(st[0].ops[0]), add(N, start, -1))
            c.ob("runs", ok, "last-run", f, "the last run is not recorded to the end")
    for i in phis:
        t = ("phi", i.id)
        ini = [nrm(f.term(o)) for o, b in zip(i.ops, i.d["in"]) if not f.bdom(h, b)]
        if t == start:
            c.ob("runs", all(x == I(0) for x in ini), "run-start", i, "the first run starts at %s" % [show(x) for x in ini])


def isent(f, t, batch, start):
    """a span of the batch, read now or carried along"""
    t = nrm(t)
    if t[0] == "load":
        return offset(t[1], batch) is not None
    if t[0] == "phi":
        return all(nrm(f.term(o)) == t or nrm(f.term(o))[0] in ("load", "phi") for o in f.ins[t[1]].ops)
    return False


# -- indices ----------------------------------------------------------------------
def index(c, f):
    alloc, bw = ("arg", 1), ("arg", 2)
    for s in segs(f):
        if s.end[0] != "ret":
            continue
        v = nrm(s.end[1])
        a = alin(v)
        ok = v[0] == "int" and 0 <= v[1] < NL
        if a.get(1) == NL and len(a) == 2:
            k = next(x for x in a if x != 1)
            ok = a[k] == -1 and (k in (alloc, bw) and any(x[0] == "cmp" and x[1] in ("ult", "ule", "slt", "sle") and same(x[2], k) and x[3][0] == "int" and x[3][1] <= NL + (x[1] in ("ult", "slt")) for x in s.F) or
                                 k[0] in ("umin", "smin") and I(NL) in [nrm(y) for y in k[1:]] and (bw in [nrm(y) for y in k[1:]] or alloc in [nrm(y) for y in k[1:]]))
        if v[0] in ("usub.sat",) or v[0] == "call" and "usub.sat" in v[1]:
            y = v[1:] if v[0] == "usub.sat" else v[2]
            ok = nrm(y[0]) == I(NL) and nrm(y[1]) in (alloc, bw)
        c.ob("lists", ok, "index", f, "an index outside the lists: %s" % show(v)[:60])


# -- the page heap -----------------------------------------------------------------
def forward(c, fs):
    for f in fs["DeallocateSpans"]:
        for s in segs(f):
            if s.end[0] != "ret":
                continue
            d = s.calls("StaticForwarder::DeallocateSpans$")
            ok = len(d) == 1
            if ok:
                a = [x for x in s.args(d[0])]
                ok = any(same(x, ("arg", 1)) for x in a) and any(same(x, ("arg", 2)) for x in a)
            c.ob("flow", ok, "all-spans", f, "not all the spans given back reach the page heap")
    for f in fs["AllocateSpan"]:
        d = sites(f, "StaticForwarder::AllocateSpan$")
        c.ob("flow", len(d) == 1, "one-span", f, "allocates %d spans" % len(d))
        P = PF(f)
        for t, S in P.rets():
            for v, G in cases(f, P.resolve(S, t), S):
                ok = bool(d) and (same(v, f.term(("v", d[0].id))) or v in (I(0), ("null",)) and cmp("eq", f.term(("v", d[0].id)), ("null",)) in G)
                c.ob("flow", ok, "new-span", f, "does not return the span allocated")
    fl = r"^tcmalloc::tcmalloc_internal::central_freelist_internal::StaticForwarder::"
    an = ["PageAllocator::", "PageMap::", "^tcmalloc::tcmalloc_internal::Span::", "SpinLock", "MemoryTagFromSizeClass", "GetMemoryTag", "AccessDensity", "Prefetch", "absl::base_internal::", "^absl::.*Mutex"]
    for f in c.fns(fl + r"AllocateSpan\(", an, floor=1):
        for s in segs(f):
            if s.end[0] != "ret":
                continue
            n, r = s.calls("PageAllocator::New$"), s.calls("PageMap::RegisterSizeClass$")
            if not c.ob("flow", len(n) == 1, "page-heap", f, "asks the page heap %d times" % len(n)):
                continue
            v = value(s, n[0])
            got = truthy(s, v)
            ok = s.end[1] in (I(0), ("null",)) or same(s.end[1], v) if got is False else got is True and same(s.end[1], v) and len(r) == 1
            if ok and r:
                a = s.args(r[0])
                ok = same(a[1], v) and same(a[2], ("arg", 0)) and before(s, n[0], r[0])
            c.ob("flow", ok, "registered", f, "a span is handed out without its size class being registered")
            c.ob("flow", any(same(x, ("arg", 2)) for x in s.args(n[0])), "pages", n[0], "a span of another length is allocated")
    for f in c.fns(fl + r"MapObjectsToSpans\(", an, floor=1):
        ws = [w for w in f.live("store") if nrm(f.term(w.ops[1]))[:2] == ("gep", ("arg", 2)) or nrm(f.term(w.ops[1])) == ("arg", 2)]
        c.need(ws, "no span is stored")
        for w in ws:
            k = offset(f.term(w.ops[1]), ("arg", 2))
            v = nrm(f.term(w.ops[0]))
            pg = [x for x in subterms(v) if x[0] == "load" and offset(x[1], ("arg", 0)) is not None]
            c.ob("runs", k is not None and bool(pg) and all(same(offset(x[1], ("arg", 0)), k) for x in pg), "mapped", w, "an object is mapped to another object's span")
            G = f.guards(w)
            c.ob("runs", any(x[0] == "cmp" and x[1] == "eq" and any(same(y, ("arg", 3)) for y in x[2:]) for x in G), "class", w, "an object of another size class is accepted")
