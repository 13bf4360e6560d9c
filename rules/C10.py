"""The transfer cache neither loses nor duplicates a cached object, and its
bounds hold under resizing."""
from tcm import *
from C08 import reachable

TC = r"^tcmalloc::tcmalloc_internal::internal_transfer_cache::TransferCache<.*>::"
AN = ["base_internal::SpinLock", "AllocationGuardSpinLockHolder", "^tcmalloc::tcmalloc_internal::central_freelist_internal::CentralFreeList<", "^tcmalloc::tcmalloc_internal::BackingTransferCache::", "StatsCounter::", "MissCounts::", "StaticForwarder::", "^int (const& )?std::min<int>\\(std::initializer_list"]
W32 = 1 << 32
M32 = W32 - 1


def run(c):
    c.rule("slots", "the slot counts change together with the objects copied in or out")
    c.rule("rest", "what the cache does not keep goes to the central list, and what it does not hold comes from there")
    c.rule("bounds", "the used count stays within the capacity, and the capacity within the slots allocated")
    c.rule("fresh", "decisions use the counts read under the lock")
    c.rule("mark", "the low-water mark never exceeds the number held")
    c.rule("resize", "resizing gives back every batch of capacity it takes")
    fs = {}
    for f in c.fns(TC + r"(InsertRange|RemoveRange|TryPlunder|ShrinkCache|IncreaseCacheCapacity|CanIncreaseCapacity)\(", AN, floor=8):
        fs.setdefault(short(f.name).split("::")[-1].split("(")[0], []).append(f)
    for n in ("InsertRange", "RemoveRange", "TryPlunder", "ShrinkCache", "IncreaseCacheCapacity"):
        c.need(fs.get(n), "no TransferCache::" + n)
        for f in fs[n]:
            slots(c, f, n)
    for f in fs.get("CanIncreaseCapacity", []):
        can(c, f)
    ctor(c)
    resize(c)


# -- terms --------------------------------------------------------------------
def num(t):
    while True:
        if t[0] in ("trunc", "zext", "sext"):
            t = t[-1]
        elif t[0] == "and" and I(M32) in t[1:]:
            t = next(z for z in t[1:] if z != I(M32))
        else:
            return t


def isinfo(t):
    return t[0] == "load" and field(t[1]) is not None and field(t[1])[1] == "slot_info_"


def lin(t):
    """linear form with the packed counts taken apart ('used' and 'cap')"""
    out = {}

    def add(k, v):
        out[k] = out.get(k, 0) + v
        if not out[k]:
            del out[k]
    for k, v in alin(num(t)).items():
        if k == 1:
            add(1, v)
            continue
        m = num(k)
        if isinfo(m):
            add("used", v)
        elif m[0] in ("lshr", "ashr") and m[2] == I(32):
            x = m[1]
            if isinfo(num(x)):
                add("cap", v)
            else:
                # sign extension of the low half
                a = alin(x)
                if a and all(w % W32 == 0 or w % W32 == 0 for w in a.values()):
                    for q, w in a.items():
                        for y, z in (lin(q).items() if q != 1 else ((1, 1),)):
                            add(y, v * z * (w // W32))
                else:
                    add(m, v)
        elif m[0] == "lin" or m != k and m[0] in ("lin",):
            for y, z in lin(m).items():
                add(y, v * z)
        else:
            add(canon(m), v)
    return out


def canon(t):
    """inner terms without width changes"""
    if t[0] in ("smin", "umin", "smax", "umax"):
        return (t[0],) + tuple(sorted((fz(lin(x)) for x in t[1:]), key=repr))
    return t


def fz(a):
    return tuple(sorted(a.items(), key=repr))


def packed(v):
    """(used, capacity) linear forms of a stored slot info"""
    parts = v[1:] if v[0] == "or" else (v,)
    used, cap = {}, {}
    for p in parts:
        if p[0] == "and" and any(z[0] == "int" and z[1] & (W32 - 1) == 0 for z in p[1:]):
            o = next(z for z in p[1:] if z[0] != "int")
            if isinfo(o):
                cap = ladd(cap, {"cap": 1})
                continue
        a = alin(p)
        if a and all(w % W32 == 0 for w in a.values()):
            for k, w in a.items():
                if k == 1:
                    cap = ladd(cap, {1: w // W32})
                else:
                    x = lin(k)
                    # the whole word shifted down and up again keeps the high half
                    cap = ladd(cap, x, w // W32)
        else:
            used = ladd(used, lin(p))
    return used, cap


def facts(S):
    """linear inequalities known: a <= 0"""
    out = []
    for x in S:
        if x[0] != "cmp":
            continue
        d = ladd(lin(x[2]), lin(x[3]), -1)
        p = x[1]
        if p in ("ule", "sle", "eq"):
            out.append(d)
        if p in ("uge", "sge", "eq"):
            out.append({k: -v for k, v in d.items()})
        if p in ("ult", "slt"):
            out.append(ladd(d, {1: 1}))
        if p in ("ugt", "sgt"):
            out.append(ladd({k: -v for k, v in d.items()}, {1: 1}))
    return out


def le(S, a, b):
    """a <= b known"""
    d = ladd(a, b, -1)
    if not [k for k in d if k != 1] and d.get(1, 0) <= 0:
        return True
    es = [e for e in facts(S) if e]
    for e in es:
        r = ladd(d, e, -1)
        if not [k for k in r if k != 1] and r.get(1, 0) <= 0:
            return True
        if not (set(e) & set(d)) - {1}:
            continue
        for g in es:
            q = ladd(r, g, -1)
            if not [k for k in q if k != 1] and q.get(1, 0) <= 0:
                return True
    return False


def simp(S, a):
    """minima whose least form is known"""
    for k, v in list(a.items()):
        if k != 1 and k[0] in ("smin", "umin"):
            xs = [dict(x) for x in k[1:]]
            for x in xs:
                if all(y is x or le(S, x, y) for y in xs):
                    b = {q: w for q, w in a.items() if q != k}
                    return simp(S, ladd(b, x, v))
    return a


def mins(f, a):
    """the forms a count is a minimum of"""
    if len(a) == 1 and 1 not in a:
        (k, v), = a.items()
        if v == 1 and k[0] in ("smin", "umin"):
            return [dict(x) for x in k[1:]]
    return None


def minlist(f, t):
    """values a std::min over a list chooses from"""
    out = []
    for x in subterms(t):
        if x[0] == "call" and x[1].endswith("min"):
            base = strip(x[2][0])
            for w in writes(f):
                if strip(w.addr) == base or base in subterms(w.addr):
                    out.append(lin(w.val))
    return out


def bounded(f, g, b, S, term=None):
    """the count g is at most b"""
    g = simp(S, g)
    m = mins(f, g) or []
    if any(x == b for x in m) or le(S, g, b):
        return True
    for x in m:
        if mins(f, x) and any(y == b for y in mins(f, x)):
            return True
    return term is not None and any(x == b for x in minlist(f, term))


def under_lock(f, i):
    """the loads feeding this instruction happen with the lock held"""
    acq = [x for x in f.live("call") if re.search(r"SpinLockHolder::\w*SpinLockHolder$|SpinLock::(try_lock|Lock|lock|TryLock)$", x.cshort) and "~" not in x.cshort]
    bad = []
    seen, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j.id in seen:
            continue
        seen.add(j.id)
        if j.op == "load" and isinfo(f.term(j)):
            if not any(f.dom(a, j) for a in acq):
                bad.append(j)
        if j.op in ("load", "call"):
            continue
        for o in (j.ops[:1] if j.op == "store" else j.ops):
            if o[0] == "v" and o[1] in f.ins:
                todo.append(f.ins[o[1]])
    return bool(acq) and not bad


def paired(f, x, y):
    """x and y are executed equally often"""
    if x.b == y.b:
        return True
    if not f.dom(x, y):
        x, y = y, x
    if not f.dom(x, y):
        return False
    seen = set()
    for s in f.succ[x.b]:
        seen |= reachable(f, s, {y.b})
    return x.b not in seen and not any(r.b in seen for r in f.live("ret"))


def slots_addr(t):
    """offset in objects from the slot array, or None"""
    a = {}
    ok = False
    for k, v in alin(t).items():
        if k != 1 and k[0] == "load" and field(k[1]) and field(k[1])[1] == "slots_" and v == 1:
            ok = True
        else:
            a = ladd(a, {1: v} if k == 1 else {q: w * v for q, w in lin(k).items()})
    if not ok or any(v % 8 for v in a.values()):
        return None
    return {k: v // 8 for k, v in a.items()}


def div8(a):
    return {k: v // 8 for k, v in a.items()} if all(v % 8 == 0 for v in a.values()) else None


def scaled(t):
    """a byte count as a number of objects"""
    return div8(lin(t))


def span_arg(f, P, i, S):
    """(pointer, length) of the span given to the central list"""
    a = args(f, i)
    return P.resolve(S, a[1]), P.resolve(S, a[2])


# -- one operation --------------------------------------------------------------
def slots(c, f, n):
    batch, cnt = ("arg", 2), {("arg", 3): 1}
    ws = [w for w in writes(f) if field(w.addr) and field(w.addr)[1] == "slot_info_"]
    cps = []
    for i in f.live("call"):
        if re.search(r"mem(cpy|move)", i.cshort):
            a = args(f, i)
            d, s = slots_addr(a[0]), slots_addr(a[1])
            if d is not None or s is not None:
                cps.append((i, d, s, scaled(a[2]), a))
    frees = sites(f, r"(CentralFreeList|BackingTransferCache)::(InsertRange)$")
    gets = sites(f, r"(CentralFreeList|BackingTransferCache)::(RemoveRange)$")
    if not ws:
        c.ob("slots", not cps, "%s-uncounted" % n, f, "objects are copied without being counted")
        return
    P = PF(f, events=lambda i: "w%d" % i.id if i.id in {w.ins.id for w in ws} else "f%d" % i.id if i in frees else "c%d" % i.id if any(i is x[0] for x in cps) else None)
    seenc = set()
    kept = {}
    for w in ws:
        used, cap = packed(w.val)
        d = ladd(used, {"used": 1}, -1)
        k = ladd(cap, {"cap": 1}, -1)
        c.ob("fresh", under_lock(f, w.ins), "%s-locked" % n, w.ins, "stores counts that may be derived from a stale read")
        SS = [set(S) | set(f.guards(w.ins)) for S in P.at(w.ins)]
        mine = [x for x in cps if paired(f, w.ins, x[0])]
        if not d:
            c.ob("slots", not mine, "%s-none" % n, w.ins, "objects are copied without being counted")
        else:
            ok = len(mine) == 1
            if ok:
                i, dst, src, g, a = mine[0]
                seenc.add(i.id)
                if dst is not None and n == "InsertRange":
                    ok = dst == {"used": 1} and g == d
                    c.ob("slots", ok, "%s-in" % n, i, "objects are not stored in the free slots counted: at %s, %s, counted %s" % (sf(dst), sf(g), sf(d)))
                    c.ob("slots", lin(a[1]) == {batch: 1}, "%s-from" % n, i, "stores other objects than the first ones given")
                    for S in SS:
                        c.ob("bounds", bounded(f, d, cnt, S), "%s-given" % n, w.ins, "stores more objects than were given")
                        c.ob("bounds", bounded(f, d, {"cap": 1, "used": -1}, S), "%s-room" % n, w.ins, "the used count may exceed the capacity")
                    kept[w.ins.id] = d
                elif src is not None and n != "InsertRange":
                    m = {q: -v for q, v in d.items()}
                    ok = src == used and g == m
                    c.ob("slots", ok, "%s-out" % n, i, "the objects taken are not the ones dropped from the count: from %s, %s, dropped %s" % (sf(src), sf(g), sf(m)))
                    t = a[2]
                    for S in SS:
                        lim = bounded(f, m, {"used": 1}, S, t) or le(S, {"used": -1}, simp(S, d))
                        # a remainder of capacity: used' equals the new capacity
                        lim = lim or simp(S, used) == simp(S, cap) and positive(S, simp(S, cap))
                        c.ob("bounds", lim, "%s-held" % n, w.ins, "more objects are taken than the cache holds")
                    kept[w.ins.id] = (m, a[0], i)
                else:
                    ok = False
                    c.ob("slots", False, "%s-way" % n, i, "objects are copied the wrong way")
            else:
                c.ob("slots", False, "%s-copy" % n, w.ins, "the count changes by %s but %d copies go with it" % (sf(d), len(mine)))
        if k:
            for S in SS:
                if le(S, {}, k) and not all(v < 0 for v in k.values()):
                    mx = [q for q in (y for x in S if x[0] == "cmp" for z in x[2:] for y in lin(z)) if q != 1 and isinstance(q, tuple) and q[0] == "load" and field(q[1]) and field(q[1])[1] == "max_capacity_"]
                    c.ob("bounds", any(le(S, cap, {q: 1}) for q in mx), "%s-max" % n, w.ins, "the capacity may grow past the slots allocated")
                elif all(v < 0 for v in k.values()):
                    c.ob("bounds", le(S, used, cap), "%s-capacity" % n, w.ins, "the used count may exceed the lowered capacity")
                else:
                    mx = [q for q in (y for x in S if x[0] == "cmp" for z in x[2:] for y in lin(z)) if q != 1 and isinstance(q, tuple) and q[0] == "load" and field(q[1]) and field(q[1])[1] == "max_capacity_"]
                    c.ob("bounds", any(le(S, cap, {q: 1}) for q in mx), "%s-max" % n, w.ins, "the capacity may grow past the slots allocated")
        # low-water mark
        if d and n != "InsertRange":
            lw = [x for x in writes(f) if field(x.addr) and field(x.addr)[1] == "low_water_mark_" and paired(f, w.ins, x.ins)]
            ok = bool(lw)
            for x in lw:
                v = lin(x.val)
                m = mins(f, v) or []
                ok = ok and (v == used or used in m)
            c.ob("mark", ok, n, w.ins, "the mark may exceed what is left")
    for i, dst, src, g, a in cps:
        c.ob("slots", i.id in seenc or any(paired(f, w.ins, i) for w in ws), "%s-uncounted" % n, i, "objects are copied without being counted")
    # the rest
    if n == "InsertRange":
        for t, S in P.rets():
            st = [w for w in ws if P.count(S, "w%d" % w.ins.id)]
            fr = [i for i in frees if P.count(S, "f%d" % i.id)]
            d = kept.get(st[0].ins.id) if st else {}
            if d is None:
                continue
            if not fr:
                c.ob("rest", bool(st) and (le(S, cnt, d) or bool(mins(f, d)) and all(le(S, cnt, x) for x in mins(f, d)) or eq(S, cnt, d)), "%s-all" % n, f, "objects are dropped: the cache need not have taken all")
                continue
            c.ob("rest", len(fr) == 1 and P.count(S, "f%d" % fr[0].id) == 1, "%s-once" % n, fr[0], "objects are given to the central list twice")
            p, q = span_arg(f, P, fr[0], S)
            want = ladd({batch: 1}, {k: 8 * v for k, v in d.items()})
            c.ob("rest", lin(p) == want and lin(q) == ladd(cnt, d, -1), "%s-rest" % n, fr[0], "the central list gets other objects than those not kept")
    elif n == "RemoveRange":
        for t, S in P.rets():
            st = [w for w in ws if P.count(S, "w%d" % w.ins.id)]
            r = P.resolve(S, t)
            if st:
                m, dst, i = kept.get(st[0].ins.id) or ({}, None, None)
                c.ob("rest", lin(r) == m, "%s-count" % n, f, "reports another number than was taken")
                c.ob("rest", dst is not None and lin(dst) == {batch: 1}, "%s-to" % n, f, "the objects do not go to the caller")
                c.ob("rest", bounded(f, m, cnt, S), "%s-fits" % n, f, "takes more objects than fit the batch")
                c.ob("rest", not any(i in gets for i in [])and (bool(m)), "%s-some" % n, f)
            else:
                k = num(r)
                c.ob("rest", k[0] == "call" and k[1].endswith("RemoveRange") and k[2][1:] == (batch, ("arg", 3)), "%s-central" % n, f, "an empty cache does not ask the central list")
    else:
        for w in ws:
            if w.ins.id not in kept:
                continue
            m, buf, i = kept[w.ins.id]
            mine = [x for x in frees if paired(f, w.ins, x)]
            ok = len(mine) == 1
            if ok:
                a = args(f, mine[0])
                ok = strip(a[1]) == strip(buf) and lin(a[1]) == lin(buf) and lin(a[2]) == m
                ok = ok and f.dom(i, mine[0])
            c.ob("rest", ok, "%s-return" % n, w.ins, "the objects taken out are not all returned to the central list once")
        if n in ("ShrinkCache", "IncreaseCacheCapacity"):
            for t, S in P.rets():
                st = [w for w in ws if P.count(S, "w%d" % w.ins.id)]
                for v, G in cases(f, P.resolve(S, t), S):
                    if v[0] != "int":
                        continue
                    c.ob("resize", bool(v[1]) == (len(st) == 1), "%s-result" % n, f, "reports a capacity change that did not happen, or hides one")
                for w in st:
                    k = simp(set(S) | set(f.guards(w.ins)), ladd(packed(w.val)[1], {"cap": 1}, -1))
                    q = [x for x in k if x != 1]
                    sg = 1 if n.startswith("Inc") else -1
                    c.ob("resize", len(k) == 1 and len(q) == 1 and k[q[0]] == sg and q[0][0] == "call" and "num_objects_to_move" in q[0][1], "%s-step" % n, w.ins, "the capacity does not change by one batch: %s" % sf(k))


def eq(S, a, b):
    return le(S, a, b) and le(S, b, a)


def positive(S, a):
    return le(S, {1: 0}, a) or le(S, {}, a)


def sf(a):
    if a is None:
        return "?"
    return " + ".join("%s*%s" % (v, k if not isinstance(k, tuple) else show(k) if k[0] not in ("smin", "umin") else k[0]) for k, v in a.items())[:90]


def can(c, f):
    for t, S in PF(f).rets():
        for v, G in cases(f, t, S):
            if v == I(1):
                mx = [q for q in (y for x in G if x[0] == "cmp" for z in x[2:] for y in lin(z)) if q != 1 and isinstance(q, tuple) and q[0] == "load" and field(q[1]) and field(q[1])[1] == "max_capacity_"]
                b = [q for q in (y for x in G if x[0] == "cmp" for z in x[2:] for y in lin(z)) if isinstance(q, tuple) and q[0] == "call" and "num_objects_to_move" in q[1]]
                c.ob("resize", any(le(G, {"cap": 1, y: 1}, {q: 1}) for q in mx for y in b), "can-grow", f, "promises growth past the slots")


def ctor(c):
    n = 0
    for f in c.fns(TC + r"TransferCache\(", [r"StaticForwarder::", r"^tcmalloc::tcmalloc_internal::central_freelist_internal::CentralFreeList<", "^tcmalloc::tcmalloc_internal::BackingTransferCache::", r"::CapacityNeeded\("], floor=2):
        si = [w for w in writes(f) if field(w.addr) and field(w.addr)[1] == "slot_info_"]
        if not si:
            continue
        n += 1
        sl = [w for w in writes(f) if field(w.addr) and field(w.addr)[1] == "slots_"]
        P = PF(f)
        for w in si:
            used, cap = packed(w.val)
            c.ob("bounds", not used, "start-empty", w.ins, "a new cache holds %s objects" % sf(used))
        last = [w for w in sl if not any(x is not w and f.dom(w.ins, x.ins) for x in sl)]
        c.need(last, "slots_ is not set")
        mx = {w.val for w in writes(f) if field(w.addr) and field(w.addr)[1] == "max_capacity_"}
        for w in last:
            for S in P.at(w.ins):
                for v, G in cases(f, P.resolve(S, w.val), set(S) | set(f.guards(w.ins))):
                    if v[0] == "call":
                        z = scaled(v[2][0] if not isinstance(v[2][0], str) else v)
                        ok = z is not None and len(z) == 1 and list(z.values())[0] >= 1 and ismax(list(z)[0], mx)
                        c.ob("bounds", ok, "slots-size", w.ins, "the slot array has room for %s objects" % sf(z))
                    else:
                        zero = any(x[0] == "cmp" and x[1] in ("eq", "ule", "sle") and I(0) in x[2:] and any(ismax(num(y), mx) for y in x[2:]) for x in G)
                        c.ob("bounds", v == ("null",) and zero or v == I(0) and zero, "slots-none", w.ins, "a cache with capacity has no slots: %s" % show(v))
    c.need(n >= 2, "no TransferCache constructor initialises the slots")
    for f in c.fns(TC + r"CapacityNeeded\(", ["StaticForwarder::"], floor=2):
        P = PF(f)
        for t, S in P.rets():
            for v, G in cases(f, P.resolve(S, t), S):
                if v[0] == "or":
                    v = ("or",) + tuple(P.resolve(S, x) for x in v[1:])
                v = P.resolve(S, v)
                if v == I(0) or v[0] == "or" and all(x == I(0) for x in v[1:]):
                    c.ob("bounds", True, "start", f, "")
                    continue
                low, high = packed(v)
                c.ob("bounds", not low or low == high or bounded(f, low, high, G), "start", f, "a cache starts with more capacity than slots: %s of %s" % (sf(low), sf(high)))


def ismax(t, mx):
    t = num(t)
    if t[0] == "load" and field(t[1]) and field(t[1])[1] == "max_capacity_":
        return True
    return any(num(m) == t for m in mx)


# -- resizing -----------------------------------------------------------------
def web(f, t):
    """phis a counter is carried in"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        for k in alin(x):
            if k != 1 and k[0] == "phi" and k not in out:
                out.add(k)
                i = f.ins[k[1]]
                todo += [f.term(o) for o in i.ops]
    return out


def step(f, w, t):
    """what a value adds to its counter"""
    a = alin(t)
    k = [x for x in a if x != 1]
    if not k:
        return ("from", a.get(1, 0))
    if len(k) == 1 and k[0] in w and a[k[0]] == 1:
        return ("add", a.get(1, 0))
    return ("?", 0)


def branch_on(f, i):
    """(block, true successor, false successor) of the branches on a call"""
    t = f.term(("v", i.id))
    out = []
    for b in range(len(f.blocks)):
        for s in f.succ[b]:
            g = f.edge_facts(b, s)
            if t in g:
                o = [x for x in f.succ[b] if x != s]
                out.append((b, s, o[0] if o else None))
    return out


def first_steps(f, w, b, s, calls=()):
    """steps of the counter right after the edge b -> s, up to its first merge
    or the next attempt"""
    stop = {i.b for i in calls}
    out, seen, todo = set(), set(), [(b, s)]
    while todo:
        p, q = todo.pop()
        if (p, q) in seen:
            continue
        seen.add((p, q))
        hit = False
        for i in f.live("phi"):
            if i.b == q and ("phi", i.id) in w:
                for o, pr in zip(i.ops, i.d["in"]):
                    if pr == p:
                        out.add(step(f, w, f.term(o)))
                        hit = True
        if not hit:
            if not f.succ[q] or q in stop:
                out.add(("end", 0))
                continue
            todo += [(q, r) for r in f.succ[q]]
    return out


def resize(c):
    fs = [f for f in c.fns(r"^void tcmalloc::tcmalloc_internal::internal_transfer_cache::ResizeCaches<", [r"::(Fetch\w*|CanIncrease\w*|ShrinkCache|IncreaseCache\w*)\(", "std::.*sort"], floor=1) if sites(f, "::ShrinkCache$")]
    c.need(fs, "no ResizeCaches")
    for f in fs:
        sh, gr = sites(f, "::ShrinkCache$"), sites(f, "::IncreaseCacheCapacity$")
        c.need(gr, "ResizeCaches never grows a cache")
        for r in f.live("ret"):
            pair = None
            for x in f.guards(r):
                if x[0] != "cmp":
                    continue
                p, a, b = x[1:]
                if p in ("sge", "uge", "sgt", "ugt"):
                    p, a, b = {"g": "l"}.get(p[1]) and p[0] + "l" + p[2], b, a
                if p in ("sle", "ule", "slt", "ult", "eq"):
                    A, B = web(f, a), web(f, b)
                    k = alin(b).get(1, 0) - alin(a).get(1, 0) - (p in ("slt", "ult"))
                    if A and B and not A & B and k <= 0 and goodweb(f, A, sh) and goodweb(f, B, gr):
                        pair = (A, B)
                    if p == "eq" and k == 0 and A and B and not A & B and goodweb(f, B, sh) and goodweb(f, A, gr):
                        pair = (B, A)
            c.ob("resize", pair is not None, "balance", r, "may return before as many caches have grown as shrunk")
            if not pair:
                continue
            A, B = pair
            for w, calls, nm in ((A, sh, "shrunk"), (B, gr, "grown")):
                for i in calls:
                    br = branch_on(f, i)
                    c.ob("resize", bool(br), nm + "-used", i, "the result is ignored")
                    for b, t, e in br:
                        st = first_steps(f, w, b, t, calls)
                        c.ob("resize", st == {("add", 1)}, nm + "-counted", i, "a cache that changed is counted %s" % sorted(st))
                        if e is not None:
                            st = first_steps(f, w, b, e, calls)
                            c.ob("resize", all(x[1] == 0 for x in st), nm + "-uncounted", i, "a cache that did not change is counted")
            # growth is paid for
            paid = set()
            for i in sh:
                paid |= {t for b, t, e in branch_on(f, i)}
            for i in gr:
                G = f.guards(i)
                ok = any(x[0] == "call" and x[1].endswith("ShrinkCache") for x in G)
                for x in G:
                    if x[0] == "cmp" and x[1] in ("slt", "ult", "ne") and web(f, x[2]) & B and web(f, x[3]) & A:
                        ok = True
                    if x[0] == "cmp" and x[1] in ("sgt", "ugt", "ne") and web(f, x[3]) & B and web(f, x[2]) & A:
                        ok = True
                # or every way here passes a successful shrink or finds nothing left to pair
                c.ob("resize", ok or covered(f, i, paid), "paid", i, "a cache may grow without another having shrunk")


def covered(f, i, paid):
    """every way to the growth loop that passes no successful shrink leaves the
    search for one with nothing left to pair, and the loop's own bound then fails"""
    stop = {x.b for x in sites(f, "::ShrinkCache$")}
    for b in range(len(f.blocks)):
        for s in f.succ[b]:
            for g in f.edge_facts(b, s):
                if g[0] != "cmp" or g[1] not in ("sle", "ule", "eq", "sge", "uge"):
                    continue
                if not reaches_without(f, i, paid, (b, s)) and not walk(f, i, (b, s), g, paid | stop):
                    return True
    return False


def walk(f, i, cut, g, stop):
    """the call is reachable from the edge, at first, without contradicting g"""
    seen, todo = set(), [(cut[0], cut[1], {})]
    first = True
    while todo:
        p, b, env = todo.pop()
        if not first and (p, b) == cut or (p, b) in seen or b in stop:
            continue
        first = False
        seen.add((p, b))
        env = dict(env)
        for k in f.live("phi"):
            if k.b == b:
                for o, pr in zip(k.ops, k.d["in"]):
                    if pr == p:
                        env[("phi", k.id)] = f.term(o)
        if b == i.b:
            return True
        for s in f.succ[b]:
            S = {g}
            bad = False
            for x in f.edge_facts(b, s):
                if x[0] == "cmp":
                    y = ("cmp", x[1], env.get(x[2], x[2]), env.get(x[3], x[3]))
                    h, d = facts({y}), facts(S)
                    for u in h:
                        for v in d:
                            r = ladd(u, v)
                            if not [q for q in r if q != 1] and r.get(1, 0) > 0:
                                bad = True
            if not bad:
                todo.append((b, s, env))
    return False


def reaches_without(f, i, paid, cut):
    """the call is reachable avoiding the blocks in paid and the edge cut"""
    entry = 0
    seen, todo = set(), [entry]
    while todo:
        b = todo.pop()
        if b in seen or b in paid:
            continue
        seen.add(b)
        todo += [s for s in f.succ[b] if (b, s) != cut]
    return i.b in seen


def goodweb(f, w, calls):
    """a counter that starts at zero and only goes up"""
    st = set()
    for k in w:
        i = f.ins[k[1]]
        st |= {step(f, w, f.term(o)) for o in i.ops}
    return ("from", 0) in st and all(x in (("from", 0), ("add", 0), ("add", 1)) for x in st) and ("add", 1) in st and \
        any(first_steps(f, w, b, t, calls) == {("add", 1)} for i in calls for b, t, e in branch_on(f, i))
