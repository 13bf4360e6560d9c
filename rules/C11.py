"""The thread cache neither loses nor duplicates an object, accounts for what
it holds, and the space claimed by all thread caches adds up."""
from tcm import *
from segs import segs
from C09 import nrm, same, add, mk, truthy, ladd, alin
from C34 import memory, final, ld, inits, repl

TC = "^tcmalloc::tcmalloc_internal::ThreadCache::"
G = "ThreadCache::"
AN = ["LinkedList::", "TransferCacheManager::", r"ThreadCache::(DeleteCache|NewHeap|Cleanup|ReleaseToTransferCache|Scavenge|ListTooLong|DeallocateSlow|IncreaseCacheLimit|IncreaseCacheLimitLocked|FetchFromTransferCache|RecomputePerThreadCacheSize)\(", "RegisterThreadCache", "InitIfNecessary", "SpinLock", "MetadataObjectAllocator", "AllocationGuardSpinLockHolder"]


def run(c):
    c.rule("slots", "an object taken from a list or the transfer cache is handed on exactly once, and one given is kept or handed on")
    c.rule("size", "the recorded size changes by the bytes of the objects kept or given up")
    c.rule("mark", "a list's low-water mark never exceeds its length, and at least one object fits every list")
    c.rule("trim", "a list or cache past its limit is trimmed, by no more than it holds idle")
    c.rule("claim", "cache space moves between the common pool and the caches without being lost or made")
    c.rule("registry", "every live cache is registered once, and a dead one is reachable from nowhere")
    c.rule("stats", "the statistics take in every cache")
    fs = {}
    for f in c.fns(TC + r"(Allocate|Deallocate|Cleanup|ReleaseToTransferCache|FetchFromTransferCache|ListTooLong|Scavenge|DeallocateSlow|IncreaseCacheLimitLocked|ThreadCache|NewHeap|BecomeIdle|DestroyThreadCache|DeleteCache|RecomputePerThreadCacheSize|GetStats|set_overall_thread_cache_size|CreateCacheIfNecessary)\(", AN, floor=16):
        fs[short(f.name).split("::")[-1].split("(")[0]] = f
    c._classes = max([classes(c, fs[n]) for n in ("Cleanup", "Scavenge", "ThreadCache") if n in fs] + [2])
    for n, g in (("Allocate", allocate), ("Deallocate", deallocate), ("FetchFromTransferCache", fetch), ("ReleaseToTransferCache", release),
                 ("Cleanup", cleanup), ("Scavenge", scavenge), ("ListTooLong", toolong), ("DeallocateSlow", slow),
                 ("IncreaseCacheLimitLocked", increase), ("ThreadCache", ctor), ("RecomputePerThreadCacheSize", recompute), ("set_overall_thread_cache_size", overall),
                 ("NewHeap", newheap), ("DeleteCache", delete), ("BecomeIdle", idle), ("DestroyThreadCache", destroy), ("CreateCacheIfNecessary", create), ("GetStats", stats)):
        c.need(fs.get(n), "no ThreadCache::" + n)
        g(c, fs[n])


# -- terms --------------------------------------------------------------------
THIS = ("arg", 0)


def fld(n, o=THIS):
    return nrm(("fld", "ThreadCache", n, o))


def isfld(a, n, st=None):
    return isinstance(a, tuple) and a[0] == "fld" and a[2] == n and (st is None or a[1] == st)


def glob(n):
    return ("glob", G + n)


def isglob(a, n):
    return isinstance(a, tuple) and a and a[0] in ("glob", "addr", "g") and str(a[1]).endswith("ThreadCache::" + n)


def loads_of(t, n):
    """loads of a global within a term"""
    return isinstance(t, tuple) and t and t[0] == "load" and isglob(t[1], n)


def lx(t):
    """as a linear form; a complement is -x-1"""
    t = nrm(t)
    if t[0] == "xor" and I(-1) in t[1:]:
        x = next((z for z in t[1:] if z != I(-1)), I(-1))
        return ladd({1: -1}, lx(x), -1)
    if t[0] == "lin":
        a = {}
        for k, v in t[1]:
            a = ladd(a, {1: v} if k == 1 else lx(k), 1 if k == 1 else v)
        return a
    if t[0] == "select" and len(t) == 4:
        return {t: 1}
    return alin(t)


def nonneg(F):
    """linear forms known to be at least zero"""
    out = []

    def put(p, a, b):
        d = ladd(lx(a), lx(b), -1)
        if p in ("sge", "uge", "eq"):
            out.append(d)
        if p in ("sle", "ule", "eq"):
            out.append({k: -v for k, v in d.items()})
        if p in ("sgt", "ugt"):
            out.append(ladd(d, {1: -1}))
        if p in ("slt", "ult"):
            out.append(ladd({k: -v for k, v in d.items()}, {1: -1}))
    todo = list(F)
    while todo:
        x = todo.pop()
        neg = False
        while x[0] == "not":
            neg, x = not neg, x[1]
        if x[0] != "cmp":
            continue
        p, a, b = x[1], nrm(x[2]), nrm(x[3])
        if neg:
            p = {"sge": "slt", "slt": "sge", "sgt": "sle", "sle": "sgt", "uge": "ult", "ult": "uge", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}.get(p)
        if a[0] == "or" and (p == "sge" and b == I(0) or p == "sgt" and b == I(-1)):
            todo += [("cmp", "sge", y, I(0)) for y in a[1:]]
        elif p == "ne" and b == I(0) and a[0] in ("load", "call"):
            out.append(ladd(lx(a), {1: -1}))
        elif p:
            put(p, a, b)
    return out


def holds(s, d):
    """the path knows the linear form d to be at least zero"""
    d = {k: v for k, v in d.items() if v}
    if set(d) <= {1}:
        return d.get(1, 0) >= 0
    for e in nonneg(s.F):
        r = {k: v for k, v in ladd(d, e, -1).items() if v}
        if set(r) <= {1} and r.get(1, 0) >= 0:
            return True
    return False


def le(s, a, b, k=0):
    """a + k <= b"""
    return holds(s, ladd(ladd(lx(b), lx(a), -1), {1: -k}))


def sized(t, cls):
    """t is the object size of the class"""
    t = nrm(t)
    return t[0] == "load" and "class_to_size_" in repr(t[1]) and has(t[1], nrm(cls))


def batchof(t, cls):
    t = nrm(t)
    return t[0] == "load" and "num_objects_to_move_" in repr(t[1]) and has(t[1], nrm(cls))


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)


def listof(a, cls, o=THIS):
    """the address is that of the class's list"""
    a = nrm(a)
    return has(a, nrm(cls)) and "'list_'" in repr(a) and has(a, o)


def lengths(t, lst):
    t = nrm(t)
    return t[0] == "call" and t[1].endswith("LinkedList::length") and nrm(t[2][0]) == lst


def null(s, t):
    """True, False or None: whether the path knows the pointer to be null"""
    t = nrm(t)
    for x in s.F:
        if x[0] == "cmp" and x[1] in ("eq", "ne"):
            a, b = nrm(x[2]), nrm(x[3])
            if a == t and b in (("null",), I(0)) or b == t and a in (("null",), I(0)):
                return x[1] == "eq"
    return None


def equals(s, a, b):
    if a == b:
        return True
    for x in s.F:
        if x[0] == "cmp" and x[1] in ("eq", "ne") and {repr(nrm(x[2])), repr(nrm(x[3]))} == {repr(a), repr(b)}:
            return x[1] == "eq"
    return None


def pos(s, i):
    return next(k for k, j in enumerate(s.ins) if j.id == i.id)


def cls_(s, i):
    return s.args(i)


def change(s, m, addr):
    """linear change of what is stored at an address"""
    v = m.get(addr)
    return {} if v is None else ladd(lx(v), lx(ld(addr)), -1)


def prod(d):
    """{(a, b): coefficient} of a linear form of products"""
    return {k: v for k, v in d.items() if v}


def product(t):
    t = nrm(t)
    return t[1:] if t[0] == "mul" else None


def clob(s, c, rule, tag, f, m, allowed):
    """no other accounting is changed"""
    for a in m:
        if isfld(a, "size_", "ThreadCache") and a not in allowed:
            c.ob(rule, False, tag, f, "another cache's size is changed")


# -- objects in and out ----------------------------------------------------------
def allocate(c, f):
    for s in segs(f):
        if s.end[0] == "turn":
            c.ob("slots", False, "allocate", f, "the operation loops")
            continue
        pops, m = s.calls(r"LinkedList::TryPop$"), final(memory(s)[0])
        fetch_ = s.calls(r"::FetchFromTransferCache$")
        r = nrm(s.end[1])
        d = change(s, m, fld("size_"))
        c.ob("slots", len(pops) == 1 and listof(s.args(pops[0])[0], ("arg", 1)), "allocate-list", f, "the object is not taken from its class's list")
        if len(pops) != 1:
            continue
        got = truthy(s, s.t(("v", pops[0].id)))
        if got:
            k = list(prod(d).items())
            c.ob("slots", r == ld(nrm(s.args(pops[0])[1])) and not fetch_, "allocate", f, "the object popped is not the one returned: %s" % show(r))
            c.ob("size", len(k) == 1 and k[0][1] == -1 and sized(k[0][0], ("arg", 1)), "allocate", f, "the size does not shrink by the object's")
            marks(c, s, m, pops[0], "allocate")
        elif got is False:
            c.ob("slots", len(fetch_) == 1 and r[0] == "call" and r[3] == fetch_[0].id and nrm(s.args(fetch_[0])[1]) == ("arg", 1) and sized(s.args(fetch_[0])[2], ("arg", 1)), "allocate-empty", f, "with an empty list, no object is fetched for the class")
            c.ob("size", not prod(d), "allocate-empty", f, "the size changes although the list gave nothing")
        else:
            c.ob("slots", False, "allocate-unknown", f, "the pop's result does not decide what is returned")


def marks(c, s, m, pop, tag):
    """after taking from a list its low-water mark is at most its length"""
    f = s.f
    lst = nrm(s.args(pop)[0])
    lens = [nrm(s.t(("v", i.id))) for i in s.calls(r"LinkedList::length$") if pos(s, i) > pos(s, pop) and nrm(s.args(i)[0]) == lst]
    later = [i for i in s.calls(r"LinkedList::(TryPop|PopBatch)$") if pos(s, i) > pos(s, pop) and nrm(s.args(i)[0]) == lst]
    low = [a for a in m if isinstance(a, tuple) and a[0] == "fld" and a[2] == "lowater_" and has(a, lst)]
    if low:
        v = nrm(m[low[0]])
        ok = v in lens or v[0] == "umin" and any(x in lens for x in v[1:]) or v == I(0)
    else:
        ok = any(le(s, x[2], y) or le(s, x[3], y) for y in lens for x in s.F if x[0] == "cmp" and any("'lowater_'" in repr(z) and has(nrm(z), lst) and not has(nrm(z), y) for z in (x[2], x[3])) and any(nrm(z) == y for z in (x[2], x[3])) and le(s, next(nrm(z) for z in (x[2], x[3]) if nrm(z) != y), y))
    c.ob("mark", ok or bool(later), tag, pop, "the low-water mark stays above the length")


def deallocate(c, f):
    for s in segs(f):
        if s.end[0] == "turn":
            c.ob("slots", False, "deallocate", f, "the operation loops")
            continue
        push, m = s.calls(r"LinkedList::Push$"), final(memory(s)[0])
        sl = s.calls(r"::DeallocateSlow$")
        d = list(prod(change(s, m, fld("size_"))).items())
        c.ob("slots", len(push) == 1 and listof(s.args(push[0])[0], ("arg", 2)) and nrm(s.args(push[0])[1]) == ("arg", 1), "deallocate", f, "the object is not put on its class's list exactly once")
        c.ob("size", len(d) == 1 and d[0][1] == 1 and sized(d[0][0], ("arg", 2)), "deallocate", f, "the size does not grow by the object's")
        if len(push) != 1 or fld("size_") not in m:
            continue
        lst = nrm(s.args(push[0])[0])
        if sl:
            a = [nrm(x) for x in s.args(sl[0])]
            c.ob("trim", len(sl) == 1 and a[0] == THIS and a[2] == lst and a[3] == ("arg", 2) and pos(s, sl[0]) > pos(s, push[0]), "deallocate-slow", f, "the slow path is not given the object's list and class")
        else:
            lens = [nrm(s.t(("v", i.id))) for i in s.calls(r"LinkedList::length$") if pos(s, i) > pos(s, push[0]) and nrm(s.args(i)[0]) == lst]
            maxl = maxlen(s, lst)
            c.ob("trim", any(le(s, x, y) for x in lens for y in maxl), "deallocate-list", f, "a list may grow past its limit without being trimmed")
            c.ob("trim", le(s, m[fld("size_")], ld(fld("max_size_")), 1), "deallocate-cache", f, "the cache may grow past its limit without being trimmed")


def terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from terms(x)


def maxlen(s, lst):
    """the loads of a list's max_length_"""
    r = set()
    for x in s.F:
        for t in terms(nrm(x)):
            if t and t[0] == "load" and isfld(t[1], "max_length_") and has(t[1], lst):
                r.add(t)
    return r


def fetch(c, f):
    for s in segs(f):
        if s.end[0] == "turn":
            c.ob("slots", False, "fetch", f, "the operation loops")
            continue
        rr, m = s.calls(r"TransferCacheManager::RemoveRange$"), final(memory(s)[0])
        pb = s.calls(r"LinkedList::PushBatch$")
        r = nrm(s.end[1])
        d = prod(change(s, m, fld("size_")))
        c.ob("slots", len(rr) == 1, "fetch-once", f, "not one fetch from the transfer cache")
        if len(rr) != 1:
            continue
        a = [nrm(x) for x in s.args(rr[0])]
        got = nrm(s.t(("v", rr[0].id)))
        buf, n = a[2], a[3]
        c.ob("slots", a[1] == ("arg", 1) and (batchof(n, ("arg", 1)) or n[0] in ("smin", "umin") and any(batchof(x, ("arg", 1)) for x in n[1:]) or any(batchof(x, ("arg", 1)) and le(s, n, x) for x in subterms(s))), "fetch-ask", f, "more objects are asked for than a batch holds")
        nothing = any(x[0] == "cmp" and nrm(x[2]) == got and (x[1] == "eq" and x[3] == I(0) or x[1] in ("sle",) and x[3] == I(0) or x[1] in ("slt", "ult") and x[3] == I(1)) for x in s.F)
        if nothing:
            c.ob("slots", r in (("null",), I(0)) and not pb and not d, "fetch-none", f, "nothing was fetched, and something is returned or counted")
            continue
        c.ob("slots", r == ld(buf), "fetch", f, "what is returned is not the first object fetched: %s" % show(r))
        rest = add(got, I(-1))
        if pb:
            b = [nrm(x) for x in s.args(pb[0])]
            c.ob("slots", len(pb) == 1 and listof(b[0], ("arg", 1)) and b[1] == rest and b[2] == nrm(("gep", buf, 8, ())), "fetch-rest", f, "the rest of the objects is not put on the list")
            k = list(d.items())
            p = product(k[0][0]) if len(k) == 1 and k[0][1] == 1 else None
            flat = d == {}
            want = ladd({}, expand(("arg", 2), got))
            want = ladd(want, {("arg", 2): -1})
            c.ob("size", p is not None and set(p) == {("arg", 2), rest} or prod(want) == d, "fetch", f, "the size does not grow by that of the objects put on the list")
        else:
            c.ob("slots", holds(s, ladd({1: 1}, lx(got), -1)), "fetch-lost", f, "objects fetched are neither returned nor put on the list")
            c.ob("size", not d, "fetch-one", f, "the size changes although the list does not")
        limit(c, s, m, a0list(s, m), ("arg", 1), "fetch")


def expand(x, y):
    return {nrm(("mul",) + tuple(sorted((x, y), key=repr))): 1}


def subterms(s):
    r = set()
    for x in s.F:
        r |= {t for t in terms(nrm(x)) if t and t[0] == "load"}
    return r


def a0list(s, m):
    return [a for a in m if isinstance(a, tuple) and a[0] == "fld" and a[2] == "max_length_"]


def limit(c, s, m, addrs, cls, tag):
    """a list's limit stays at least one"""
    for a in addrs:
        c.ob("mark", least(s, m[a], ld(a), cls), tag + "-limit", s.f, "the list's limit may drop to zero: %s" % show(m[a]))


def least(s, v, old, cls):
    v = nrm(v)
    if v[0] == "int":
        return v[1] >= 1
    if batchof(v, cls):
        return True
    if v[0] in ("umax", "smax"):
        return any(least(s, x, old, cls) for x in v[1:])
    if v[0] in ("umin", "smin"):
        return all(least(s, x, old, cls) for x in v[1:])
    a = lx(v)
    if a.get(old) == 1 and all(k in (1, old) or w > 0 for k, w in a.items()) and a.get(1, 0) >= 0:
        return True
    if holds(s, ladd(a, {1: -1})):
        return True
    # the largest multiple of the batch size: x - x % b, with x at least b
    x = [k for k in a if k != 1 and a[k] == 1]
    m = [k for k in a if k != 1 and a[k] == -1]
    if len(a) == 2 and len(x) == len(m) == 1 and m[0][0] in ("urem", "srem") and m[0][1] == x[0] and batchof(m[0][2], cls):
        return atleast(s, x[0], m[0][2], old)
    p = [k for k in a if k != 1]
    if len(a) == 1 and p[0][0] == "mul" and a[p[0]] == 1:
        for u, w in ((p[0][1], p[0][2]), (p[0][2], p[0][1])):
            if u[0] in ("udiv", "sdiv") and u[2] == w and batchof(w, cls):
                return atleast(s, u[1], w, old)
    return False


def atleast(s, x, b, old):
    if x[0] in ("umin", "smin"):
        return all(atleast(s, y, b, old) for y in x[1:])
    if x[0] == "int":
        return x[1] >= 128
    a = lx(x)
    return a.get(b, 0) >= 1 and all(w > 0 for w in a.values()) or le(s, b, x)


def release(c, f):
    """what is popped is inserted; the size shrinks by the total"""
    if len(f.loops) > 1:
        c.ob("slots", False, "release", f, "more than one loop")
        return
    starts = [None] + [l["header"] for l in f.loops]
    lst, cls = ("arg", 1), ("arg", 2)
    total, inflow, N = None, [], None
    ends = []
    for st in starts:
        for s in segs(f, start=f.blocks[st][0]) if st is not None else segs(f, stop=starts[1:]):
            ends.append((st, s))
    # the loop's remaining count: the header's phi that shrinks by what is popped
    cand = {}
    for st, s in ends:
        n = mk({})
        m = final(memory(s)[0])
        pops = s.calls(r"LinkedList::PopBatch$")
        for p in pops:
            a = [nrm(x) for x in s.args(p)]
            ins_ = [i for i in s.calls(r"TransferCacheManager::InsertRange$") if pos(s, i) > pos(s, p)]
            nxt = [q for q in pops if pos(s, q) > pos(s, p)]
            b = [nrm(x) for x in s.args(ins_[0])] if ins_ else None
            c.ob("slots", a[0] == lst and b is not None and b[1] == cls and b[2] == a[2] and b[3] == a[1] and (not nxt or pos(s, ins_[0]) < pos(s, nxt[0])), "release", p, "what is popped from the list is not what the transfer cache gets")
            k = a[1]
            c.ob("slots", batchof(k, cls) or k[0] in ("umin", "smin") and any(batchof(x, cls) for x in k[1:]) or any(batchof(x, cls) and le(s, k, x) for x in subterms(s)), "release-batch", p, "more is popped than the batch holds")
            n = add(n, k)
            marks(c, s, m, p, "release")
        extra = [i for i in s.calls(r"TransferCacheManager::InsertRange$")]
        c.ob("slots", len(extra) == len(pops), "release-twice", f, "objects reach the transfer cache without being popped")
        cand[id(s)] = (n, m)
    lp = f.loops[0]["header"] if f.loops else None
    phi = None
    if lp is not None:
        for i in f.blocks[lp]:
            if i.op == "phi" and all(s.end[0] != "turn" or st is None or same(s.end[2].get(i.id, I(0)), add(("phi", i.id), cand[id(s)][0], -1)) for st, s in ends) and any(s.end[0] == "turn" and st is not None and cand[id(s)][0] != I(0) for st, s in ends):
                phi = i.id
        c.ob("slots", phi is not None, "release-count", f, "the count left does not shrink by what is popped")
        if phi is None:
            return
    tot = None
    for st, s in ends:
        n, m = cand[id(s)]
        if s.end[0] != "ret":
            continue
        d = prod(change(s, m, fld("size_")))
        left = ("phi", phi) if phi is not None and st is not None else None
        if left is not None:
            c.ob("slots", same(n, left) or n == I(0) and (le(s, left, I(0)) or zero_(s, left)), "release-all", f, "not everything asked for is given back")
        # the bytes
        k = list(d.items())
        p = product(k[0][0]) if len(k) == 1 and k[0][1] == -1 else None
        q = [x for x in p or () if not sized(x, cls)]
        ok = p is not None and len(p) == 2 and len(q) == 1
        if left is None and not ok and n == I(0) and not d:
            continue
        c.ob("size", ok, "release", f, "the size does not shrink by the objects' bytes")
        if ok:
            tot = q[0]
            if left is None:
                c.ob("size", same(tot, n), "release-total", f, "the size shrinks by another number of objects")
    if phi is not None and tot is not None:
        for st, s in ends:
            if st is None and s.end[0] == "stop":
                v = nrm(s.end[2][phi])
                c.ob("size", same(s.term(tot), v) or tot == v, "release-total", f, "the size shrinks by another number of objects: %s" % show(s.term(tot)))
                lens = [nrm(s.t(("v", i.id))) for i in s.calls(r"LinkedList::length$") if nrm(s.args(i)[0]) == lst]
                c.ob("slots", v == ("arg", 3) and any(le(s, v, x) for x in lens) or v in lens or v[0] in ("smin", "umin") and ("arg", 3) in v[1:] and any(x in lens for x in v[1:]), "release-most", f, "more may be taken than the list holds")


def zero_(s, t):
    return any(x[0] == "cmp" and x[1] == "eq" and nrm(x[2]) == t and x[3] == I(0) for x in s.F)


def counter(f):
    """the loop counting every class: its header and counter"""
    for l in f.loops:
        for i in f.blocks[l["header"]]:
            if i.op != "phi":
                continue
            st = [f.term(o) for o, b in zip(i.ops, i.d["in"]) if f.bdom(i.b, b)]
            if inits(f, i.id) == {I(0)} and st and all(same(x, add(("phi", i.id), I(1))) for x in st):
                return l["header"], i.id
    return None, None


def overall_loop(c, rule, f, tag, bound):
    h, k = counter(f)
    if h is None:
        c.ob(rule, False, tag, f, "not one loop over all classes")
    return h, k


def cleanup(c, f):
    h, k = overall_loop(c, "slots", f, "cleanup", 0)
    if h is None:
        return
    for s in segs(f, start=f.blocks[h][0]):
        rel = s.calls(r"::ReleaseToTransferCache$")
        if s.end[0] == "turn":
            lens = [nrm(s.t(("v", i.id))) for i in s.calls(r"LinkedList::(length|empty)$") if listof(s.args(i)[0], ("phi", k))]
            if rel:
                a = [nrm(x) for x in s.args(rel[0])]
                c.ob("slots", len(rel) == 1 and listof(a[1], ("phi", k)) and a[2] == ("phi", k) and lengths(a[3], a[1]), "cleanup", f, "not the whole list of the class is given back")
            else:
                em = any(truthy(s, x) for x in lens if x[1].endswith("empty")) or any(holds(s, {x: -1}) or zero_(s, x) for x in lens if x[1].endswith("length"))
                c.ob("slots", em, "cleanup-skip", f, "a list with objects is left behind")
        elif s.end[0] == "ret":
            bounds(c, f, s, k, "slots", "cleanup-all")


def bounds(c, f, s, k, rule, tag):
    n = [y[3][1] for y in s.F if y[0] == "cmp" and nrm(y[2]) == ("phi", k) and y[3][0] == "int" and y[1] in ("uge", "sge", "eq")]
    c.ob(rule, bool(n) and max(n) >= CLASSES(c), tag, f, "not all classes are covered")


def CLASSES(c):
    """the number of classes: the most any loop over the lists goes to"""
    return c._classes


def classes(c, f):
    h, k = counter(f)
    r = 0
    if h is not None:
        for s in segs(f, start=f.blocks[h][0]):
            if s.end[0] == "ret":
                r = max([r] + [y[3][1] for y in s.F if y[0] == "cmp" and nrm(y[2]) == ("phi", k) and y[3][0] == "int" and y[1] in ("uge", "sge", "eq")])
    return r


def scavenge(c, f):
    h, k = overall_loop(c, "trim", f, "scavenge", 0)
    if h is None:
        return
    cls = ("phi", k)
    for s in segs(f, start=f.blocks[h][0]):
        rel, m = s.calls(r"::ReleaseToTransferCache$"), final(memory(s)[0])
        if s.end[0] == "turn":
            low = [a for a in m if isfld(a, "lowater_") and listof(a[3], cls)]
            lens = [nrm(s.t(("v", i.id))) for i in s.calls(r"LinkedList::length$") if listof(s.args(i)[0], cls) and all(pos(s, i) > pos(s, r) for r in rel)]
            c.ob("mark", len(low) == 1 and m[low[0]] in lens, "scavenge", f, "the low-water mark is not reset to the length left")
            for r in rel:
                a = [nrm(x) for x in s.args(r)]
                w = ld(low[0]) if low else None
                n = a[3]
                half = n[0] in ("lshr", "ashr", "udiv", "sdiv") and n[1] == w
                c.ob("trim", len(rel) == 1 and listof(a[1], cls) and a[2] == cls and w is not None and (half or le(s, n, w) or n == w or n[0] in ("umin", "smin") and w in n[1:]), "scavenge", f, "more is given up than lay idle: %s" % show(n))
            if not rel:
                c.ob("trim", bool(low) and le(s, ld(low[0]), I(0)), "scavenge-idle", f, "idle objects are not trimmed")
            limit(c, s, m, a0list(s, m), cls, "scavenge")
        elif s.end[0] == "ret":
            bounds(c, f, s, k, "trim", "scavenge-all")


def toolong(c, f):
    for s in segs(f):
        if s.end[0] != "ret":
            c.ob("trim", False, "toolong", f, "loops")
            continue
        rel, m = s.calls(r"::ReleaseToTransferCache$"), final(memory(s)[0])
        a = [nrm(x) for x in s.args(rel[0])] if rel else None
        c.ob("trim", len(rel) == 1 and a[1] == ("arg", 1) and a[2] == ("arg", 2) and batchof(a[3], ("arg", 2)), "toolong", f, "a batch of the list is not given up")
        limit(c, s, m, a0list(s, m), ("arg", 2), "toolong")


def slow(c, f):
    for s in segs(f):
        if s.end[0] != "ret":
            c.ob("trim", False, "slow", f, "loops")
            continue
        tl, sc = s.calls(r"::ListTooLong$"), s.calls(r"::Scavenge$")
        lens = [nrm(s.t(("v", i.id))) for i in s.calls(r"LinkedList::length$") if nrm(s.args(i)[0]) == ("arg", 2)]
        if tl:
            a = [nrm(x) for x in s.args(tl[0])]
            c.ob("trim", len(tl) == 1 and a[1] == ("arg", 2) and a[2] == ("arg", 3), "slow-list", f, "another list is trimmed")
        else:
            c.ob("trim", any(le(s, x, y) for x in lens for y in maxlen(s, ("arg", 2))), "slow-list", f, "a list past its limit is not trimmed")
        if not sc:
            c.ob("trim", le(s, ld(fld("size_")), ld(fld("max_size_")), 1), "slow-cache", f, "a cache past its limit is not trimmed")


# -- space ------------------------------------------------------------------------
def increase(c, f):
    for s in ends_of(f):
        m = final(memory(s)[0])
        un = [a for a in m if isglob(a, "unclaimed_cache_space_")]
        mx = [a for a in m if isfld(a, "max_size_", "ThreadCache")]
        d = {}
        for a in un + mx:
            d = ladd(d, change(s, m, a))
        own = change(s, m, fld("max_size_"))
        if s.end[0] == "turn":
            c.ob("claim", not un and not mx, "steal-turn", f, "space moves although the search goes on")
        else:
            c.ob("claim", not prod(d), "steal", f, "the space taken is not the space given: %s" % show(mk(d)))
            if own:
                c.ob("claim", own.get(1, 0) > 0 and set(own) == {1}, "steal-grow", f, "the cache's limit does not grow")
            for a in mx:
                if a != fld("max_size_"):
                    k = change(s, m, a)
                    z = Later(s)
                    c.ob("claim", set(k) == {1} and k[1] < 0 and le(z, I(-k[1]), ld(a)), "steal-most", f, "more space is taken than the other cache has")
                    v = a[3]
                    c.ob("claim", equals(z, nrm(v), THIS) is False, "steal-self", f, "a cache may take space from itself")
                    c.ob("registry", victim(s, m, v), "steal-victim", f, "space is taken from something that is not a registered cache: %s" % show(v))
        for a in m:
            if isglob(a, "next_memory_steal_"):
                v = m[a]
                ok = v[0] == "load" and (isglob(v[1], "thread_heaps_") or isfld(v[1], "next_", "ThreadCache"))
                c.ob("registry", ok, "steal-next", f, "the next cache to take space from is not a registered one: %s" % show(v))


class Later:
    """a path's facts, those on the next cache to take space from also read as on the cache put there"""

    def __init__(self, s):
        x = [(a, v) for a, v, i in memory(s)[0] if isglob(a, "next_memory_steal_")]
        self.F = set(s.F)
        if x:
            for y in s.F:
                y = tuple(nrm(z) for z in y)
                if null_(y):
                    continue
                self.F.add(repl(y, {ld(x[0][0]): x[0][1]}))


def null_(y):
    return y[0] == "cmp" and (y[3] == ("null",) or y[2] == ("null",))


def victim(s, m, v):
    v = nrm(v)
    return v[0] == "load" and (isglob(v[1], "thread_heaps_") or isglob(v[1], "next_memory_steal_") or isfld(v[1], "next_", "ThreadCache"))


def ends_of(f):
    hs = [l["header"] for l in f.loops]
    out = list(segs(f, stop=hs))
    for h in hs:
        out += list(segs(f, start=f.blocks[h][0]))
    return out


def ctor(c, f):
    for s in ends_of(f):
        m = final(memory(s)[0])
        inc = s.calls(r"::IncreaseCacheLimitLocked$")
        for i in inc:
            before = [x for x in memory(s)[0] if pos(s, x[2]) < pos(s, i)]
            b = final(before)
            c.ob("claim", b.get(fld("max_size_")) == I(0), "new-zero", f, "a new cache does not start without a claim")
            after = [x for x in memory(s)[0] if pos(s, x[2]) > pos(s, i)]
            a = final(after)
            un = [x for x in a if isglob(x, "unclaimed_cache_space_")]
            if fld("max_size_") in a:
                k = a[fld("max_size_")]
                d = change(s, a, un[0]) if un else {}
                was0 = any(x[0] == "cmp" and x[1] == "eq" and nrm(x[2]) == ld(fld("max_size_")) and x[3] == I(0) for x in s.F)
                c.ob("claim", was0 and k[0] == "int" and k[1] > 0 and d == {1: -k[1]}, "new-least", f, "the least claim of a new cache is not taken from the pool")
            else:
                c.ob("claim", not un, "new-pool", f, "the pool changes although the cache's claim does not")
            c.ob("size", m.get(fld("size_")) == I(0), "new", f, "a new cache does not start empty")
    h, k = overall_loop(c, "mark", f, "new-lists", 0)
    if h is None:
        return
    for s in segs(f, start=f.blocks[h][0]):
        m = final(memory(s)[0])
        if s.end[0] == "turn":
            lo = [m[a] for a in m if isfld(a, "lowater_") and listof(a, ("phi", k))]
            mxl = [m[a] for a in m if isfld(a, "max_length_") and listof(a, ("phi", k))]
            c.ob("mark", lo == [I(0)] and len(mxl) == 1 and mxl[0][0] == "int" and mxl[0][1] >= 1, "new-list", f, "a new list does not start with no idle objects and room for one")
        elif s.end[0] == "ret":
            bounds(c, f, s, k, "mark", "new-lists")


def walker(f):
    """(header, current cache, what the walk's variable must become)"""
    for l in f.loops:
        for i in f.blocks[l["header"]]:
            if i.op != "phi":
                continue
            z = inits(f, i.id)
            if len(z) == 1:
                z = next(iter(z))
                if isglob(z, "thread_heaps_"):
                    return l["header"], i.id, ld(("phi", i.id)), lambda cur: fld("next_", cur)
                if loads_of(z, "thread_heaps_"):
                    return l["header"], i.id, ("phi", i.id), lambda cur: ld(fld("next_", cur))
    return None


def recompute(c, f):
    w = walker(f)
    c.ob("claim", w is not None, "recompute", f, "no walk over the caches")
    if w is None:
        return
    h, pid, cur, step = w
    acc = None
    turns, outs = [], []
    for s in segs(f, start=f.blocks[h][0]):
        (turns if s.end[0] == "turn" else outs).append((s, final(memory(s)[0])))
    for i in f.blocks[h]:
        if i.op == "phi" and i.id != pid and inits(f, i.id) == {I(0)}:
            acc = i.id
    c.ob("claim", acc is not None and bool(turns), "recompute-sum", f, "the claims are not added up from zero")
    if acc is None:
        return
    for s, m in turns:
        a = fld("max_size_", cur)
        out, val = memory(s)
        new = m.get(a, ld(a))
        got = nrm(s.end[2][acc])
        c.ob("claim", same(got, add(("phi", acc), ld(a))) and a not in m or same(got, add(("phi", acc), new)) or same(got, add(("phi", acc), ld(a))) and reload_(s, a), "recompute-add", f, "a cache's claim is not added as it was left: %s" % show(got))
        c.ob("claim", nrm(s.end[2][pid]) == step(cur), "recompute-next", f, "a cache is left out")
        c.ob("claim", null(s, cur) is False, "recompute-cur", f, "no cache is visited")
        c.ob("claim", not [x for x in m if isfld(x, "max_size_", "ThreadCache") and x != a], "recompute-other", f, "another cache's claim changes")
    for s, m in outs:
        un = [a for a in m if isglob(a, "unclaimed_cache_space_")]
        ok = len(un) == 1
        if ok:
            d = lx(m[un[0]])
            ov = [k for k in d if k != 1 and k[0] == "load" and "overall_thread_cache_size_" in repr(k)]
            ok = len(d) == 2 and len(ov) == 1 and d[ov[0]] == 1 and d.get(("phi", acc)) == -1
        c.ob("claim", ok, "recompute-rest", f, "the pool is not what the caches leave of the total")
        c.ob("claim", null(s, cur) is True, "recompute-end", f, "the walk ends before the last cache")


def reload_(s, a):
    """the path's last load of the address comes after its last store"""
    st = [pos(s, i) for x, v, i in memory(s)[0] if x == a]
    l = [k for k, i in enumerate(s.ins) if i.op == "load" and nrm(s.t(i.ops[0])) == a]
    return bool(l) and (not st or max(l) > max(st))


def overall(c, f):
    for s in ends_of(f):
        if s.end[0] != "ret":
            continue
        st = [(a, v, i) for a, v, i in memory(s)[0] if "overall_thread_cache_size_" in repr(a)]
        rc = s.calls(r"::RecomputePerThreadCacheSize$")
        lk = s.calls(r"SpinLockHolder::\w*SpinLockHolder$|SpinLock::(lock|Lock)$")
        c.ob("claim", len(st) == 1 and len(rc) == 1 and pos(s, st[0][2]) < pos(s, rc[0]), "overall", f, "the pool is not recomputed after the total changed")
        c.ob("claim", bool(lk) and bool(st) and pos(s, lk[0]) < pos(s, st[0][2]), "overall-lock", f, "the total changes outside the lock")
        if st:
            v = nrm(st[0][1])
            c.ob("claim", v == ("arg", 0) and positive(s, v) or v[0] == "int" and v[1] > 0 or v[0] == "umax" and ("arg", 0) in v[1:] and any(x[0] == "int" and x[1] > 0 for x in v[1:]), "overall-value", f, "the total may become nothing: %s" % show(v))


def positive(s, v):
    return le(s, I(1), v)


# -- registry -----------------------------------------------------------------------
def newheap(c, f):
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("registry", False, "new", f, "loops")
            continue
        m = final(memory(s)[0])
        new = s.calls(r"MetadataObjectAllocator::New$")
        c.ob("registry", len(new) == 1, "new-one", f, "not one cache is made")
        if len(new) != 1:
            continue
        h = nrm(s.t(("v", new[0].id)))
        top = next((a for a in m if isglob(a, "thread_heaps_")), None)
        c.ob("registry", top is not None and m[top] == h and nrm(s.end[1]) == h, "new", f, "the new cache is not registered and returned")
        if top is None:
            continue
        old = ld(top)
        c.ob("registry", m.get(fld("next_", h)) == old and m.get(fld("prev_", h)) in (("null",), I(0)), "new-links", f, "the new cache does not lead to the others")
        e = null(s, old)
        c.ob("registry", e is True or m.get(fld("prev_", old)) == h, "new-back", f, "the cache behind the new one does not lead back to it")
        n = next((a for a in m if isglob(a, "thread_heap_count_")), None)
        c.ob("registry", n is not None and change(s, m, n) == {1: 1}, "new-count", f, "the number of caches does not grow by one")


def delete(c, f):
    h = THIS
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("registry", False, "delete", f, "loops")
            continue
        out, _v = memory(s)
        m = final(out)
        cl, de = s.calls(r"::Cleanup$"), s.calls(r"MetadataObjectAllocator::Delete$")
        un = s.calls(r"::~\w*SpinLockHolder$|SpinLock::(unlock|Unlock)$")
        lk = s.calls(r"SpinLockHolder::\w+SpinLockHolder$|SpinLock::(lock|Lock)$")
        gst = [i for a, v, i in out if a[0] != "alloca" and not isfld(a, "in_setspecific_")]
        ok = len(cl) == len(de) == len(lk) == len(un) == 1 and nrm(s.args(cl[0])[0]) == h and nrm(s.args(de[0])[1]) == h
        c.ob("registry", ok and pos(s, cl[0]) < pos(s, de[0]) and pos(s, un[0]) < pos(s, de[0]), "delete", f, "a cache is not emptied and given up exactly once, at the end")
        if not ok:
            continue
        c.ob("registry", all(pos(s, lk[0]) < pos(s, i) < pos(s, un[0]) for i in gst), "delete-lock", f, "the registry changes outside the lock")
        nx, pv = ld(fld("next_")), ld(fld("prev_"))
        c.ob("registry", null(s, nx) is True or m.get(fld("prev_", nx)) == pv, "delete-next", f, "the cache behind leads back to the dead one")
        c.ob("registry", null(s, pv) is True or m.get(fld("next_", pv)) == nx, "delete-prev", f, "the cache before leads on to the dead one")
        top = next((a for a in m if isglob(a, "thread_heaps_")), None)
        isfirst = first_(s, "thread_heaps_")
        c.ob("registry", m[top] == nx if top is not None else isfirst is False, "delete-top", f, "the dead cache may stay the first")
        if top is not None:
            c.ob("registry", isfirst is True or null(s, pv) is True, "delete-top-other", f, "caches before the dead one are dropped")
        st = next((a for a in m if isglob(a, "next_memory_steal_")), None)
        c.ob("registry", first_(s, "next_memory_steal_") is False if st is None else m[st] == nx or m[st][0] == "load" and isglob(m[st][1], "thread_heaps_") or top is not None and m[st] == m[top], "delete-steal", f, "the dead cache may be the next to take space from")
        if st is not None and m[st][0] == "load" and isglob(m[st][1], "thread_heaps_"):
            c.ob("registry", isfirst is False, "delete-steal-top", f, "the dead cache may be the next to take space from")
        n = next((a for a in m if isglob(a, "thread_heap_count_")), None)
        c.ob("registry", n is not None and change(s, m, n) == {1: -1}, "delete-count", f, "the number of caches does not shrink by one")
        u = next((a for a in m if isglob(a, "unclaimed_cache_space_")), None)
        c.ob("claim", u is not None and change(s, m, u) == {ld(fld("max_size_")): 1}, "delete", f, "the dead cache's space does not return to the pool")


def first_(s, g):
    for x in s.F:
        if x[0] == "cmp" and x[1] in ("eq", "ne"):
            a, b = nrm(x[2]), nrm(x[3])
            for p, q in ((a, b), (b, a)):
                if p == THIS and loads_of(q, g):
                    return x[1] == "eq"
    return None


def tls(a):
    return isinstance(a, tuple) and (isglob(a, "thread_local_data_") or a[0] == "call" and "threadlocal" in a[1] and any(isglob(x, "thread_local_data_") for x in a[2]))


def idle(c, f):
    n = 0
    for s in ends_of(f):
        out, _v = memory(s)
        for d in s.calls(r"::DeleteCache$"):
            n += 1
            st = [(v, i) for a, v, i in out if tls(a) and pos(s, i) < pos(s, d)]
            x = nrm(s.args(d)[0])
            c.ob("registry", bool(st) and st[-1][0] in (("null",), I(0)), "idle", d, "the thread still leads to the cache given up")
            c.ob("registry", x[0] == "load" and tls(x[1]) and null(s, x) is False, "idle-own", d, "not the thread's own cache is given up")
            rg = [i for i in s.calls(r"::RegisterThreadCache$") if pos(s, i) < pos(s, d)]
            c.ob("registry", bool(rg) and nrm(s.args(rg[-1])[1]) in (("null",), I(0)), "idle-exit", d, "the cache given up is given up again when the thread ends")
        c.ob("registry", len(s.calls(r"::DeleteCache$")) <= 1, "idle-once", f, "a cache is given up twice")
    c.ob("registry", n > 0, "idle-some", f, "an idle thread keeps its cache")


def destroy(c, f):
    for s in ends_of(f):
        out, _v = memory(s)
        d = s.calls(r"::DeleteCache$")
        c.ob("registry", len(d) == 1 if null(s, THIS) is not True else not d, "exit", f, "a thread's cache is not given up exactly once when it ends")
        for i in d:
            st = [(v, j) for a, v, j in out if tls(a) and pos(s, j) < pos(s, i)]
            c.ob("registry", nrm(s.args(i)[0]) == THIS and bool(st) and st[-1][0] in (("null",), I(0)), "exit-tls", i, "the thread still leads to the cache given up")


def create(c, f):
    for s in ends_of(f):
        out, _v = memory(s)
        if s.end[0] != "ret":
            continue
        r = nrm(s.end[1])
        st = [(v, i) for a, v, i in out if tls(a)]
        rg = s.calls(r"::RegisterThreadCache$")
        c.ob("registry", all(v == r for v, i in st) and all(nrm(s.args(i)[1]) == r for i in rg) and len(rg) == len(st), "create-tls", f, "the thread does not lead to the cache it is given")
        new = s.calls(r"::NewHeap$")
        c.ob("registry", len(new) <= 1 and all(r == nrm(s.t(("v", i.id))) for i in new), "create-lost", f, "a new cache is made and not given to the thread")
        if not new and not (r[0] == "load" and tls(r[1])):
            same_ = any(x[0] == "cmp" and x[1] in ("eq", "ne") and "pthread_self" in repr(x) and has(nrm(x), fld("tid_", r)) or "pthread_equal" in repr(x) for x in s.F)
            c.ob("registry", same_, "create-found", f, "a thread is given another thread's cache: %s" % show(r))
        if r[0] == "load" and tls(r[1]):
            c.ob("registry", null(s, r) is False, "create-own", f, "a thread is given no cache")


def stats(c, f):
    w = walker(f)
    c.ob("stats", w is not None, "walk", f, "no walk over the caches")
    if w is None:
        return
    h, pid, cur, step = w
    n = 0
    for s in segs(f, start=f.blocks[h][0]):
        m = final(memory(s)[0])
        if null(s, cur) is False:
            n += 1
            d = change(s, m, ("arg", 0))
            c.ob("stats", d == {ld(fld("size_", cur)): 1}, "bytes", f, "a cache's bytes are not added")
        elif s.end[0] == "ret":
            c.ob("stats", null(s, cur) is True, "end", f, "the walk ends before the last cache")
    for s in ends_of(f):
        if s.end[0] == "turn" and s.end[1] == h and pid in s.end[2] and nrm(s.end[2][pid])[0] != "glob" and not loads_of(nrm(s.end[2][pid]), "thread_heaps_"):
            c.ob("stats", nrm(s.end[2][pid]) == step(cur), "next", f, "a cache is left out")
    c.ob("stats", n > 0, "some", f, "no cache is counted")
