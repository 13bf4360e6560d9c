"""The per-CPU cache's front: every object taken or given is in exactly one place, and the bytes of capacity moved around are neither made nor lost."""
import itertools
from tcm import *
from C09 import nrm, mk
from C19 import plus
from C43 import lf, sub, once, segs
from C44 import spaths, Seg, A

ANCH = ["CheckFailed", "SpinLock", "TcmallocSlab", "LogImpl", "CrashWith", "CpuCache<.*>::UpdateCapacity", "CpuCache<.*>::Refill", r"CpuCache<.*>::Grow\(", "FetchFromBackingCache",
        "ReleaseToBackingCache", "subtract_at_least", r"CpuCache<.*>::ShrinkOtherCache", "StealCapacity", "StealFromOther", "CacheCpuSlab", "RecordCacheMiss", "ShardedTransferCache", "should_use",
        "TransferCache", "SizeMap", "UseGeneric", "CpuCache<.*>::GetInterval", "num_objects_to_move", "class_to_size", "GetMaxCapacity", "RecordMiss", "std::partial_sort", "std::sort", "FixedArray",
        "AllocateFast", "DeallocateFast", "BypassCpuCache", "UseBackingSharded", "AllocationGuard"]
NS = r"^tcmalloc::tcmalloc_internal::(cpu_cache_internal::)?"
PURE = ("class_to_size", "num_objects_to_move", "operator[]")


def run(c):
    c.rule("object", "an object fetched, popped or freed is at every point in exactly one place, and ends with the caller, in the CPU's list or in a backing cache")
    c.rule("bounds", "nothing is taken into the local batch beyond its end")
    c.rule("backing", "exactly one backing cache is asked, with the same class, batch and count, and its answer is passed on")
    c.rule("stopped", "a CPU's list is not used when the CPU is known to be stopped")
    c.rule("slack", "capacity taken from a CPU's slack and not used goes back to it; what is freed elsewhere is added to it, at the size of its class")
    c.rule("moved", "capacity moved from one CPU to another leaves the one exactly as it is added to the other")
    for n, g in ((r"CpuCache<.*>::FetchFromBackingCache", backing), (r"CpuCache<.*>::ReleaseToBackingCache", backing), (r"CpuCache<.*>::Refill", refill), (r"CpuCache<.*>::DeallocateSlowNoHooks", freeslow),
                 (r"CpuCache<.*>::AllocateSlowNoHooks", allocslow), (r"subtract_at_least", atleast), (r"CpuCache<.*>::Grow", grow), (r"CpuCache<.*>::ShrinkOtherCache", shrinkother),
                 (r"DrainHandler<.*>::operator\(\)", drain), (r"CpuCache<.*>::StealCapacityForSizeClassWithinCpu", steal), (r"CpuCache<.*>::StealFromOtherCache", stealother),
                 (r"CpuCache<.*>::ResizeCpuSizeClasses", resize)):
        own = n.split("::")[-1]
        fs = list(c.fns(NS + n + r"\([^()]*\)( const)?$", [x for x in ANCH if not (own.startswith(x.split("::")[-1].rstrip("(\\")) and not n.startswith("Drain"))], floor=1))
        c.need(fs, "no " + n)
        for f in fs:
            g(c, f)


class P:
    """a path with calls that do not depend on anything but their arguments told apart by these alone"""

    def __init__(self, h, p):
        self.h, self.p = h, p
        self.F = [(q, pure(a), pure(b)) for q, a, b in p.F]
        p.F = self.F
        self.end = p.end

    def args(self, i):
        return [pure(x) for x in self.p.args(i)]

    def val(self, i):
        return pure(self.p.val(i))

    def N(self, t):
        return pure(self.p.N(t))

    def name(self, *n):
        return self.p.name(*n)

    def truth(self, t):
        return self.p.truth(t)

    def eqv(self, a, b):
        return self.p.eqv(a, b)

    def end2(self):
        return {k: self.N(v) for k, v in self.end[2].items()} if len(self.end) > 2 else {}

    def rmw(self):
        return [(i, i.d.get("rop"), [pure(x) for x in a]) for i, a in self.p.rmw]

    @property
    def ends(self):
        return self.end[0] == "ret"


def pure(t):
    if not isinstance(t, tuple) or not t:
        return t
    r = tuple(pure(x) if isinstance(x, tuple) else x for x in t)
    if r[0] == "call" and r[1].split("::")[-1] in PURE:
        return r[:2] + (tuple(x for x in r[2] if x[0] != "fld"), 0) if isinstance(r[2], tuple) else r
    if r[0] == "mul" and len(r) == 3:
        return ("mul",) + tuple(sorted(r[1:], key=repr))
    if r[0] == "lin":
        return mk(dict(r[1]))
    return r


def fpaths(f):
    return [P(h, p) for h, p in spaths(f)]


# -- backing ------------------------------------------------------------------
def backing(c, f):
    fetch = "Fetch" in f.name
    op = "RemoveRange" if fetch else "InsertRange"
    n = 0
    for p in fpaths(f):
        if p.h is not None or not p.ends:
            c.ob("backing", False, "loop", f, "the backing cache is asked more than once")
            continue
        n += 1
        q = [i for i in p.p.calls if "TransferCacheManager" in i.cshort and i.cshort.split("::")[-1] in ("RemoveRange", "InsertRange", "Push", "Pop")]
        ok = len(q) == 1 and q[0].cshort.endswith(op)
        c.ob("backing", ok, "once", f, "not exactly one backing cache is asked")
        if ok:
            a = p.args(q[0])
            c.ob("backing", a[-3:] == [A[1], A[2], A[3]], "same", f, "the backing cache is not given the class, batch and count")
            use = [p.truth(p.val(i)) for i in p.p.calls if i.cshort.endswith("UseBackingShardedTransferCache")]
            c.ob("backing", bool(use) and ("Sharded" in q[0].cshort) == (use[-1] is True), "which", f, "objects go to another cache than they are looked for in")
            if fetch:
                c.ob("backing", isinstance(p.end[1], tuple) and p.N(p.end[1]) == p.val(q[0]), "told", f, "the number of objects is not passed on")
    c.ob("backing", n > 0, "any", f, "nothing is asked")


# -- the batch ----------------------------------------------------------------
def batches(f):
    """local arrays of pointers"""
    out = {}
    for i in f.ins.values():
        if i.op == "call" and i.cshort.split("::")[-1] in ("FetchFromBackingCache", "ReleaseToBackingCache", "PushBatch", "PopBatch"):
            for x in i.ops:
                for t in sub(nrm(f.term(x))):
                    if t[0] == "alloca" and len(t) > 2 and " x ptr]" in str(t[2]):
                        out[t] = int(str(t[2]).strip("[").split(" x")[0])
    return out


def place(t, B):
    """t is the batch's place k: returns k as a linear form"""
    if t == B:
        return {}
    if t[0] == "gep" and t[1] == B and len(t) > 3:
        if t[2] % 8 or any(k % 8 for v, k in t[3]):
            return None
        d = {1: t[2] // 8} if t[2] else {}
        for v, k in t[3]:
            d = plus(d, {x: y * (k // 8) for x, y in lf(v).items()})
        return d
    return None


def zero(p, d):
    return not d or p.eqv(mk(d), I(0))


def fits(p, off, m, K):
    """off + m objects fit into K places"""
    t = plus(off, lf(m))
    ks = [k for k in t if isinstance(k, tuple)]
    if not ks:
        return t.get(1, 0) <= K
    if len(ks) == 1 and t == {ks[0]: 1} and ks[0][0] == "umin":
        return any(x[0] == "int" and x[1] <= K for x in ks[0][1:])
    return any(q in ("ule", "ult") and b[0] == "int" and b[1] <= K and plus(lf(a), t, -1) == {} for q, a, b in p.F)


def walk(p, B, K, n, cls, freed, bad):
    """follows how many objects the batch holds; returns (n, object taken, freed object disposed of)"""
    took, gone = None, 0
    for i in p.p.s.ins:
        if i.op == "store":
            a = p.N(p.p.s.t(i.ops[1]))
            k = place(a, B)
            if k is None:
                continue
            v = p.N(p.p.s.t(i.ops[0]))
            if not freed(v):
                bad.append(("object", "store", "something else than the freed object is put into the batch"))
            if plus(k, n, -1):
                bad.append(("object", "store-at", "an object is put over another, or leaves a gap"))
            n = plus(n, {1: 1})
            gone += 1
        elif i.op == "load":
            k = place(p.N(p.p.s.t(i.ops[0])), B)
            if k is None:
                continue
            if plus(plus(k, {1: 1}), n, -1):
                bad.append(("object", "take-at", "another object than the batch's last is taken out"))
            n = plus(n, {1: -1})
            took = p.N(p.p.s.t(("v", i.id)))
        elif i.op == "call":
            nm = i.cshort.split("::")[-1]
            if nm not in ("FetchFromBackingCache", "ReleaseToBackingCache", "PushBatch", "PopBatch", "DeallocateFast", "Push", "InsertRange", "RemoveRange"):
                continue
            a = p.args(i)
            if nm in ("FetchFromBackingCache", "PopBatch"):
                k = place(a[2], B)
                if k is None:
                    bad.append(("object", "into", "objects are taken elsewhere than into the batch"))
                    continue
                if a[1] != cls:
                    bad.append(("object", "class", "objects of another class are handled"))
                if plus(k, n, -1) and not zero(p, plus(k, n, -1)):
                    bad.append(("object", "over", "objects are taken over others, or leave a gap"))
                if not fits(p, k, a[3], K):
                    bad.append(("bounds", "end", "more objects are asked for than the batch has places"))
                n = plus(n, {p.val(i): 1})
            elif nm == "PushBatch":
                if a[1] != cls:
                    bad.append(("object", "class", "objects of another class are handled"))
                if a[2] != B or plus(lf(a[3]), n, -1):
                    bad.append(("object", "push", "another number of objects is put into the list than the batch holds"))
                n = plus(n, {p.val(i): -1})
            elif nm == "ReleaseToBackingCache":
                if a[1] != cls:
                    bad.append(("object", "class", "objects of another class are handled"))
                if a[2] == B:
                    if plus(lf(a[3]), n, -1):
                        bad.append(("object", "release", "another number of objects is released than the batch holds"))
                    n = {}
                elif a[2][0] == "alloca" and a[3] == I(1) and freed(("load", a[2], None)):
                    gone += 1
                else:
                    bad.append(("object", "release-what", "something else than the batch or the freed object is released"))
            elif nm == "DeallocateFast":
                t = p.truth(p.val(i))
                if not freed(a[1]) or a[2] != cls:
                    bad.append(("object", "fast", "another object is put into the list"))
                if t is None:
                    bad.append(("object", "fast-told", "whether the object went into the list is not looked at"))
                gone += t is True
            elif nm == "Push":
                if not freed(a[2]) or a[1] != cls:
                    bad.append(("object", "sharded", "another object is put into the sharded cache"))
                gone += 1
    return n, took, gone


def cpu_known(c, f, p, i, k):
    """the call's cpu is not one that was found stopped"""
    cpu = p.args(i)[k]
    ok = cpu[0] == "arg" or any(q in ("sle", "slt") and a[0] == "int" and a[1] >= (0 if q == "sle" else -1) and b == cpu for q, a, b in p.F) or \
        any(q == "eq" and b == I(0) and a[0] == "and" and cpu in a[1:] and any(x[0] == "int" and x[1] == 1 << 32 for x in a[1:]) for q, a, b in p.F)
    c.ob("stopped", ok, "cpu", f, "a list may be used though its CPU is stopped")


def refill(c, f):
    cls = A[2]
    ps = fpaths(f)
    B = batches(f)
    c.ob("object", len(B) == 1, "batch", f, "objects do not pass through one batch")
    if len(B) != 1:
        return
    (B, K), = B.items()
    hs = {p.h for p in ps if p.h is not None}
    c.ob("object", len(hs) <= 1, "loops", f, "objects are fetched in more than one loop")
    if len(hs) > 1:
        return
    ini = [p.end2() for p in ps if p.h is None and p.end[0] == "stop"]
    cand = [k for k in (ini[0] if ini else {}) if all(d.get(k) == I(0) for d in ini)] or [None]
    best = None
    for r in cand:
        bad = []
        fetched = 0
        for p in ps:
            if p.end[0] not in ("ret", "turn", "stop"):
                continue
            R = ("phi", r) if p.h is not None else I(0)
            b = []
            n, took, gone = walk(p, B, K, {}, cls, lambda v: False, b)
            fe = p.name("FetchFromBackingCache")
            fetched += len(fe)
            if not zero(p, n):
                b.append(("object", "left", "objects are left behind in the batch"))
            if took is not None and p.truth(R) is not False and R != I(0):
                b.append(("object", "taken-again", "an object taken for the caller is forgotten for another"))
            if took is None and fe and p.truth(R) is not True and not all(p.truth(p.val(i)) is False for i in fe):
                b.append(("object", "none-taken", "objects are fetched and none is kept for the caller"))
            want = took if took is not None else R
            if p.ends:
                got = p.N(p.end[1])
                if got != want and not (p.truth(want) is False and got == I(0)):
                    b.append(("object", "returned", "another object is returned than was taken"))
            elif p.end2().get(r) != want:
                b.append(("object", "kept", "the object taken for the caller is not kept"))
            bad += b
        if not fetched:
            bad.append(("object", "any", "nothing is fetched"))
        if best is None or len(bad) < len(best):
            best = bad
    settle(c, f, best, len(ps))


def settle(c, f, bad, n):
    for rule in ("object", "bounds"):
        m = [x for x in bad if x[0] == rule]
        for k in range(n):
            c.ob(rule, not m, "paths", f, m[0][2] if m else "")
            if m:
                break


def freeslow(c, f):
    cls, ptr = A[2], A[1]
    ps = fpaths(f)
    B = batches(f)
    c.ob("object", len(B) == 1, "batch", f, "objects do not pass through one batch")
    if len(B) != 1:
        return
    (B, K), = B.items()
    hs = sorted({p.h for p in ps if p.h is not None})
    c.ob("object", len(hs) <= 1, "loops", f, "objects are released in more than one loop")
    if len(hs) > 1:
        return
    cells = {}
    for i in f.ins.values():
        if i.op == "store":
            a = nrm(f.term(i.ops[1]))
            if a[0] == "alloca":
                cells.setdefault(a, set()).add(nrm(f.term(i.ops[0])))
    own = {a for a, v in cells.items() if v == {ptr}}
    freed = lambda v: v == ptr or v[0] == "load" and v[1] in own
    ini = [p.end2() for p in ps if p.h is None and p.end[0] == "stop"]
    cand = [None] + list(ini[0] if ini else {})
    best = None
    for r in cand:
        bad = []
        for p in ps:
            if p.end[0] not in ("ret", "turn", "stop"):
                continue
            b = []
            n = {("phi", r): 1} if p.h is not None and r is not None else {}
            n, took, gone = walk(p, B, K, n, cls, freed, b)
            if took is not None:
                b.append(("object", "taken", "an object is taken out of the batch"))
            if gone != (1 if p.h is None else 0):
                b.append(("object", "once", "the freed object does not go to exactly one place"))
            if p.ends:
                if not zero(p, n):
                    b.append(("object", "left", "objects are left behind in the batch"))
            else:
                e = lf(p.end2()[r]) if r is not None else {}
                if not zero(p, plus(n, e, -1)):
                    b.append(("object", "count", "the count of objects in the batch is wrong"))
            bad += b
        if best is None or len(bad) < len(best):
            best = bad
    settle(c, f, best, len(ps))
    for p in ps:
        if p.h is None:
            for i in p.name("CpuCache::UpdateCapacity"):
                cpu_known(c, f, p, i, 1)


def allocslow(c, f):
    cls = A[1]
    n = 0
    for p in fpaths(f):
        if not p.ends or p.h is not None:
            c.ob("object", False, "loop", f, "")
            continue
        n += 1
        r = p.N(p.end[1])
        src = None
        for i in p.p.calls:
            nm = i.cshort.split("::")[-1]
            a = p.args(i)
            if nm not in ("Pop", "FetchFromBackingCache", "AllocateFast", "Refill"):
                continue
            c.ob("object", src is None, "one", f, "an object is taken and dropped for another")
            if nm == "FetchFromBackingCache":
                v0 = [v for s, v, j in p.p.st if s == a[2] and p.p.ix(j) < p.p.ix(i)]
                c.ob("object", a[2][0] == "alloca" and a[3] == I(1) and a[1] == cls, "fetch", f, "not exactly one object of the class is fetched for the caller")
                c.ob("object", bool(v0) and v0[-1] == I(0), "fetch-none", f, "when no object is fetched something undefined is returned")
                src = ("load", a[2], None)
            elif nm == "AllocateFast":
                t = p.truth(p.val(i))
                c.ob("object", a[1] == cls and t is not None, "fast", f, "the list is asked for another class, or its answer is not looked at")
                src = p.val(i) if t else None
            else:
                c.ob("object", cls in a[1:], "class", f, "another class is asked for")
                if nm == "Refill":
                    cpu_known(c, f, p, i, 1)
                src = p.val(i)
        c.ob("object", src is not None and r == src, "returned", f, "the object returned is not the one obtained")
    c.ob("object", n > 0, "any", f, "nothing is returned")


# -- capacity -----------------------------------------------------------------
def atleast(c, f):
    done = 0
    for p in fpaths(f):
        cx = [i for i in p.p.s.ins if i.op == "cmpxchg"]
        if p.end[0] == "turn" or p.end[0] == "stop":
            continue
        r = p.N(p.end[1])
        if r == I(0):
            ok = not cx or all(won(p, i) is False for i in cx)
            c.ob("slack", ok and any(q == "ult" and b == A[1] for q, a, b in p.F), "nothing", f, "nothing is said to be taken though there was enough, or something was taken")
            continue
        done += 1
        ok = len(cx) == 1 and won(p, cx[0]) is True
        c.ob("slack", ok, "swapped", f, "an amount is returned that was not taken")
        if ok:
            a = p.args(cx[0])
            old, new = a[1], a[2]
            c.ob("slack", lf(new) == plus(lf(old), lf(r), -1), "amount", f, "another amount is returned than was taken")
            c.ob("slack", r[0] == "umin" and set(r[1:]) == {old, A[2]}, "most", f, "more is taken than there is or than was wanted")
            c.ob("slack", any(q in ("ule", "ult") and x == A[1] and y == old for q, x, y in p.F), "least", f, "less is taken than is of use")
    c.ob("slack", done > 0, "any", f, "nothing is ever taken")


def won(p, i):
    for q, a, b in p.F:
        if q in ("eq", "ne") and b == I(0) and a[0] == "ext" and a[1][0] == "cmpxchg" and a[1][-1] == i.id and a[2] in ((1,), 1, ("int", 1)):
            return q == "ne"
    return None


def counter(a, name):
    """the cpu whose counter this is"""
    for x in sub(a):
        if x[0] == "fld" and x[2] == name and x[3][0] == "gep" and len(x[3][3]) == 1 and any(y[0] == "fld" and y[2] == "resize_" for y in sub(x[3][1])):
            return x[3][3][0][0]
    return None


def size_of(cls):
    return lambda t: t[0] == "call" and t[1].endswith("class_to_size") and t[2][-1:] == (cls,)


def times(t, x, size):
    """t is x objects of the class"""
    if t[0] == "mul":
        return any(a == x and size(b) for a, b in ((t[1], t[2]), (t[2], t[1])))
    return False


def grow(c, f):
    cpu, cls = A[1], A[2]
    size = size_of(cls)
    n = 0
    for p in fpaths(f):
        if not p.ends:
            continue
        q, g = p.name("subtract_at_least"), p.name("TcmallocSlab::Grow")
        back = [(counter(a[0], "available"), a[1]) for i, op, a in p.rmw() if op == "add" and counter(a[0], "available") is not None]
        other = [1 for i, op, a in p.rmw() if counter(a[0], "available") is not None and op != "add" or counter(a[0], "capacity") is not None]
        ok = len(q) == 1 and counter(p.args(q[0])[0], "available") == cpu and size(p.args(q[0])[1]) and not other
        c.ob("slack", ok, "from", f, "capacity is not taken from the CPU's slack, at least one object's worth")
        if not ok:
            continue
        got = p.val(q[0])
        if not g:
            c.ob("slack", zero(p, lf(got)) and not back or [b[1] for b in back] == [got] and back[0][0] == cpu, "unused", f, "capacity is taken from the slack and lost")
            continue
        n += 1
        a = p.args(g[0])
        c.ob("slack", len(g) == 1 and a[1:3] == [cpu, cls] and a[3][0] == "udiv" and a[3][1] == got and size(a[3][2]), "grown", f, "the list grows by more than what was taken from the slack")
        inc = p.val(g[0])
        ok = False
        if len(back) == 1 and back[0][0] == cpu:
            d = plus(lf(got), lf(back[0][1]), -1)
            ok = len(d) == 1 and list(d.values()) == [1] and times(list(d)[0], inc, size)
        elif not back:
            ok = any(x == "eq" and any(u == got and times(v, inc, size) for u, v in ((y, z), (z, y))) or
                     x == "eq" and z == I(0) and any(w == -s and times(k, inc, size) and lf(y).get(got) == s for s in (1, -1) for k, w in lf(y).items() if isinstance(k, tuple)) for x, y, z in p.F)
        c.ob("slack", ok, "rest", f, "what the list did not grow by does not go back to the slack exactly")
    c.ob("slack", n > 0, "any", f, "no list grows")


def shrinkother(c, f):
    cpu, cls = A[1], A[2]
    size = size_of(cls)
    n = 0
    for p in fpaths(f):
        if not p.ends:
            continue
        r = p.N(p.end[1])
        s = p.name("TcmallocSlab::ShrinkOtherCache")
        if not s:
            c.ob("slack", r == I(0), "none", f, "capacity is reported that was not taken")
            continue
        n += 1
        a, v = p.args(s[0]), p.val(s[0])
        c.ob("slack", len(s) == 1 and a[1:3] == [cpu, cls] and a[3] == I(1), "one", f, "another list shrinks, or by another amount")
        t = p.truth(v)
        if r[0] == "select" and r[1][0] == "cmp" and set(r[1][2:]) == {v, I(0)} and r[1][1] in ("eq", "ne"):
            y, z = (r[3], r[2]) if r[1][1] == "eq" else (r[2], r[3])
            ok = size(y) and z == I(0)
        else:
            ok = t is True and size(r) or t is False and r == I(0) or times(r, v, size)
        c.ob("slack", ok, "told", f, "another amount is reported than the list shrank by")
    c.ob("slack", n > 0, "any", f, "no list shrinks")


def drain(c, f):
    cpu, cls, batch, count, cap = A[1], A[2], A[3], A[4], ("arg", 5)
    size = size_of(cls)
    ps = fpaths(f)
    ini = None
    for p in ps:
        if p.h is not None:
            continue
        add = [(counter(a[0], "available"), op, a[1]) for i, op, a in p.rmw() if counter(a[0], "available") is not None]
        c.ob("slack", len(add) == 1 and add[0][:2] == (cpu, "add") and times(add[0][2], cap, size), "drained", f, "the capacity of a drained list does not go to its CPU's slack")
        st = [(a, v) for a, v, i in p.p.st if a[0] == "load" and a[1][0] == "fld"]
        for a, v in st:
            d = plus(lf(pure(v)), lf(("load", a, None)), -1)
            c.ob("slack", len(d) == 1 and list(d.values()) == [1] and times(list(d)[0], count, size), "bytes", f, "the bytes drained are not counted")
        if not st:
            c.ob("slack", any(q == "eq" and b == I(0) and a[0] == "load" and a[1][0] == "fld" for q, a, b in p.F), "bytes-none", f, "the bytes drained are not counted")
        if p.end[0] == "stop":
            ini = p.end2()
        elif p.ends:
            c.ob("object", p.truth(count) is False, "empty", f, "objects drained are lost")
    c.ob("object", ini is not None, "any", f, "objects drained are lost")
    if ini is None:
        return
    best = None
    for r in [k for k, v in ini.items() if v == I(0)]:
        bad = []
        at = lf(("phi", r))
        for p in ps:
            if p.h is None or p.end[0] not in ("ret", "turn"):
                continue
            rel = p.name("ReleaseToBackingCache")
            pos = at
            for i in rel:
                a = p.args(i)
                k = place(a[2], batch)
                if a[1] != cls or k is None or plus(k, pos, -1):
                    bad.append("objects drained are left out, released twice, or released as another class")
                m = lf(a[3])
                ok = len(m) == 1 and isinstance(list(m)[0], tuple) and list(m)[0][0] == "umin" and any(plus(lf(x), plus(lf(count), pos, -1), -1) == {} for x in list(m)[0][1:])
                full = any(q == "ule" and plus(plus(lf(b), lf(a_), -1), plus(plus(lf(count), pos, -1), m, -1), -1) == {} for q, a_, b in p.F)
                if not (ok or full):
                    bad.append("more objects are released than were drained")
                step = m
                if ok:
                    other = [x for x in list(m)[0][1:] if plus(lf(x), plus(lf(count), pos, -1), -1)]
                    step = [m] + [lf(x) for x in other]
                else:
                    step = [m]
            if p.end[0] == "turn":
                d = plus(lf(p.end2()[r]), at, -1)
                if len(rel) != 1 or d not in step:
                    bad.append("objects drained are left out or released twice")
            else:
                if rel or not over(p, count, at):
                    bad.append("the loop ends before all objects drained are released")
        if best is None or len(bad) < len(best):
            best = bad
    c.ob("object", best == [], "drain", f, best[0] if best else "objects drained are lost")


def over(p, count, at):
    """count <= the place reached"""
    for q, a, b in p.F:
        d = plus(plus(lf(b), lf(a), -1), plus(at, lf(count), -1), -1)
        if d == {} and q in ("ule", "eq", "ult"):
            return True
        if q == "eq" and plus(plus(lf(a), lf(b), -1), plus(at, lf(count), -1), -1) == {}:
            return True
    return False


SOURCES = ("subtract_at_least", "CpuCache::ShrinkOtherCache")


def sources(p):
    d = {}
    for i in p.name(*SOURCES):
        d = plus(d, {p.val(i): 1})
    return d


def accounts(c, f, check, sources=sources, isrc=lambda x: x[0] == "call" and x[1].endswith(SOURCES)):
    """finds which variable holds what was acquired at each loop, such that every path keeps the sum; else the fewest failures"""
    ps = [p for p in fpaths(f) if p.end[0] in ("ret", "turn", "stop")]
    hs = sorted({p.h for p in ps if p.h is not None})
    phis = {}
    for p in ps:
        if p.end[0] in ("stop", "turn"):
            phis.setdefault(p.end[1], set()).update(p.end2())
    allp = sorted(set().union(*phis.values())) if phis else []
    best = None
    # variables that can hold a sum: their changes involve a source, or another such variable
    pos = set()
    more = True
    while more:
        more = False
        for p in ps:
            for k, v in (p.end2() if not p.ends else {}).items():
                if k in pos:
                    continue
                if any(isrc(x) or x[0] == "phi" and x[1] in pos for x in sub(v)):
                    pos.add(k)
                    more = True
    pos = sorted(pos) + [None]
    for combo in itertools.product(pos, repeat=len(hs)):
        acc = dict(zip(hs, combo))
        bad = []
        for p in ps:
            a0 = {("phi", acc[p.h]): 1} if p.h is not None and acc[p.h] is not None else {}
            n = plus(a0, sources(p))
            if p.ends:
                bad += check(p, n)
            else:
                e = p.end2()
                k = acc[p.end[1]]
                v = {} if k is None else lf(e[k]) if k in e else {("phi", k): 1} if p.h is not None else None
                if v is None or not zero(p, plus(n, v, -1)):
                    bad.append("capacity acquired is lost or counted twice")
        if best is None or len(bad) < len(best):
            best = bad
            best_acc = acc
        if not best:
            break
    for p in ps:
        p.acc = {("phi", best_acc[p.h]): 1} if p.h is not None and best_acc[p.h] is not None else {}
    return best, ps


def steal(c, f):
    def check(p, n):
        r = lf(p.N(p.end[1]))
        return [] if zero(p, plus(n, r, -1)) else ["another amount is reported than was acquired"]
    best, k = accounts(c, f, check)
    for _ in k:
        c.ob("moved", not best, "within", f, best[0] if best else "")
        if best:
            break
    for p in fpaths(f):
        for i in p.name("CpuCache::ShrinkOtherCache"):
            c.ob("moved", p.args(i)[1] == A[1], "same-cpu", f, "another CPU's list shrinks")


def stealother(c, f):
    dst = A[1]

    def check(p, n):
        bad = []
        add = {k: {} for k in ("available", "capacity")}
        for i, op, a in p.rmw():
            for k in add:
                if counter(a[0], k) == dst and op == "add":
                    add[k] = plus(add[k], lf(a[1]))
        for k in add:
            if not zero(p, plus(n, add[k], -1)):
                bad.append("what was acquired is not added to the CPU's " + k)
        return bad
    best, k = accounts(c, f, check)
    for _ in k:
        c.ob("moved", not best, "between", f, best[0] if best else "")
        if best:
            break
    n = 0
    for p in fpaths(f):
        took = [(counter(a[0], "capacity"), a[1]) for i, op, a in p.rmw() if op == "sub" and counter(a[0], "capacity") is not None]
        wrong = [1 for i, op, a in p.rmw() if (counter(a[0], "capacity") is not None or counter(a[0], "available") is not None) and op not in ("add", "sub")]
        c.ob("moved", not wrong, "how", f, "a CPU's capacity is overwritten")
        want = []
        for i in p.name(*SOURCES):
            n += 1
            v = p.val(i)
            a = p.args(i)
            cpu = counter(a[0], "available") if i.cshort.endswith("subtract_at_least") else a[1]
            c.ob("moved", cpu is not None, "source", f, "capacity is taken from an unknown place")
            if not zero(p, {v: 1}):
                want.append((cpu, v))
        c.ob("moved", sorted(map(repr, took)) == sorted(map(repr, want)), "left", f, "what is acquired does not leave the other CPU's capacity exactly")
    c.ob("moved", n > 0, "any", f, "nothing is acquired")


def resize(c, f):
    """what is taken from the slack and from other classes is grown by or goes back"""
    cpu = A[1]
    XCHG = lambda x: x[0] == "rmw" and x[1] == "xchg" and counter(x[2], "available") == cpu

    def flow(p):
        d = {}
        for i, op, a in p.rmw():
            if counter(a[0], "available") is not None:
                if op == "xchg":
                    d = plus(d, {p.N(p.p.s.t(("v", i.id))): 1})
        for i in p.name("StealCapacityForSizeClassWithinCpu"):
            d = plus(d, {p.val(i): 1})
        for i in p.name("GrowOtherCache"):
            g, cls = p.val(i), p.args(i)[2]
            sz = next((t for t in terms(p) if size_of(cls)(t)), None)
            d = plus(d, {("mul",) + tuple(sorted((g, sz), key=repr)): -1}) if sz else plus(d, {g: -1})
        return d

    def check(p, n):
        back = {}
        for i, op, a in p.rmw():
            if counter(a[0], "available") == cpu and op == "add":
                back = plus(back, lf(a[1]))
        return [] if zero(p, plus(n, back, -1)) else ["capacity that was not grown by does not go back to the slack exactly"]
    best, ps = accounts(c, f, check, flow, lambda x: XCHG(x) or x[0] == "call" and x[1].endswith("StealCapacityForSizeClassWithinCpu"))
    for _ in ps:
        c.ob("slack", not best, "resize", f, best[0] if best else "")
        if best:
            break
    n = 0
    for p in ps:
        for i, op, a in p.rmw():
            k = counter(a[0], "available")
            c.ob("slack", k is None or k == cpu and op in ("xchg", "add") and (op == "add" or a[1] == I(0)), "slack-of", f, "another CPU's slack is used, or it is overwritten")
            c.ob("slack", counter(a[0], "capacity") is None, "total", f, "the CPU's capacity changes")
        for i in p.name("GrowOtherCache"):
            n += 1
            a = p.args(i)
            have = plus(p.acc, flow(p))
            have = {k: v for k, v in have.items() if not (isinstance(k, tuple) and k[0] == "mul" and p.val(i) in k)}
            up = [x for x in ((a[3],) + (a[3][1:] if a[3][0] == "umin" else ())) if isinstance(x, tuple) and x[0] == "udiv" and size_of(a[2])(x[2])]
            up += [y for q, x, y in p.F if q in ("ule", "ult") and x == a[3] and y[0] == "udiv" and size_of(a[2])(y[2])]
            c.ob("slack", a[1] == cpu and any(plus(lf(x[1]), have, -1) == {} for x in up), "afford", f, "a list may grow by more than there is capacity for")
    c.ob("slack", n > 0, "resize-any", f, "no list grows")


def terms(p):
    for i in p.p.calls:
        yield p.val(i)
    for i in p.p.s.ins:
        if i.op == "call":
            for x in p.args(i):
                yield from sub(x)
