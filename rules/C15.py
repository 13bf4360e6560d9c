"""A guarded page is accessible only while it holds an object, its bounds and
history are on record whenever it is, and a free that is wrong never succeeds."""
from tcm import *
from segs import segs
from C09 import nrm, truthy, mk
from C19 import lin, plus, sub, eqv, minform, at_most, bn
from C34 import memory, final, ld
from C11 import ends_of

G = r"^tcmalloc::tcmalloc_internal::GuardedPageAllocator::"
OWN = "(ReserveFreeSlot|FreeSlot|GetFreeSlot|MaybeRightAlign|WriteOverflowOccurred|Allocate|AddrToSlot|GetNearestValidPage)"
AN = ["SpinLock", "StackTraceFilter", "GetTID", "GetStackTrace", "ReportCorruptedFree", "Bitmap<", "Random", "Parameters", "MmapAligned", "Arena", "PageMap.*Ensure", "PageAllocator::GetErrorType"]
THIS = ("arg", 0)
PS = None


def run(c):
    c.rule("slot", "a slot is taken free and unaccounted, and given back once, under the lock")
    c.rule("open", "a page is made accessible for the object placed in it, and only in its own slot")
    c.rule("place", "an object lies within its page, aligned, with the padding up to the guard page filled")
    c.rule("record", "an object's size, place and stack trace are on record before it is handed out")
    c.rule("close", "a page is inaccessible before its slot can be taken again")
    c.rule("wrong", "a second free, a mismatched free and an overflow found on free never return")
    c.rule("report", "an access is attributed to the nearest slot and to the error its record shows")
    c.rule("map", "the pool is in use only once it is mapped, known to the page map and its records are initialised")
    for n, k in (("Allocate", allocate), ("Deallocate", deallocate), ("ReserveFreeSlot", reserve), ("FreeSlot", freeslot), ("GetFreeSlot", getfree), ("AddrToSlot", addrtoslot),
                 ("MaybeRightAlign", rightalign), ("WriteOverflowOccurred", overflow), ("GetErrorType", errortype), ("GetNearestValidPage", nearest), ("MapPages", mappages), ("TrySample", trysample)):
        own = [x for x in OWN[1:-1].split("|") if x != n]
        fs = c.fns(r"%s%s\(" % (G, n), AN + [r"GuardedPageAllocator::(%s)\(" % "|".join(own)], floor=1)
        c.need(fs, "no GuardedPageAllocator::" + n)
        for f in fs:
            k(c, f)


# -- terms --------------------------------------------------------------------
def fld(n):
    return nrm(("fld", "GuardedPageAllocator", n, THIS))


def at(n):
    return ld(fld(n))


def plain(t):
    """the term without the ordering of its loads"""
    t = nrm(t)

    def g(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "load":
            return ("load", g(t[1]), None)
        return tuple(g(x) if isinstance(x, tuple) else x for x in t)
    return g(t)


def isf(a, n):
    a = nrm(a)
    while isinstance(a, tuple) and a and a[0] == "fld":
        if a[1] == "GuardedPageAllocator" and a[3] == THIS:
            return a[2] == n
        a = a[3]
    return False


def poly(t):
    """a sum of products: {atoms: factor}"""
    a = lin(t)
    out = {}
    for k, v in a.items():
        if k == 1:
            acc(out, (), v)
            continue
        k = nrm(k)
        p = {(repr(k),): 1}
        if k[0] == "mul" and len(k) == 3:
            p = {}
            for x, y in poly(k[1]).items():
                for u, w in poly(k[2]).items():
                    acc(p, tuple(sorted(x + u)), y * w)
        elif k[0] == "or" and len(k) == 3 and I(1) in k[1:]:
            o = k[1] if k[2] == I(1) else k[2]
            q = poly(o)
            if all(z % 2 == 0 for z in q.values()):
                p = dict(q)
                acc(p, (), 1)
        elif k[0] == "shl" and len(k) == 3 and k[2][0] == "int" and k[2][1] < 32:
            p = {x: y << k[2][1] for x, y in poly(k[1]).items()}
        for x, y in p.items():
            acc(out, x, v * y)
    return out


def acc(d, k, v):
    d[k] = d.get(k, 0) + v
    if not d[k]:
        del d[k]


def peq(a, b):
    return poly(a) == poly(b)


def mul(*t):
    r = t[0]
    for x in t[1:]:
        r = ("mul", r, x)
    return r


def plusp(*ts):
    out = {}
    for t in ts:
        for k, v in (t if isinstance(t, dict) else poly(t)).items():
            acc(out, k, v)
    return out


def pageof(slot):
    """where a slot's page starts, as a sum"""
    return plusp(at("first_page_addr_"), poly(mul(mul(I(2), slot), at("page_size_"))))


def masked(t):
    """x for x & -page_size"""
    t = nrm(t)
    if t[0] == "and" and len(t) == 3:
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if eqv(y, sub(I(0), at("page_size_"))):
                return x
    a = lin(t)
    # x - x % page_size
    for k, v in a.items():
        if v == -1 and k != 1 and k[0] in ("urem", "and"):
            x = k[1]
            rest = dict(a)
            del rest[k]
            if eqv(mk(rest), x) and (k[0] == "urem" and eqv(k[2], at("page_size_")) or k[0] == "and" and eqv(k[2], sub(at("page_size_"), I(1)))):
                return x
    return None


def slotof(t):
    """the page address whose slot a term is"""
    t = nrm(t)
    if t[0] == "call" and t[1].endswith("AddrToSlot") or t[0] == "call" and "AddrToSlot" in repr(t[1]):
        return nrm(t[2][1])
    d = I(1)
    while True:
        if t[0] == "ashr" and t[2][0] == "int":
            a = lin(t[1])
            if len(a) == 1 and 1 not in a:
                (k, v), = a.items()
                if v > 0 and (v & (v - 1)) == 0 and v.bit_length() - 1 <= t[2][1] and t[2][1] == 32:
                    d, t = mul(d, I(1 << (t[2][1] - v.bit_length() + 1))), nrm(k)
                    continue
        if t[0] in ("udiv", "sdiv"):
            d, t = mul(d, t[2]), nrm(t[1])
            continue
        if t[0] == "lshr" and t[2][0] == "int":
            d, t = mul(d, I(1 << t[2][1])), nrm(t[1])
            continue
        break
    if not peq(d, mul(I(2), at("page_size_"))):
        return None
    a = plus(lin(t), lin(at("first_page_addr_")))
    return mk(a)


def meta(a):
    """(slot, member of its record) of an address; the pool's array, or the one given"""
    a = nrm(a)
    path = []
    while isinstance(a, tuple) and a and a[0] == "fld":
        path.append(a[2])
        if a[1].endswith("SlotMetadata"):
            b = nrm(a[3])
            if b[0] == "gep" and len(b[3]) == 1 and not b[2] and nrm(b[1]) == at("data_"):
                return nrm(b[3][0][0]), a[2], tuple(reversed(path[:-1]))
            return (None, a[2], tuple(reversed(path[:-1]))) if nrm(b) == at("data_") else None
        a = nrm(a[3])
    return None


def root(a):
    a = nrm(a)
    while isinstance(a, tuple) and a and a[0] in ("fld", "gep"):
        a = nrm(a[3] if a[0] == "fld" else a[1])
    return a


def metastores(s, st):
    return [(meta(a), v, i) for a, v, i in st if meta(a)]


def pos(s, i):
    return s.ins.index(i)


def own(s, n):
    return s.calls(r"GuardedPageAllocator::%s$" % n)


def protects(s):
    return [(i, [nrm(x) for x in s.args(i)]) for i in s.calls(r"(^|::)mprotect$")]


def locked(s, i):
    """the instruction lies while the pool's lock is held"""
    n = 0
    for j in s.ins[:pos(s, i)]:
        if j.op == "call" and "Lock" in j.cshort:
            nm = j.cshort.split("::")[-1]
            if nm.startswith("~") or nm.lower() == "unlock":
                n -= 1
            elif nm.lower() == "lock" or nm.endswith("Holder") or "Holder" in nm or nm.startswith("SpinLock"):
                if any(isf(x, "guarded_page_lock_") for x in s.args(j)):
                    n += 1
    return n > 0


def says(s, t, zero):
    """the path knows t to be zero, or not to be"""
    t = bn(t)
    for y in s.F:
        z, neg = y, False
        while z[0] == "not":
            neg, z = not neg, z[1]
        if z[0] != "cmp":
            if bn(z) == t:
                return neg == zero
            continue
        for a, b, p in ((z[2], z[3], z[1]), (z[3], z[2], {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(z[1], z[1]))):
            if bn(a) == t:
                if b == I(0) and p in ("eq", "ule") or b == I(1) and p == "ult":
                    return (not neg) == zero
                if b == I(0) and p in ("ne", "ugt") or b == I(1) and p == "uge":
                    return neg == zero
                if b[0] == "int" and b[1] != 0 and p == "eq" and not neg:
                    return not zero
    return False


def differ(s, a, b):
    """True: known unequal; False: known equal; None"""
    d, e = sub(a, b), sub(b, a)
    for y in s.F:
        z, neg = y, False
        while z[0] == "not":
            neg, z = not neg, z[1]
        if z[0] == "cmp" and z[1] in ("eq", "ne") and sub(z[2], z[3]) in (d, e):
            return (z[1] == "ne") != neg
    return None


def failed(s, i):
    """whether the path takes an mprotect to have failed"""
    t = nrm(s.term(s.f.term(i)))
    if says(s, t, True) or differ(s, t, I(-1)) is True or any(y[0] == "cmp" and nrm(y[2]) == t and (y[1], y[3]) in (("sge", I(0)), ("sgt", I(-1))) for y in s.F):
        return False
    if says(s, t, False) or differ(s, t, I(-1)) is False or any(y[0] == "cmp" and nrm(y[2]) == t and (y[1], y[3]) in (("slt", I(0)), ("sle", I(-1))) for y in s.F):
        return True
    return None


def parts(t):
    t = nrm(t)
    r = {}
    while t[0] == "insv":
        r.setdefault(t[3][0] if isinstance(t[3], tuple) else t[3], nrm(t[2]))
        t = t[1]
    return r


def isnull(t):
    return t in (I(0), ("null",))


# -- taking and giving back a page --------------------------------------------
def allocate(c, f):
    size, align, tr = ("arg", 1), ("arg", 2), ("arg", 3)
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("slot", False, "Allocate", f, "allocation loops")
            continue
        rs = own(s, "ReserveFreeSlot")
        if len(rs) != 1:
            c.ob("slot", False, "Allocate-reserve", f, "not one slot is reserved")
            continue
        r = nrm(s.term(f.term(rs[0])))
        pr = protects(s)
        fr = own(s, "FreeSlot")
        got = parts(s.end[1]).get(0, nrm(s.end[1]))
        slots = {}

        def wrote(i):
            if i.cshort.endswith("::MaybeRightAlign"):
                a = nrm(s.args(i)[4])
                return {a: ("out", i.id)}
            return {}
        st, val = memory(s, wrote)
        ms = metastores(s, st)
        none = differ(s, r, I(-1)) is False or any(y[0] == "cmp" and nrm(y[2]) == r and (y[1], y[3]) in (("slt", I(0)), ("sle", I(-1))) for y in s.F)
        if none:
            c.ob("slot", isnull(got) and not pr and not ms and not fr, "Allocate-none", f, "without a slot something is handed out or changed")
            continue
        okp = len(pr) <= 1 and all(poly(a[0]) == pageof(r) and eqv(a[1], at("page_size_")) and a[2] == I(3) for i, a in pr)
        c.ob("open", okp, "Allocate-page", f, "not exactly the slot's page is made accessible")
        if pr and failed(s, pr[0][0]) is not False:
            good = isnull(got) and len(fr) == 1 and nrm(s.args(fr[0])[1]) == r and locked(s, fr[0])
            c.ob("slot", good, "Allocate-fail", f, "a slot whose page stays inaccessible is handed out or kept")
            continue
        c.ob("open", len(pr) == 1 or says(s, size, True), "Allocate-open", f, "an object with bytes is placed in an inaccessible page")
        ra = own(s, "MaybeRightAlign")
        for i in ra:
            a = [nrm(x) for x in s.args(i)]
            c.ob("place", a[1] == r and a[2] == size and a[3] == align and len(pr) == 1 and pos(s, pr[0][0]) < pos(s, i), "Allocate-place", f, "another object is placed, or before its page is accessible")
            first = [v for (a2, v, j) in st if nrm(a2) == a[4] and pos(s, j) < pos(s, i)]
            c.ob("place", bool(first) and poly(first[-1]) == pageof(r), "Allocate-base", f, "an object is not placed from its page's start")
        c.ob("slot", not fr, "Allocate-keep", f, "the slot of an object handed out is given back")
        m = {}
        for (sl, mem, path), v, i in ms:
            c.ob("record", sl == r, "Allocate-slot", f, "another slot's record is written")
            m[(mem,) + path] = v

        def one(mem, sub_=None):
            for k, v in m.items():
                if k[0] == mem and (sub_ is None or sub_ in k):
                    return v
            return None
        v = one("allocation_start")
        res = got
        env = {}
        # what is returned, with the placement's result standing for its cell
        lastp = [("out", i.id) for i in ra]
        cell = [nrm(s.args(i)[4]) for i in ra]
        if res[0] == "load" and cell and nrm(res[1]) == cell[0]:
            res = lastp[0]
        elif res[0] == "load":
            w = [x for a2, x, j in st if nrm(a2) == nrm(res[1])]
            res = w[-1] if w else res
        c.ob("record", v is not None and (v == res or poly(v) == poly(res)), "Allocate-start", f, "the start on record is not where the object is")
        c.ob("place", bool(ra) and v == lastp[0] or v is not None and poly(v) == pageof(r), "Allocate-where", f, "the object is not where it was placed")
        c.ob("record", one("requested_size") == size, "Allocate-size", f, "the size on record is not the object's")
        c.ob("record", one("dealloc_count") == I(0), "Allocate-count", f, "a new object counts as freed")
        c.ob("record", one("dealloc_trace", "depth") == I(0), "Allocate-old", f, "a new object keeps the last one's deallocation trace")
        ad = one("requested_alignment")
        c.ob("record", ad is not None and (ad == align or ad[0] == "int" and ad[1] >= 1 or "arg" in repr(ad)), "Allocate-align", f, "the alignment is not on record")
        d = one("alloc_trace", "depth")
        depth = [x for x in subterms(d)] if d is not None else []
        c.ob("record", d is not None and d[0] == "load" and root(d[1]) == tr, "Allocate-depth", f, "the depth of the stack trace is not on record")
        cp = s.calls(r"^llvm\.mem(cpy|move)")
        okc = False
        for i in cp:
            a = [nrm(x) for x in s.args(i)]
            k = meta(a[0])
            if k:
                okc = k[0] == r and k[1] == "alloc_trace" and root(a[1]) == tr and d is not None and eqv(a[2], mk({nrm(d): 8}))
        if not cp:
            okc = any(k[0] == "alloc_trace" and "stack" in k for k in m)
        c.ob("record", okc, "Allocate-trace", f, "the stack trace is not on record whole")
        fa = [i for i in s.calls(r"StackTraceFilter::Add$")]
        c.ob("record", len(fa) == 1 and isf(s.args(fa[0])[0], "stacktrace_filter_") and nrm(s.args(fa[0])[-1]) == I(1) and root(s.args(fa[0])[1]) == tr, "Allocate-filter", f, "the filter does not gain the object's stack trace once")


def deallocate(c, f):
    ptr = ("arg", 1)
    rets = 0
    for s in ends_of(f):
        st, val = memory(s)
        ms = metastores(s, st)
        fin = {a: v for a, v, i in st if meta(a)}
        # a path on which a record reads otherwise than what was just stored there does not exist
        if any(y[0] == "cmp" and y[1] in ("eq", "ne") and y[3] == I(0) and nrm(y[2])[0] == "load" and nrm(y[2])[1] in fin and fin[nrm(y[2])[1]][0] == "int" and (fin[nrm(y[2])[1]][1] == 0) != (y[1] == "eq") for y in s.F):
            continue
        rm = [(i, meta(nrm(s.args(i)[0]))) for i in s.ins if i.op in ("atomicrmw", "cmpxchg")]
        rm = [(i, k) for i, k in rm if k and k[1] == "dealloc_count"]
        fr = own(s, "FreeSlot")
        pr = protects(s)
        gone = s.end[0] != "ret"
        started = s.blocks and s.blocks[0] == 0
        if not started:
            # inside a loop: nothing of the pool changes
            c.ob("wrong", gone and not ms and not fr and not pr, "Deallocate-loop", f, "a wrong free goes on to return")
            continue
        if len(rm) != 1:
            c.ob("wrong", False, "Deallocate-count", f, "frees of an object are not counted")
            continue
        k = rm[0][1]
        page = slotof(k[0])
        c.ob("close", page is not None and masked(page) == ptr, "Deallocate-slot", f, "the record is not that of the page freed into")
        if page is None:
            continue
        old = nrm(s.term(f.term(rm[0][0])))
        again = says(s, old, False)
        if again:
            c.ob("wrong", gone and not ms and not fr and not pr, "Deallocate-again", f, "a second free goes on or spoils the record of the first")
            continue
        c.ob("wrong", says(s, old, True), "Deallocate-ask", f, "whether this is a second free is not asked")
        for (sl, mem, path), v, i in ms:
            c.ob("wrong", sl == k[0] and pos(s, i) > pos(s, rm[0][0]) and mem in ("dealloc_trace", "write_overflow_detected"), "Deallocate-record", f, "another record is changed, or before the free is counted")
        size = None
        ov = own(s, "WriteOverflowOccurred")
        reqs = [t for y in s.F for t in subterms(y) if isinstance(t, tuple) and t and t[0] == "load" and meta(t[1]) and meta(t[1])[0] == k[0] and meta(t[1])[1] == "requested_size"]
        empty = any(says(s, t, True) for t in reqs)
        if not empty:
            good = len(pr) == 1 and eqv(pr[0][1][0], page) and eqv(pr[0][1][1], at("page_size_")) and pr[0][1][2] == I(0) and failed(s, pr[0][0]) is False
            c.ob("close", good, "Deallocate-close", f, "the page freed stays accessible")
            c.ob("wrong", len(ov) == 1 and nrm(s.args(ov[0])[1]) == k[0] and (not pr or pos(s, ov[0]) < pos(s, pr[0][0])), "Deallocate-check", f, "the padding is not checked before the page is closed")
            if ov and truthy(s, s.term(f.term(ov[0]))) is not False:
                c.ob("wrong", gone, "Deallocate-overflow", f, "an overflow found on free goes on")
                c.ob("report", any(m_[1] == "write_overflow_detected" and v != I(0) for m_, v, i in ms), "Deallocate-note", f, "an overflow found on free is not on record")
        else:
            c.ob("close", not pr or len(pr) == 1 and eqv(pr[0][1][0], page) and pr[0][1][2] == I(0), "Deallocate-empty", f, "a page that was never accessible becomes so")
        if gone:
            c.ob("wrong", not fr, "Deallocate-gone", f, "a wrong free gives the slot back")
            continue
        rets += 1
        starts = [t for y in s.F for t in subterms(y) if isinstance(t, tuple) and t and t[0] == "load" and meta(t[1]) and meta(t[1])[0] == k[0] and meta(t[1])[1] == "allocation_start"]
        c.ob("wrong", any(differ(s, ptr, t) is False for t in starts), "Deallocate-match", f, "a free of another address in the page succeeds")
        good = len(fr) == 1 and nrm(s.args(fr[0])[1]) == k[0] and locked(s, fr[0])
        c.ob("slot", good, "Deallocate-give", f, "the slot freed is not given back once under the lock")
        if good:
            p = pos(s, fr[0])
            late = [i for _, _, i in ms if pos(s, i) > p] + [i for i, _ in pr if pos(s, i) > p] + [i for i in s.calls(r"StackTraceFilter::Add$|GetStackTrace$|WriteOverflowOccurred$") if pos(s, i) > p]
            c.ob("close", not late, "Deallocate-last", f, "the slot can be taken again while its page or record still changes")
        fa = s.calls(r"StackTraceFilter::Add$")
        good = len(fa) == 1 and nrm(s.args(fa[0])[-1]) == I(-1)
        if good:
            q = meta(nrm(s.args(fa[0])[1]))
            good = bool(q) and q[0] == k[0] and q[1] == "alloc_trace"
        c.ob("record", good, "Deallocate-filter", f, "the filter does not lose the object's stack trace once")
        gt = s.calls(r"GetStackTrace$")
        good = len(gt) == 1
        if good:
            q = meta(nrm(s.args(gt[0])[0]))
            t = nrm(s.term(f.term(gt[0])))
            good = bool(q) and q[0] == k[0] and q[1] == "dealloc_trace" and any(m_[1] == "dealloc_trace" and "depth" in m_[2] and v == t for m_, v, i in ms)
        c.ob("record", good, "Deallocate-trace", f, "the deallocation's stack trace is not on record")
    c.ob("slot", rets > 0, "Deallocate", f, "no free returns")


def reserve(c, f):
    n = 0
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("slot", False, "Reserve", f, "reserving loops")
            continue
        m = final(memory(s)[0])
        bits = s.calls(r"Bitmap::(Set|Clear)")
        r = nrm(s.end[1])
        ap = [a for a in m if isf(a, "allocated_pages_")]
        g = own(s, "GetFreeSlot")
        if r[0] == "int":
            c.ob("slot", r[1] < 0 and not bits and not ap, "Reserve-none", f, "a slot is taken that is not handed out")
            continue
        n += 1
        good = len(bits) == 1 and bits[0].cshort.endswith("SetBit") and isf(s.args(bits[0])[0], "used_pages_") and nrm(s.args(bits[0])[1]) == r and len(g) == 1 and nrm(s.term(f.term(g[0]))) == r and locked(s, bits[0]) and locked(s, g[0])
        c.ob("slot", good, "Reserve-mark", f, "the slot handed out is not found and marked under the lock")
        c.ob("slot", len(ap) == 1 and eqv(sub(plain(m[ap[0]]), ld(ap[0])), I(1)), "Reserve-count", f, "the count of slots in use does not grow by one")
        av = at_like(s, "allocated_pages_")
        mx = at("max_allocated_pages_")
        room = any(differ(s, mx, a) is True or at_most(s.F, plusone(a), mx) for a in av)
        c.ob("slot", room, "Reserve-room", f, "a slot is taken though as many are in use as allowed")
        for x in ("initialized_", "allow_allocations_"):
            c.ob("map", says(s, at(x), False), "Reserve-" + x.strip("_"), f, "a slot is taken of a pool not ready for it")
        hp = [a for a in m if isf(a, "high_allocated_pages_")]
        nx = m[ap[0]] if ap else I(0)
        hv = at_like(s, "high_allocated_pages_")
        good = bool(hp) and eqv(m[hp[0]], nx) or not hp and any(at_most(s.F, nx, h) for h in hv)
        c.ob("slot", good, "Reserve-high", f, "the high mark falls behind the slots in use")
    c.ob("slot", n > 0, "Reserve-any", f, "no slot is ever handed out")


def at_like(s, n):
    """loads of a member in what the path knows"""
    out = set()
    for y in s.F:
        for t in subterms(nrm(y)):
            if isinstance(t, tuple) and t and t[0] == "load" and isf(t[1], n):
                out.add(t)
    return out


def plusone(t):
    return mk(plus(lin(t), {1: 1}))


def freeslot(c, f):
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("slot", False, "FreeSlot", f, "giving back loops")
            continue
        m = final(memory(s)[0])
        bits = s.calls(r"Bitmap::(Set|Clear)")
        c.ob("slot", len(bits) == 1 and bits[0].cshort.endswith("ClearBit") and isf(s.args(bits[0])[0], "used_pages_") and nrm(s.args(bits[0])[1]) == ("arg", 1), "FreeSlot-mark", f, "the slot given back is not unmarked")
        ap = [a for a in m if isf(a, "allocated_pages_")]
        c.ob("slot", len(ap) == 1 and eqv(sub(plain(m[ap[0]]), ld(ap[0])), I(-1)), "FreeSlot-count", f, "the count of slots in use does not shrink by one")


def getfree(c, f):
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("slot", False, "GetFreeSlot", f, "the search loops")
            continue
        r = nrm(s.end[1])
        cs = s.calls(r"Bitmap::FindClear(Backwards)?$")
        by = [i for i in cs if nrm(s.term(f.term(i))) == r]
        good = len(by) == 1 and isf(s.args(by[0])[0], "used_pages_")
        c.ob("slot", good, "GetFreeSlot-free", f, "the slot found is not a free one")
        if not good:
            continue
        x = nrm(s.args(by[0])[1])
        inr = x == I(0) or x[0] == "urem" and eqv(x[2], at("total_pages_")) or at_most(s.F, plusone(x), at("total_pages_"))
        c.ob("slot", inr, "GetFreeSlot-from", f, "the search starts outside the pool")
        if by[0].cshort.endswith("Backwards"):
            c.ob("slot", any(y[0] == "cmp" and nrm(y[2]) == r and (y[1], y[3]) in (("sge", I(0)), ("sgt", I(-1)), ("ne", I(-1))) for y in s.F), "GetFreeSlot-found", f, "a search that found nothing is taken for a slot")
        else:
            # everything below the start was seen to be in use
            back = [i for i in cs if i.cshort.endswith("Backwards")]
            b = x == I(0) or any(eqv(s.args(i)[1], x) and any(y[0] == "cmp" and nrm(y[2]) == nrm(s.term(f.term(i))) and (y[1], y[3]) in (("slt", I(0)), ("sle", I(-1)), ("eq", I(-1))) for y in s.F) for i in back)
            c.ob("slot", b, "GetFreeSlot-all", f, "free slots below the start are passed over")


def addrtoslot(c, f):
    for s in ends_of(f):
        c.ob("close", s.end[0] == "ret" and slotof(s.end[1]) is not None and eqv(slotof(s.end[1]), ("arg", 1)), "AddrToSlot", f, "an address is not that of the slot computed")


# -- placement ----------------------------------------------------------------
def even(s):
    """the path takes the slot to be even (True), odd (False)"""
    for y in s.F:
        if y[0] == "cmp" and y[1] in ("eq", "ne"):
            t = nrm(y[2])
            if t in (("and", ("arg", 1), I(1)), ("and", I(1), ("arg", 1))) or t == ("urem", ("arg", 1), I(2)):
                if y[3] in (I(0), I(1)):
                    return (y[1] == "eq") == (y[3] == I(0))
    return None


RAW = {}


def bound(t):
    t = nrm(t)
    return t


def rightalign(c, f):
    size, align, out = ("arg", 2), ("arg", 3), ("arg", 4)
    n = 0
    RAW.clear()
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("place", False, "RightAlign", f, "placement loops")
            continue
        st, val = memory(s)
        st = [(a, v, i) for a, v, i in st if root(a)[0] != "alloca"]
        ms = [i for i in s.calls(r"^llvm\.memset")]
        RAW.setdefault("even", set()).add((even(s), bool(st)))
        if not st:
            c.ob("place", not ms, "RightAlign-left", f, "bytes of an object left in place are overwritten")
            continue
        n += 1
        good = len(st) == 1 and nrm(st[0][0]) == out
        c.ob("place", good, "RightAlign-out", f, "not the object's place is adjusted")
        if not good:
            continue
        adj = nrm(st[0][1])
        X = mk(plus(plus(lin(ld(out)), lin(at("page_size_"))), lin(size), -1))
        pad = sub(X, adj)
        mask = None
        p = nrm(pad)
        if p[0] == "and" and len(p) == 3:
            for x, y in ((p[1], p[2]), (p[2], p[1])):
                if eqv(x, X):
                    mask = y
        elif p[0] == "urem" and eqv(p[1], X):
            mask = sub(p[2], I(1))
        if mask is None and adj[0] == "and" and len(adj) == 3:
            for x, y in ((adj[1], adj[2]), (adj[2], adj[1])):
                if eqv(x, X):
                    mask = sub(I(-1), y)
        c.ob("place", mask is not None, "RightAlign-end", f, "the object is not the last aligned place in its page")
        if mask is None:
            continue
        al = nrm(mk(plus(lin(mask), {1: 1})))
        good, d = False, None
        if al[0] in ("max", "umax", "smax"):
            ops = [nrm(x) for x in al[1:]]
            if align in ops and len(ops) == 2:
                d = ops[0] if ops[1] == align else ops[1]
                good = True
        elif al[0] == "call" and "umax" in al[1]:
            ops = [nrm(x) for x in al[2]]
            if align in ops:
                d = ops[0] if ops[1] == align else ops[1]
                good = True
        elif al == align:
            # the larger by comparison
            d = None
            good = any(y[0] == "cmp" and align in (nrm(y[2]), nrm(y[3])) and y[1] in ("ult", "ule", "ugt", "uge") for y in s.F)
        c.ob("place", good, "RightAlign-align", f, "the object's alignment is not kept")
        if d is not None:
            d = nrm(d)
            good = d[0] == "int" and d[1] >= 16 or (d[0] in ("shl", "lin", "call", "min", "umin", "select") and size in set(subterms(d))) or says(s, size, True)
            if d[0] in ("min", "umin"):
                good = good and all(x[0] != "int" or x[1] >= 16 for x in d[1:])
            if d[0] == "shl":
                e = d[2]
                good = good and d[1] == I(1) and any(y[0] == "cmp" and any(eqv(nrm(z), e) for z in (y[2], y[3])) for y in s.F)
            c.ob("place", good, "RightAlign-default", f, "an object that asked for no alignment gets less than it is due")
        # the padding is filled up to the guard page, or its first bytes
        good = len(ms) == 1
        if good:
            a = [nrm(x) for x in s.args(ms[0])]
            RAW["byte"] = a[1]
            RAW["gap"] = True
            ln = a[2]
            good = eqv(a[0], mk(plus(lin(adj), lin(size))))
            room = pad
            k = RAW.setdefault("max", None)
            if ln[0] == "int":
                good = good and any(y[0] == "cmp" and any(eqv(z, room) for z in (y[2], y[3])) for y in s.F) and not at_most(s.F, room, sub(ln, I(1)))
                RAW["max"] = ln[1]
            elif ln[0] in ("min", "umin"):
                ops = [nrm(x) for x in ln[1:]]
                good = good and any(eqv(x, room) for x in ops)
                RAW["max"] = next((x[1] for x in ops if x[0] == "int"), None)
            else:
                good = good and eqv(ln, room)
        c.ob("place", good, "RightAlign-fill", f, "the padding behind the object is not filled")
    c.ob("place", n > 0, "RightAlign-some", f, "no object is placed at the end of its page")


def overflow(c, f):
    slot = ("arg", 1)
    S = ends_of(f)
    heads = [l["header"] for l in f.loops]
    right = {e for e, b in RAW.get("even", ()) if b}
    yes = no = 0
    p = None
    for s in S:
        for i in s.ins:
            if i.op == "phi":
                p = i
        if s.end[0] == "stop":
            v = {k: nrm(x) for k, x in s.end[2].items()}
            start = [t for t in v.values() if t[0] == "lin"]
            ends = [t for t in v.values() if sorted(x for x in members(t)) == ["allocation_start", "requested_size"]]
            c.ob("wrong", len(ends) == 1 and eqv(ends[0], sum_members(ends[0])), "Overflow-from", f, "the padding is not checked from the object's end")
            c.ob("wrong", not right or even(s) in right, "Overflow-slots", f, "the padding is checked of other slots than it is filled in")
        elif s.end[0] == "ret" and s.blocks[0] == 0 and s.end[1] == I(0):
            c.ob("wrong", even(s) is not None and even(s) not in right, "Overflow-skip", f, "a slot with filled padding is not checked")
        elif s.end[0] == "turn":
            ok = any(y[0] == "cmp" and y[1] == "eq" and bytecmp(y) for y in s.F)
            c.ob("wrong", ok and all(eqv(sub(x, ("phi", k)), I(1)) for k, x in s.end[2].items()), "Overflow-each", f, "not every byte is compared")
            lim(c, s, f)
            yes += 1
        elif s.end[0] == "ret" and s.blocks[0] != 0:
            r = nrm(s.end[1])
            if r == I(0):
                c.ob("wrong", not any(y[0] == "cmp" and y[1] == "ne" and bytecmp(y) for y in s.F), "Overflow-miss", f, "a byte that changed goes unreported")
                lim(c, s, f)
                no += 1
            else:
                c.ob("wrong", any(y[0] == "cmp" and y[1] == "ne" and bytecmp(y) for y in s.F), "Overflow-false", f, "an overflow is reported though no byte changed")
    c.ob("wrong", yes and no, "Overflow-walk", f, "the padding is not walked")


def members(t):
    return [meta(x[1])[1] for x in subterms(t) if isinstance(x, tuple) and x and x[0] == "load" and meta(x[1]) and meta(x[1])[0] == ("arg", 1)]


def sum_members(t):
    r = {}
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "load" and meta(x[1]) and meta(x[1])[0] == ("arg", 1):
            r[nrm(x)] = 1
    return mk(r)


def bytecmp(y):
    a, b = nrm(y[2]), nrm(y[3])
    for x, z in ((a, b), (b, a)):
        if x[0] == "load" and nrm(x[1])[0] == "phi":
            return RAW.get("byte") is None or bn(z) == bn(RAW["byte"])
    return False


def lim(c, s, f):
    """the walk ends at the page's end or as many bytes behind the object as are filled"""
    ok = False
    for y in s.F:
        if y[0] != "cmp":
            continue
        for t in (y[2], y[3]):
            q = minform(t)
            if q is None:
                t2 = nrm(t)
                if t2[0] == "umin" or t2[0] == "min":
                    q = (I(0), t2[1], t2[2])
            if q:
                a, b = plusp(q[0], q[1]), plusp(q[0], q[2])
                pe = plusp(pageof(("arg", 1)), at("page_size_"))
                for u, w in ((a, b), (b, a)):
                    k = w.get((), 0)
                    if u == pe and (RAW.get("max") is None or k == RAW["max"]):
                        ok = True
    c.ob("wrong", ok, "Overflow-to", f, "the padding is not checked as far as it is filled")


# -- reports ------------------------------------------------------------------
def enum():
    import os
    for d, _, fs in os.walk("/repo/tcmalloc"):
        for n in fs:
            if n.endswith(".h"):
                t = open(os.path.join(d, n), errors="replace").read()
                m = re.search(r"enum class GuardedAllocationsErrorType[^{]*\{([^}]*)\}", t)
                if m:
                    v, k = {}, 0
                    for x in re.sub(r"//[^\n]*", "", m.group(1)).split(","):
                        x = x.strip()
                        if not x:
                            continue
                        if "=" in x:
                            x, y = [z.strip() for z in x.split("=")]
                            k = int(y, 0) if re.match(r"^-?\d", y) else k
                        v[x] = k
                        k += 1
                    return v
    return {}


def errortype(c, f):
    E = enum()
    c.need(E, "no GuardedAllocationsErrorType")
    addr, d = ("arg", 1), ("arg", 2)

    def m(n):
        return lambda a: nrm(a)[0] == "load" and n in names(nrm(a)[1])
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("report", False, "ErrorType", f, "the classification loops")
            continue
        r = nrm(s.end[1])
        alts = [(s.F, r)]
        if r[0] == "select":
            alts = [(set(s.F) | {r[1]}, r[2]), (set(s.F) | {("not", r[1])}, r[3])]
        for F, v in alts:
            F = [fold_not(y) for y in F]
            know = {}
            for y in F:
                if y[0] != "cmp":
                    continue
                a, b, p = nrm(y[2]), nrm(y[3]), y[1]
                for n in ("allocation_start", "dealloc_count", "write_overflow_detected"):
                    if m(n)(a) and b[0] == "int":
                        know.setdefault(n, []).append((p, b[1]))

            def possible(n, x):
                for p, k in know.get(n, ()):
                    if not {"eq": x == k, "ne": x != k, "ult": x < k, "ule": x <= k, "ugt": x > k, "uge": x >= k, "slt": x < k, "sle": x <= k, "sgt": x > k, "sge": x >= k}.get(p, True):
                        return False
                return True
            A, Sz = None, None
            for y in F:
                for t in subterms(nrm(y)):
                    if isinstance(t, tuple) and t and t[0] == "load":
                        if "allocation_start" in names(t[1]):
                            A = t
                        if "requested_size" in names(t[1]):
                            Sz = t
            for start in (0, 1):
                for cnt in (0, 1, 2, 3):
                    for ov in (0, 1):
                        if not (possible("allocation_start", start) and possible("dealloc_count", cnt) and possible("write_overflow_detected", ov)):
                            continue
                        if not start:
                            want = {E.get("kUnknown")}
                        elif cnt >= 2:
                            want = {E.get("kDoubleFree")}
                        elif ov:
                            want = {E.get("kBufferOverflowOnDealloc")}
                        elif cnt == 1:
                            want = {E.get("kUseAfterFree")}
                        else:
                            below = A is not None and any(y[0] == "cmp" and lt(y, addr, A) for y in F)
                            end = mk(plus(lin(A), lin(Sz))) if A is not None and Sz is not None else None
                            above = end is not None and any(y[0] == "cmp" and le(y, end, addr) for y in F)
                            inside = end is not None and any(y[0] == "cmp" and lt(y, addr, end) for y in F) and any(y[0] == "cmp" and le(y, A, addr) for y in F)
                            want = {E.get("kBufferUnderflow")} if below else {E.get("kBufferOverflow")} if above else {E.get("kUnknown")} if inside else set()
                        c.ob("report", v[0] == "int" and v[1] in want, "ErrorType-%d%d%d" % (start, cnt, ov), f, "an error is reported as another than its record shows")


def fold_not(y):
    if y[0] == "not" and y[1][0] == "cmp":
        n = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
        return ("cmp", n[y[1][1]]) + tuple(y[1][2:])
    return y


def names(a):
    out = set()
    a = nrm(a)
    while isinstance(a, tuple) and a and a[0] == "fld":
        out.add(a[2])
        a = nrm(a[3])
    return out


def lt(y, a, b):
    return y[1] == "ult" and eqv(y[2], a) and eqv(y[3], b) or y[1] == "ugt" and eqv(y[2], b) and eqv(y[3], a)


def le(y, a, b):
    return y[1] == "ule" and eqv(y[2], a) and eqv(y[3], b) or y[1] == "uge" and eqv(y[2], b) and eqv(y[3], a)


def nearest(c, f):
    addr = ("arg", 1)
    first, ps, tot = at("first_page_addr_"), at("page_size_"), at("total_pages_")
    last = plusp(first, poly(mul(mul(I(2), mk(plus(lin(tot), {1: -1}))), ps)))
    off = sub(addr, first)
    half = [nrm(("lshr", ps, I(1))), nrm(("udiv", ps, I(2)))]

    def odd(F, q):
        """the address lies in an odd (True) or even page of that size"""
        for y in F:
            if y[0] == "cmp" and y[1] in ("eq", "ne") and y[3] in (I(0), I(1)):
                t = nrm(y[2])
                u = None
                if t[0] == "and" and I(1) in t[1:]:
                    u = t[1] if t[2] == I(1) else t[2]
                elif t[0] == "urem" and t[2] == I(2):
                    u = t[1]
                if u and u[0] == "udiv" and eqv(u[1], off) and any(eqv(u[2], z) for z in q):
                    return (y[1] == "ne") == (y[3] == I(0))
        return None
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("report", False, "Nearest", f, "the search loops")
            continue
        r = nrm(s.end[1])
        low = any(y[0] == "cmp" and lt(y, addr, first) for y in s.F)
        high = any(y[0] == "cmp" and (y[1] == "ult" and poly(y[2]) == last and eqv(y[3], addr) or y[1] == "ugt" and poly(y[3]) == last and eqv(y[2], addr)) for y in s.F)
        if low:
            ok = eqv(r, first)
        elif high:
            ok = poly(r) == last
        else:
            o = odd(s.F, [ps])
            h = odd(s.F, half)
            if o is False:
                ok = eqv(r, addr)
            elif o is True and h is not None:
                ok = any(eqv(r, mk(plus(lin(addr), lin(z), 1 if h else -1))) for z in half)
            else:
                ok = False
        c.ob("report", ok, "Nearest-page", f, "an access is not attributed to the nearest slot")


# -- the pool -----------------------------------------------------------------
def mappages(c, f):
    ps, tot = at("page_size_"), at("total_pages_")
    n = 0
    init = None
    for s in ends_of(f):
        st, val = memory(s)
        m = final(st)
        mm = s.calls(r"MmapAligned$")
        en = s.calls(r"PageMap\w*::Ensure$")
        ok = [(a, v, i) for a, v, i in st if isf(a, "initialized_")]
        for i in mm:
            a = [nrm(x) for x in s.args(i)]
            c.ob("map", peq(a[1], mk(plus({}, {1: 0})) if False else ("mul", mk(plus({nrm(tot): 2}, {1: 1})), ps)) and eqv(a[2], ps), "Map-len", f, "not a guard page on either side of each page is mapped")
        if s.blocks[0] == 0 and (mm and known_null(s, mm[0]) or en and truthy(s, s.term(f.term(en[0]))) is not True):
            c.ob("map", not ok, "Map-fail", f, "a pool that could not be mapped is put in use")
            continue
        if s.blocks[0] == 0:
            good = len(mm) == 1 and len(en) == 1
            if good:
                b = nrm(s.term(f.term(mm[0])))
                a = [nrm(x) for x in s.args(en[0])]
                ln = nrm(s.args(mm[0])[1])
                good = shifted(a[1], b) and shifted(a[2], ln)
            c.ob("map", good, "Map-known", f, "the page map is not told of the whole pool")
        if s.end[0] == "turn":
            # every record of the array, from none used
            ks = {}
            for a, v, i in st:
                k = rec(a)
                if k:
                    ks[k[1]] = (k[0], v)
            idx = [("phi", q) for q in s.end[2]]
            want = ("allocation_start", "dealloc_count", "write_overflow_detected", "requested_size")
            good = all(x in ks and ks[x][1] == I(0) and ks[x][0] in idx for x in want) and any(eqv(sub(v, ("phi", k)), I(1)) for k, v in s.end[2].items())
            if not any(ks):
                good = False
            c.ob("map", good, "Map-records", f, "a slot's record is not initialised")
            init = True
        if s.end[0] == "stop":
            c.ob("map", any(nrm(v) == I(0) for v in s.end[2].values()), "Map-from", f, "the records are not initialised from the first")
        if ok:
            n += 1
            b = m.get(fld("pages_base_addr_"))
            e = m.get(fld("pages_end_addr_"))
            fp = m.get(fld("first_page_addr_"))
            good = b is not None and e is not None and fp is not None
            if good:
                ln = plusp(e, {k: -v for k, v in poly(b).items()})
                good = ln == poly(("mul", mk(plus({nrm(tot): 2}, {1: 1})), ps))
                c.ob("map", good, "Map-bounds", f, "the pool's bounds are not those mapped")
                x = masked(fp)
                c.ob("map", x is not None and eqv(x, mk(plus(lin(b), lin(ps)))) or eqv(fp, mk(plus(lin(b), lin(ps)))), "Map-first", f, "no guard page lies before the first page")
            else:
                c.ob("map", False, "Map-bounds", f, "the pool's bounds are not set")
            lastp = max(pos(s, i) for a, v, i in st if isf(a, "pages_base_addr_") or isf(a, "pages_end_addr_") or isf(a, "first_page_addr_"))
            c.ob("map", pos(s, ok[-1][2]) > lastp and locked_tail(s, ok[-1][2]), "Map-last", f, "the pool is put in use before it is set up")
            c.ob("map", s.blocks[0] != 0 and any(y[0] == "cmp" and tot in (nrm(y[2]), nrm(y[3])) for y in s.F), "Map-all", f, "the pool is put in use with records left uninitialised")
    c.ob("map", n > 0 and init, "Map", f, "the pool is never put in use")


def locked_tail(s, i):
    """the lock is released behind the instruction, not before"""
    rel = [j for j in s.ins if j.op == "call" and "Lock" in j.cshort and (j.cshort.split("::")[-1].startswith("~") or j.cshort.lower().endswith("::unlock"))]
    return bool(rel) and all(pos(s, j) > pos(s, i) for j in rel)


def rec(a):
    a = nrm(a)
    while isinstance(a, tuple) and a and a[0] == "fld":
        if a[1].endswith("SlotMetadata"):
            b = nrm(a[3])
            if b[0] == "gep" and len(b[3]) == 1 and not b[2]:
                return nrm(b[3][0][0]), a[2]
            return None
        a = nrm(a[3])
    return None


def shifted(t, x):
    t = nrm(t)
    return t[0] == "lshr" and eqv(t[1], x) or t[0] == "udiv" and eqv(t[1], x)


def known_null(s, i):
    t = nrm(s.term(s.f.term(i)))
    for y in s.F:
        z = fold_not(y)
        if z[0] == "cmp" and z[1] == "eq" and nrm(z[2]) == t and isnull(nrm(z[3])):
            return True
    return False


def trysample(c, f):
    n = 0
    for s in ends_of(f):
        if s.end[0] != "ret":
            c.ob("open", False, "TrySample", f, "sampling loops")
            continue
        al = own(s, "Allocate")
        got = parts(s.end[1]).get(0, nrm(s.end[1]))
        if not al:
            c.ob("open", isnull(got), "TrySample-none", f, "an object is handed out that the pool did not allocate")
            continue
        n += 1
        a = [nrm(x) for x in s.args(al[0])]
        t = nrm(s.term(f.term(al[0])))
        c.ob("open", len(al) == 1 and (got == nrm(("ext", t, (0,))) or t in set(subterms(got))), "TrySample-got", f, "the object allocated is not the one handed out")
        c.ob("open", a[1:4] == [("arg", 1), ("arg", 2), ("arg", 4)], "TrySample-args", f, "another object is allocated than asked for")
        one = any(y[0] == "cmp" and nrm(y[2]) == ("arg", 3) and ((y[1], y[3]) in (("ult", I(2)), ("ule", I(1)), ("eq", I(1)), ("eq", I(0)))) for y in s.F)
        c.ob("open", one, "TrySample-page", f, "an object larger than a page is placed in one")
        on = any(y[0] == "cmp" and nrm(y[2])[0] == "call" and "guarded_sampling_interval" in nrm(y[2])[1] and (y[1], y[3]) in (("sge", I(0)), ("sgt", I(-1)), ("eq", I(0)), ("sgt", I(0))) for y in s.F)
        c.ob("open", on, "TrySample-on", f, "objects are guarded though guarding is off")
    c.ob("open", n > 0, "TrySample-any", f, "no object is ever guarded")
