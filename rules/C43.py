"""Memory comes from the system in disjoint, tagged, aligned reservations that
are carved without overlap, and only whole pages inside a range are given back."""
from tcm import *
from segs import segs
from C09 import nrm, mk
from C19 import plus

S = r"SystemAllocator<.*>::"
NS = ["MmapRegion::Alloc", "MmapRegionFactory", "AllocateFromRegion", "MmapAlignedLocked", "RandomMmapHint", "Release", "ReleasePages", "Collapse",
      "TagToHint", "Allocate", "BindMemory", "SetAnonVmaName", "DiscardMappedRegions"]
MORE = ["CheckFailed", "CrashWith", "SpinLock", "^absl::", "LogImpl", "StrError", "GetPageSize", "MadvDontNeedAdviceAvailable", "MapFixedNoReplaceFlagAvailable",
        "ExponentialBiased", "thread_safe_getenv", "MallocInternal"]
HP = 1 << 21
TAGS = 42
TAGMASK = 7 << TAGS
A = [("arg", k) for k in range(5)]


def run(c):
    c.rule("carve", "what a region hands out is its unused end, of the size and alignment asked for, and is unused no more")
    c.rule("reserve", "a reservation becomes a region of exactly its size, one per tag, or is given back")
    c.rule("map", "an address range is used only if the system mapped it at the place chosen for the tag")
    c.rule("hint", "places are chosen with the tag in their tag bits, aligned, and never at zero")
    c.rule("release", "only whole pages inside the range are released, and success is what the system reported")
    for n, g in (("MmapRegion::Alloc", carve), ("MmapRegionFactory::Create", create), ("AllocateFromRegion", reserve), ("MmapAlignedLocked", mapped), ("RandomMmapHint", hint),
                 ("Release", release), ("ReleasePages", pages), ("Collapse", collapse), ("Allocate", allocate), ("SetRegionFactory", setf)):
        own = n.split("::")[0] + "$" if "::" in n else n
        an = [r"%s%s\(" % (S, m) for m in NS if m != n and m != n.split("::")[0]] + MORE
        fs = [f for f in c.fns(r"^tcmalloc::tcmalloc_internal::" + S + n + r"\([^()]*\)( const)?$", an, floor=1)]
        c.need(fs, "no SystemAllocator::" + n)
        for f in fs:
            g(c, f)


# -- paths --------------------------------------------------------------------
NEG = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def once(f):
    """locals that are stored to once, and what is stored"""
    d = {}
    for i in f.ins.values():
        if i.op == "store":
            a = nrm(f.term(i.ops[1]))
            if a[0] == "alloca":
                d.setdefault(a, []).append(i)
    return {a: v[0] for a, v in d.items() if len(v) == 1}


class Path:
    def __init__(self, s, loc):
        self.s, self.f, self.end, self.loc = s, s.f, s.end, loc
        self.calls = [i for i in s.ins if i.op in ("call", "icall") and "lifetime" not in i.cshort and not i.cshort.startswith("llvm.")]
        self.F = []
        for x in s.F:
            neg = False
            while x[0] == "not":
                neg, x = not neg, x[1]
            if x[0] != "cmp":
                self.F.append(("eq" if neg else "ne", self.N(x), I(0)))
                continue
            p, a, b = x[1], self.N(x[2]), self.N(x[3])
            p = NEG.get(p, p) if neg else p
            if p[1:] in ("ge", "gt"):
                p, a, b = p[0] + {"ge": "le", "gt": "lt"}[p[1:]], b, a
            self.F.append((p, a, b))
        self.st = [(self.N(s.t(i.ops[1])), self.N(s.t(i.ops[0])), i) for i in s.ins if i.op == "store"]
        self.last = {a: v for a, v, i in self.st}
        self.rmw = [(i, [self.N(x) for x in s.args(i)]) for i in s.ins if i.op == "atomicrmw"]

    def N(self, t, d=0):
        return self.cn(nrm(t), d)

    def cn(self, t, d):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "null":
            return I(0)
        if t[0] == "load":
            a = self.cn(nrm(t[1]), d)
            if a in self.loc and d < 6:
                i = self.loc[a]
                return self.N(self.s.t(i.ops[0]), d + 1)
            return ("load", a, None)
        if t[0] == "call" and t[1].split("::")[-1] in ("GetPageSize", "MadvDontNeedAdviceAvailable", "MapFixedNoReplaceFlagAvailable", "TagToHint", "__errno_location"):
            return t[:2] + (tuple(self.cn(x, d) for x in t[2]), 0)
        if t[0] == "cmp":
            return (t[0], t[1]) + tuple(self.cn(x, d) for x in t[2:])
        r = nrm(tuple(self.cn(x, d) if isinstance(x, tuple) else x for x in t))
        if r[0] in ("umax", "smax", "and", "or") and len(r) == 3:
            r = (r[0],) + tuple(sorted(r[1:], key=repr))
        return r

    def args(self, i):
        return [self.N(x) for x in self.s.args(i)]

    def called(self, n):
        return [i for i in self.calls if i.cshort.split("::")[-1] == n]

    def virt(self, slot):
        """the calls through the virtual table's slot"""
        r = []
        for i in self.calls:
            if i.op == "icall" or "indirect" in i.cshort:
                r.append(i)
        return r

    def val(self, i):
        """the term of a call's value"""
        return self.N(self.s.t(("v", i.id)))

    def is0(self, t):
        if t == I(0):
            return True
        for p, a, b in self.F:
            if p in ("eq", "ne") and {a, b} == {t, I(0)}:
                return p == "eq"
        return None

    def le(self, a, b, strict=False):
        return any(x == a and y == b and (p == "ult" or not strict and p in ("ule", "eq")) for p, x, y in self.F) or \
            not strict and any(p == "eq" and (x, y) == (b, a) for p, x, y in self.F)

    def pair(self):
        """the two halves of a returned pair"""
        t = self.N(self.end[1]) if isinstance(self.end[1], tuple) else None
        r = [None, None]
        while t and t[0] == "insv":
            k = t[3][0][1] if isinstance(t[3][0], tuple) else t[3][1] if t[3][0] == "int" else t[3][0]
            if r[k] is None:
                r[k] = t[2]
            t = t[1]
        return r, t


def paths(f):
    hs = [l["header"] for l in f.loops]
    loc = once(f)
    out = [(None, Path(s, loc)) for s in segs(f, stop=hs)]
    for h in hs:
        out += [(h, Path(s, loc)) for s in segs(f, start=f.blocks[h][0], stop=[x for x in hs if x != h])]
    return out


def lf(t):
    if t[0] == "lin":
        return dict(t[1])
    if t[0] == "int":
        return {1: t[1]} if t[1] else {}
    return {t: 1}


def ld(f, b=A[0]):
    return lambda t: t[0] == "load" and t[1][0] == "fld" and t[1][2] == f and t[1][3] == b


def member(p, name, b=A[0]):
    return next((x for x in _terms(p) if x[0] == "fld" and x[2] == name and x[3] == b), None)


def _terms(p):
    for a, v, i in p.st:
        yield from sub(a)
        yield from sub(v)
    for q, a, b in p.F:
        yield from sub(a)
        yield from sub(b)
    for i in p.calls:
        for x in p.args(i):
            yield from sub(x)


def sub(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from sub(x)


def roundup(t, x, n):
    """t is x rounded up to a multiple of n, or None"""
    if t[0] == "and":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if a[0] == "int" and not a[1] & (n - 1) and a[1] & ((1 << 44) - 1) >= (1 << 44) - n and b == mk(plus(lf(x), {1: n - 1})):
                return True
    return False


# -- regions ------------------------------------------------------------------
def carve(c, f):
    some = False
    for h, p in paths(f):
        if p.end[0] != "ret":
            c.ob("carve", False, "loop", f, "")
            continue
        (r, n), t = p.pair()
        fs = [a for a in p.last if a[0] == "fld" and a[2] == "free_size_"]
        if r == I(0):
            c.ob("carve", n == I(0) and not fs, "refused", f, "a refusal takes memory from the region")
            continue
        some = True
        if r is None or n is None:
            c.ob("carve", False, "shape", f, "")
            continue
        free, start = member(p, "free_size_"), member(p, "start_")
        if not free or not start:
            c.ob("carve", False, "members", f, "the region's own bounds are not used")
            continue
        F, B = ("load", free, None), ("load", start, None)
        end = plus(lf(F), lf(B))
        c.ob("carve", plus(plus(lf(r), lf(n)), end, -1) == {}, "end", f, "what is handed out does not end where the unused part ends")
        c.ob("carve", p.last.get(free) is not None and plus(plus(lf(p.last[free]), lf(n)), lf(F), -1) == {}, "free", f, "what is handed out stays unused")
        c.ob("carve", p.le(B, r), "below", f, "what is handed out may begin before the region")
        # r = (end - z) & -max(alignment, huge page)
        good = z = None
        for m, x in ((r[1], r[2]), (r[2], r[1])) if r[0] == "and" else ():
            neg = plus({}, lf(m), -1)
            d = plus(end, lf(x), -1)
            if d and len(neg) == 1:
                k, v = next(iter(neg.items()))
                if v == 1 and k[0] == "umax" and A[2] in k and any(y[0] == "int" and y[1] >= HP for y in k[1:]):
                    good, z = True, mk(d)
        c.ob("carve", bool(good), "aligned", f, "what is handed out is not aligned as asked")
        c.ob("carve", z is not None and p.le(A[1], z) and p.le(z, mk(end)), "size", f, "what is handed out may be smaller than asked, or wrap")
        mp = p.called("mprotect")
        c.ob("carve", len(mp) == 1 and p.args(mp[0])[:3] == [r, n, I(3)] and p.is0(p.val(mp[0])) is True, "usable", f, "what is handed out may not be accessible")
        for i in p.called("madvise") + p.called("munmap") + p.called("mmap"):
            c.ob("carve", p.args(i)[:2] == [r, n] and i.cshort.endswith("madvise") and p.args(i)[2] in (I(14), I(15)), "advice", f, "more than what is handed out is advised on")
    c.ob("carve", some, "any", f, "a region hands nothing out")


def create(c, f):
    some = False
    for h, p in paths(f):
        if p.end[0] != "ret":
            continue
        r = p.N(p.end[1])
        m = p.called("MallocInternal")
        add = [x for i, x in p.rmw if any(y[0] == "fld" and y[2] == "bytes_reserved_" for y in sub(x[0]))]
        if r == I(0):
            c.ob("reserve", not add, "count-none", f, "a region that is not made is counted")
            continue
        some = True
        got = {}
        for a, v, i in p.st:
            if a[0] == "fld":
                got[a[2]] = v
        c.ob("reserve", len(m) == 1 and r == p.val(m[0]) and p.is0(r) is False, "space", f, "a region is made where there is no memory for it")
        c.ob("reserve", got.get("start_") == A[1] and got.get("free_size_") == A[2] and got.get("hint_") == A[3], "whole", f, "a region is not the range it is made of")
        c.ob("reserve", len(add) == 1 and A[2] in add[0], "count", f, "the reserved bytes do not follow")
    c.ob("reserve", some, "any", f, "no region is ever made")


def vcalls(p):
    return [i for i in p.calls if i.op == "icall" or "indirect" in i.cshort]


def reserve(c, f):
    slots, some = {}, 0
    lim = I(1 << TAGS)
    for h, p in paths(f):
        if p.end[0] != "ret":
            c.ob("reserve", False, "loop", f, "")
            continue
        mm, un, vc = p.called("MmapAlignedLocked"), p.called("munmap"), vcalls(p)
        (r, n), rest = p.pair()

        def small(x):
            return any(a == x and (q == "ult" and b[0] == "int" and b[1] <= (1 << TAGS) + 1 or q == "ule" and b[0] == "int" and b[1] <= 1 << TAGS) for q, a, b in p.F)
        if mm or vc:
            c.ob("reserve", small(A[1]) and small(A[2]), "bounded", f, "a request may run out of its tag's addresses")
        slot = next((a for a, v, i in p.st if a[0] in ("fld", "gep") and "_region_" in repr(a)), None)
        tag = next((b[1] for q, a, b in p.F if q == "eq" and a == A[3] and b[0] == "int"), None)
        c.ob("reserve", len(mm) <= 1, "one", f, "one request makes two reservations")
        if not mm:
            al = vc
            made = None
            c.ob("reserve", not un, "unmap-none", f, "what was not mapped is given back")
        else:
            some += 1
            a, ptr = p.args(mm[0]), p.val(mm[0])
            size = a[1]
            z = p.is0(ptr)
            c.ob("reserve", len(a) == 4 and a[0] == A[0] and a[3] == A[3], "tag", f, "the reservation is not for the tag asked for")
            own = roundup(size, A[1], HP)
            if own:
                c.ob("reserve", a[2][0] == "umax" and A[2] in a[2] and any(y[0] == "int" and y[1] >= HP for y in a[2][1:]) and p.le(A[1], size), "big", f, "a reservation for one request is not sized and aligned for it")
                c.ob("reserve", slot is None, "big-slot", f, "a reservation for one request serves others")
            else:
                c.ob("reserve", ld("min_mmap_size_")(size) and a[2] == size and p.le(A[1], size) and p.le(A[2], size), "small", f, "a request is served from a reservation it may not fit in")
            post = [i for i in vc if p.s.ins.index(i) > p.s.ins.index(mm[0])]
            cr = [i for i in post if ptr in p.args(i)]
            if z is not False:
                c.ob("reserve", z is True and not post and not un and r == I(0), "unmapped", f, "a failed reservation is used")
                continue
            c.ob("reserve", len(cr) == 1 and p.args(cr[0])[1:3] == [ptr, size] and p.args(cr[0])[3][:2] == ("call", "SystemAllocator::TagToHint") and p.args(cr[0])[3][2][-1] == A[3],
                 "region", f, "the region is not made of the reservation")
            if len(cr) != 1:
                continue
            made = p.val(cr[0])
            if not own:
                c.ob("reserve", slot is not None and p.last.get(slot) == made, "kept", f, "a region is made and forgotten")
            zz = p.is0(made)
            if zz is not False:
                c.ob("reserve", zz is True and len(un) == 1 and p.args(un[0])[:2] == [ptr, size] and r == I(0), "given-back", f, "a reservation without a region is not given back")
                continue
            c.ob("reserve", not un, "unmap", f, "a reservation with a region is given back")
            al = [i for i in post if i not in cr]
            pre = [i for i in vc if i not in post]
            for i in pre:
                b = p.args(i)
                c.ob("reserve", b[1:3] == [A[1], A[2]] and b[0] == ("load", slot, None), "try", f, "the region tried is not the tag's, or not tried for the request")
                c.ob("reserve", any(q == "eq" and b == I(0) and t[0] == "ext" and t[1] == p.val(i) for q, t, b in p.F), "full", f, "a region is replaced that could serve the request")
            c.ob("reserve", len(al) == 1 and p.args(al[0])[0] == made and (p.args(al[0])[1] == size and own and p.args(al[0])[2] == a[2] or p.args(al[0])[1:3] == [A[1], A[2]]),
                 "serve", f, "the request is not what is taken from the new region")
            if not own:
                slots.setdefault(tag, set()).add(slot)
        if r == I(0):
            c.ob("reserve", not al, "lost", f, "what a region hands out is lost")
            continue
        c.ob("reserve", len(al) == 1 and (r == n is None and rest == p.val(al[0]) or r is not None and r[:2] == ("ext", p.val(al[0])) and n is not None and n[:2] == ("ext", p.val(al[0]))), "passed", f, "what is returned is not what the region handed out")
        if al and made is None:
            b = p.args(al[0])
            c.ob("reserve", b[1:3] == [A[1], A[2]] and b[0][0] == "load" and p.is0(b[0]) is False and tag is not None, "have", f, "a request is served from no region")
            slots.setdefault(tag, set()).add(b[0][1])
    c.ob("reserve", some > 0, "any", f, "nothing is ever reserved")
    for t, x in slots.items():
        c.ob("reserve", len(x) == 1 and not any(x & y for u, y in slots.items() if u != t), "own-slot-%s" % t, f, "two tags share a region, or one tag uses two")
    c.ob("reserve", len(slots) >= 4, "tags", f, "tags without a region")


def setf(c, f):
    n = 0
    for h, p in paths(f):
        if p.end[0] == "ret" or any(a[0] == "fld" and a[2] == "region_factory_" for a, v, i in p.st):
            n += 1
            d = p.called("DiscardMappedRegions")
            k = next((i for a, v, i in p.st if a[0] == "fld" and a[2] == "region_factory_" and v == A[1]), None)
            c.ob("reserve", k is not None and (len(d) == 1 or sum("_region_" in repr(a) for a, v, i in p.st) >= 3), "factory", f, "a new factory leaves the old regions in use, or is not set")
    c.ob("reserve", n > 0, "factory-any", f, "")


def allocate(c, f):
    n = 0
    for h, p in paths(f):
        if p.end[0] != "ret":
            continue
        (r, z), rest = p.pair()
        k = p.called("AllocateFromRegion")
        if not k:
            c.ob("reserve", r == I(0), "front-none", f, "memory is returned that was never allocated")
            continue
        n += 1
        a = p.args(k[0])
        al = a[2]
        c.ob("reserve", len(k) == 1 and a[:2] == [A[0], A[1]] and a[3] == A[3] and (al[0] == "umax" and A[2] in al and "GetPageSize" in repr(al)), "front", f, "the request is not what was asked for")
        s = mk(plus(lf(A[1]), lf(al)))
        fits = [(x, s) for x in (A[1], al)] + [(x, u) for x, y in ((A[1], al), (al, A[1])) for u in (("xor", y, I(-1)), ("xor", I(-1), y), ("not", y), mk(plus({1: -1}, lf(y), -1)))]
        c.ob("reserve", any(p.le(x, y) for x, y in fits) or "uadd.with.overflow" in repr(p.s.F), "front-wrap", f, "the request may wrap")
        c.ob("reserve", r is None and rest == p.val(k[0]) or r is not None and r[:2] == ("ext", p.val(k[0])) and z is not None and z[:2] == ("ext", p.val(k[0])), "front-result", f, "what is returned is not what was allocated")
    c.ob("reserve", n > 0, "front-any", f, "")


# -- mapping ------------------------------------------------------------------
def mapped(c, f):
    loops = [l["header"] for l in f.loops]
    slots, some = {}, 0
    for h, p in paths(f):
        mm = p.called("mmap")
        tag = next((b[1] for q, a, b in p.F if q == "eq" and a == A[3] and b[0] == "int"), None)
        # where to map next
        for a, v, i in p.st:
            if v[:2] == ("call", "SystemAllocator::RandomMmapHint"):
                c.ob("map", v[2][:4] == (A[0], A[1], A[2], A[3]), "choose", f, "the place chosen is not for the request")
        if h is None and p.end[0] == "stop":
            na = [a for a, v, i in p.st if v[:2] == ("call", "SystemAllocator::RandomMmapHint")]
            if na:
                slots.setdefault(tag, set()).add(na[0])
            else:
                cur = next((a for q, a, b in p.F if q == "ne" and b == I(0) and a[0] == "load" and "next_" in repr(a)), None)
                ends = [a for q, a, b in p.F if q == "eq" and (b == A[3] or b[0] == "int" and b[1] == tag) and "lshr" in repr(a)]
                c.ob("map", cur is not None and sum(1 for e in ends if has(e, cur) and not has(e, A[1])) == 1 and sum(1 for e in ends if has(e, cur) and has(e, A[1])) == 1,
                     "stay", f, "the next place may lie outside the tag's addresses")
                c.ob("map", cur is not None and any(q == "eq" and b == I(0) and a[0] == "and" and cur in a and mk(plus(lf(A[2]), {1: -1})) in a for q, a, b in p.F), "stay-aligned", f, "the next place may not be aligned")
                if cur:
                    slots.setdefault(tag, set()).add(cur[1])
        if not mm:
            if p.end[0] == "ret":
                c.ob("map", p.N(p.end[1]) == I(0) or "munlock" in repr([i.cshort for i in p.calls]) or h in loops[1:] and h is not None, "none", f, "an address is returned that was never mapped")
            continue
        some += 1
        m = mm[0]
        a, r = p.args(m), p.val(m)
        na = a[0][1] if a[0][0] == "load" else None
        c.ob("map", len(mm) == 1 and na is not None and a[1] == A[1] and a[2] == I(0) and a[4] == I(-1) and flags(a[3]), "mmap", f, "the mapping is not the one asked for")
        same = next((q == "eq" for q, x, y in p.F if q in ("eq", "ne") and r in (x, y) and a[0] in (x, y)), None)
        un = p.called("munmap")
        if p.end[0] == "ret":
            v = p.N(p.end[1])
            if v == I(0):
                c.ob("map", same is False and any(q == "eq" and r in (x, y) and I(-1) in (x, y) for q, x, y in p.F), "give-up", f, "a mapping is left behind")
                continue
            c.ob("map", same is True and v in (r, a[0]), "got", f, "an address is returned that was not mapped, or lies elsewhere")
            e = p.last.get(na)
            c.ob("map", e is not None and plus(plus(lf(e), lf(a[0]), -1), lf(A[1]), -1) == {}, "next", f, "the next place overlaps what was mapped")
            c.ob("map", not un and any(q in ("ult", "ule") and y[0] == "int" and y[1] <= (1 << 48) + 1 for q, x, y in p.F), "in-space", f, "an address beyond the address space is used")
        elif p.end[0] == "turn" and p.end[1] == h and same is not True:
            c.ob("map", same is False, "again", f, "what was mapped is mapped again")
            flag = next((z for z in sub(a[3]) if z[0] == "call"), None)
            failed = any(q == "eq" and r in (x, y) and I(-1) in (x, y) for q, x, y in p.F)
            c.ob("map", failed or len(un) == 1 and p.args(un[0])[:2] == [r, A[1]], "unmap", f, "a mapping at another place is not given back whole")
            v = p.last.get(na)
            c.ob("map", v is not None and v[:2] == ("call", "SystemAllocator::RandomMmapHint"), "elsewhere", f, "the same place is tried for ever")
    c.ob("map", some > 0, "any", f, "nothing is mapped")
    for t, x in slots.items():
        c.ob("map", len(x) == 1 and not any(x & y for u, y in slots.items() if u != t), "own-place-%s" % t, f, "two tags share their next place")
    c.ob("map", len(slots) >= 4, "tags", f, "tags without a place")


def has(t, x):
    return any(y == x for y in sub(t)) or t[0] == "lin" and any(k == x for k, v in t[1])


def flags(t):
    """private, anonymous, never replacing a mapping"""
    if t[0] == "or":
        k = [x for x in t[1:] if x[0] == "int"]
        o = [x for x in t[1:] if x[0] != "int"]
        return len(k) == 1 and k[0][1] & 0x22 == 0x22 and not k[0][1] & 0x11 and all(x[:2] == ("call", "system_allocator_internal::MapFixedNoReplaceFlagAvailable") for x in o)
    return False


def hint(c, f):
    some = 0
    for h, p in paths(f):
        if p.end[0] != "ret":
            continue
        v = p.N(p.end[1])
        some += 1
        parts = v[1:] if v[0] == "or" else [mk({k: w}) if k != 1 else I(w) for k, w in v[1]] if v[0] == "lin" else []
        tag = [x for x in parts if x == ("lin", ((A[3], 1 << TAGS),)) or x == ("shl", A[3], I(TAGS))]
        rest = [x for x in parts if x not in tag]
        c.ob("hint", len(tag) == 1 and len(rest) == 1, "tag", f, "the place does not carry the tag")
        if len(rest) != 1:
            continue
        fac = factors(rest[0])
        c.ob("hint", any(x[0] == "int" and not x[1] & TAGMASK and 0 <= x[1] < 1 << 48 for x in fac), "bits", f, "the place may carry another tag's bits or lie beyond the address space")
        al = [x for x in fac if x[0] in ("shl", "phi", "lin", "sub", "xor") or x[0] == "select"]
        c.ob("hint", any(x[0] == "shl" and x[1] == I(-1) or x[0] in ("phi", "lin", "xor", "select") for x in al), "aligned", f, "the place is not aligned")
        c.ob("hint", p.is0(v) is False, "zero", f, "the place chosen may be zero")
        rn = next((a[2] for a in p.last if a[0] == "fld" and a[2] == "rnd_"), None)
        nr = p.called("NextRandom")
        c.ob("hint", rn is not None and len(nr) == 1 and p.last[next(a for a in p.last if a[0] == "fld" and a[2] == "rnd_")] == p.val(nr[0]) and any(x == p.val(nr[0]) for x in fac), "random", f, "the same place is chosen again and again")
    big = any(set(t[1:]) == {A[1], A[2]} for h, p in paths(f) for i in p.calls for x in p.args(i) for t in sub(x) if t[0] in ("umax", "select")) or \
        any(t[0] == "umax" and set(t[1:]) == {A[1], A[2]} for h, p in paths(f) for t in _terms(p))
    c.ob("hint", big, "room", f, "a mapping may begin in the tag's addresses and end outside them")
    c.ob("hint", some > 0, "any", f, "")


def factors(t):
    if t[0] == "and":
        return factors(t[1]) + factors(t[2])
    return [t]


# -- giving back --------------------------------------------------------------
def pagewise(t):
    """(base, up) if t is a base rounded up (or down) to a page"""
    if t[0] != "and":
        return None
    ps = [x for x in sub(t) if x[0] == "call" and x[1].endswith("GetPageSize")]
    if not ps:
        return None
    g = ps[0]
    for m, x in ((t[1], t[2]), (t[2], t[1])):
        if lf(m) == {g: -1} or m == ("not", mk({g: 1, 1: -1})) or m == ("xor", mk({g: 1, 1: -1}), I(-1)):
            d = lf(x)
            if d.get(g) == 1 and d.get(1, 0) == -1:
                return mk(plus(d, {g: 1, 1: -1}, -1)), True
            if g not in d:
                return x, False
    return None


def release(c, f):
    some = {0: 0, 1: 0}
    for h, p in paths(f):
        rp, ml = p.called("ReleasePages"), p.called("munlock")
        rng = None
        for i in rp + ml:
            a = p.args(i)
            a = a[1:3] if i in rp else a[:2]
            lo, n = pagewise(a[0]), plus(lf(a[1]), lf(a[0]))
            hi = pagewise(mk(n)) if n else None
            c.ob("release", lo == (A[1], True) and hi == (mk(plus(lf(A[1]), lf(A[2]))), False), "inside", f, "more than the whole pages of the range is released")
            rng = (a[0], mk(n))
        first = h is None
        if rp and first:
            c.ob("release", p.le(rng[0], rng[1], strict=True), "none", f, "a range without a whole page is released")
        if p.end[0] != "ret":
            c.ob("release", p.end[0] != "turn" or p.end[1] != h or any(q == "eq" and I(11) in (x, y) for q, x, y in p.F), "retry", f, "the retry does not depend on the system asking for it")
            continue
        v = p.N(p.end[1])
        ok = bit(v)
        if ok is None:
            c.ob("release", False, "shape", f, "")
            continue
        some[ok] += 1
        good = [i for i in rp if p.is0(p.val(i)) is True]
        err = [x for i, x in p.rmw if any(y[0] == "fld" and y[2] == "release_errors_" for y in sub(x[0]))]
        if ok:
            c.ob("release", good and good[-1] is rp[-1], "truth", f, "a release that failed is reported as done")
            c.ob("release", not err, "errors-none", f, "a release that worked counts as an error")
        else:
            c.ob("release", not good, "lie", f, "a release that worked is reported as failed")
            empty = first and not rp
            c.ob("release", len(err) == (0 if empty else 1), "errors", f, "a failed release is not counted")
            if empty:
                c.ob("release", any(q in ("ule", "ult") and pagewise(x) == (mk(plus(lf(A[1]), lf(A[2]))), False) and pagewise(y) == (A[1], True) for q, x, y in p.F), "empty", f, "a range with whole pages is not released")
    c.ob("release", some[0] and some[1], "both", f, "every release has the same result")


def bit(v):
    """the low bit of the result: whether it worked"""
    if v[0] == "insv":
        t, r = v, None
        while t[0] == "insv":
            k = t[3][0][1] if isinstance(t[3][0], tuple) else t[3][1] if t[3][0] == "int" else t[3][0]
            if k == 0:
                return t[2][1] & 1 if t[2][0] == "int" else None
            t = t[1]
        return None
    if v[0] == "or":
        k = [x[1] for x in v[1:] if x[0] == "int"]
        o = [x for x in v[1:] if x[0] != "int"]
        if len(k) == 1 and all(even(x) for x in o):
            return k[0] & 1
        return None
    if v[0] == "int":
        return v[1] & 1
    if even(v):
        return 0
    if v[0] == "lin" and all(w % (1 << 32) == 0 for k, w in v[1] if k != 1):
        return dict(v[1]).get(1, 0) & 1
    return None


def even(x):
    return x[0] == "lin" and all(w % (1 << 32) == 0 for k, w in x[1]) or x[0] == "shl" and x[2] == I(32)


def pages(c, f):
    ok = some = 0
    for h, p in paths(f):
        md = p.called("madvise")
        for i in md:
            a = p.args(i)
            c.ob("release", a[:2] == [A[1], A[2]] and (a[2] in (I(9), I(8), I(4), I(24)) or a[2][:2] == ("call", "system_allocator_internal::MadvDontNeedAdviceAvailable")), "advice", f, "the advice is not on the range, or not to release it")
        if h is None and (md or p.end[0] == "stop"):
            g = ("call", "GetPageSize")
            low = [a for q, a, b in p.F if q == "eq" and b == I(0) and a[0] == "and" and "GetPageSize" in repr(a)]
            c.ob("release", any(A[1] in a and not has(a, A[2]) for a in low) and any(has(a, A[2]) for a in low), "whole", f, "parts of pages are released")
        for i in md:
            a = p.args(i)[2]
        pref = [x for x in p.F if "madvise_" in repr(x)]
        if p.end[0] == "turn":
            c.ob("release", any(q == "eq" and I(11) in (x, y) for q, x, y in p.F) and any(q == "eq" and I(-1) in (x, y) for q, x, y in p.F), "retry-pages", f, "a release is repeated although the system did not ask for it")
            continue
        if p.end[0] != "ret":
            continue
        v = p.N(p.end[1])
        last = p.val(md[-1]) if md else None
        if v[0] == "select" and v[1][0] == "cmp":
            q, x, y = v[1][1], p.N(v[1][2]), p.N(v[1][3])
            if y != I(0):
                x, y = y, x
            yes, no = (v[2], v[3]) if q == "eq" else (v[3], v[2])
            some += 1
            ok += 1
            c.ob("release", q in ("eq", "ne") and y == I(0) and x == last and yes == I(0) and no in (I(1), I(2)), "result", f, "the result is not that of the last advice")
            fail = no
        else:
            some += 1
            w = next((q == "eq" for q, a, b in p.F if q in ("eq", "ne") and last in (a, b) and I(0) in (a, b)), None) if last else None
            if last and w is None and any(q == "eq" and last in (a, b) and I(-1) in (a, b) for q, a, b in p.F):
                w = False
            if v == I(0):
                ok += 1
                c.ob("release", w is True, "success", f, "success is reported although the last advice failed")
                fail = None
            else:
                c.ob("release", v in (I(1), I(2)) and w is not True, "failure", f, "failure is reported although the pages were released")
                fail = v
        if fail == I(2):
            c.ob("release", any(q == "eq" and I(4) in (x, y) and "MadvDontNeed" in repr((x, y)) for q, x, y in p.F), "unlock", f, "a retry is asked for where it cannot help")
    c.ob("release", ok and some > ok - 1, "any", f, "no release ever works")


def collapse(c, f):
    n = 0
    for h, p in paths(f):
        md = p.called("madvise")
        for i in md:
            c.ob("release", p.args(i)[:3] == [A[1], A[2], I(25)], "collapse", f, "something other than the range is collapsed")
        if p.end[0] == "ret" and md:
            n += 1
            v = p.N(p.end[1])
            last = p.val(md[-1])
            ok = bit(v)
            if ok is None:
                x = [y for y in sub(v) if y[0] == "cmp" and last in (p.N(y[2]), p.N(y[3])) and I(0) in (p.N(y[2]), p.N(y[3]))]
                c.ob("release", len(x) >= 1 and all(y[1] == "eq" for y in x), "collapse-truth", f, "the result is not what the system reported")
            else:
                w = next((q == "eq" for q, a, b in p.F if q in ("eq", "ne") and last in (a, b) and I(0) in (a, b)), None)
                if w is None and any(q == "eq" and last in (a, b) and I(-1) in (a, b) for q, a, b in p.F):
                    w = False
                c.ob("release", w == bool(ok), "collapse-truth", f, "the result is not what the system reported")
        elif p.end[0] == "turn":
            ph = [(k, v) for k, v in p.end[2].items()]
            c.ob("release", any(q in ("ult", "ule", "ne", "slt") and b[0] == "int" and b[1] <= 16 and ("phi" in repr(a) or a[0] == "phi") for q, a, b in p.F), "collapse-end", f, "collapsing is retried for ever")
    c.ob("release", n > 0, "collapse-any", f, "")
