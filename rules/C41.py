"""A runtime setting reads back as it was set, and settings do not interfere."""
from tcm import *
from lib import _

A = ["SlowInit", "RecomputePer", "LowLevelCallOnce", "PageAllocator::set_limit", "^absl::", "SpinLock", "Log", "default_want", "IsExperimentActive", "DumpStats"]
ROOTS = [r"^(MallocExtension|TCMalloc)_Internal_Set\w+(\(|$)",
         r"^(tcmalloc::tcmalloc_internal::)?TCMalloc_Internal_Get(?!Stats|SizeClasses|AllocatedSize|EstimatedAllocatedSize|PageAllocationStatus|PageSize)\w+(\(|$)",
         r"^MallocExtension_Internal_Get(?!Stats|Properties|NumericProperty|Experiments|AllocatedSize|Ownership|EstimatedAllocatedSize|RegionFactory|PerCpuCachesActive)\w+(\(|$)",
         r"tcmalloc_internal::Parameters::\w+\([^()]*\)$"]
SKIP = ("SetRegionFactory", "SetMemoryLimit", "GetMemoryLimit", "SetHeapSizeHardLimit", "GetHeapSizeHardLimit", "heap_size_hard_limit", "set_heap_size_hard_limit", "heap_partitioning_mode")
# disabling these needs a build-time opt-out
OPTOUT = ("percpucaches", "percpucachesdynamicslab")


def key(n):
    """(role, setting) of an accessor"""
    n = short(n).split("::")[-1]
    n = re.sub(r"^(MallocExtension|TCMalloc)_Internal_", "", n)
    if n in SKIP:
        return None
    m = re.match(r"(Set|Get|set_)(.*)", n)
    role = "set" if m and m.group(1) != "Get" else "get"
    k = (m.group(2) if m else n).replace("_", "").lower()
    k = re.sub(r"nobuildrequirement$", "", k)
    k = re.sub(r"enabled$", "", k)
    k = re.sub(r"^(hugepage)?filler", "", k)
    return role, k


def globalrooted(t):
    while True:
        if t[0] in ("glob", "static"):
            return True
        if t[0] == "fld":
            t = t[3]
        elif t[0] == "gep":
            t = t[1]
        elif t[0] == "load":
            t = t[1]
        else:
            return False


def value(t, a):
    """t is the setter's argument, up to width and unit"""
    t = strip(t)
    while t[0] in ("zext", "sext", "trunc", "cast") or t[0] == "and" and I(1) in t[1:]:
        t = strip(next(x for x in t[1:] if isinstance(x, tuple) and x != I(1)))
    if t == ("arg", 0):
        return True
    return t[0] == "call" and t[1].endswith("ToInt64Nanoseconds") and t[2] == (("arg", 0), ("arg", 1))


def loads(t):
    return {y[1] for y in subterms(t) if y[0] == "load" and globalrooted(y[1])}


INIT = re.compile(r"inited_|once|flag$|guard", re.I)


def run(c):
    c.rule("store", "a setter stores its argument in the setting's location on every path")
    c.rule("read", "a getter returns what is stored in the setting's location")
    c.rule("apart", "no two settings share a location, and all accessors of a setting agree on it")
    c.rule("limit", "memory limits are stored per kind, the soft one never above the hard one, 0 as no limit at all, and applied at once")
    c.rule("apply", "the thread-cache total takes effect, bounded below, when it is set")
    loc = {}
    got = 0
    sets = []
    for f in c.fns(ROOTS, A, floor=50):
        kk = key(f.name)
        if not kk:
            continue
        role, k = kk
        nm = short(f.name).split("::")[-1]
        if role == "set":
            P, E = effects(f)
            sets.append(f)
            common = None
            for t, S, e in E:
                L = {a for a, w in e.items() if globalrooted(a) and w.val is not None and value(w.val, 0)}
                if not L:
                    off = k in OPTOUT and (("not", ("arg", 0)) in S or entails(S, cmp("eq", ("arg", 0), 0))) and "NoBuild" not in nm
                    c.ob("store", off, "%s-path" % nm, f, "a path leaves the setting unchanged")
                    continue
                common = L if common is None else common & L
            c.ob("store", bool(common), nm, f, "does not store its argument in one place")
            for a in common or ():
                loc.setdefault(k, {}).setdefault(a, []).append((nm, f))
        else:
            got += 1
            G = reader(f)
            if G is None:
                # a setting computed otherwise has no setter to agree with
                loc.setdefault(k, {}).setdefault(None, []).append((nm, f))
            else:
                c.ob("read", True, nm, f)
                loc.setdefault(k, {}).setdefault(G, []).append((nm, f))
    c.need(got >= 30 and len(sets) >= 30, "accessors: %d get, %d set" % (got, len(sets)))
    owner = {}
    both = 0
    for k, m in sorted(loc.items()):
        al = [x for v in m.values() for x in v]
        n = {key(f.name)[0] for nm, f in al}
        if len(n) == 2:
            both += 1
            for nm, f in m.get(None, ()):
                c.ob("read", False, nm, f, "does not return the stored setting")
            # one location that every accessor of the setting uses
            ok = any(a is not None and {x for x, f in v} >= {x for x, f in al} for a, v in m.items())
            c.ob("apart", ok, k, al[0][1], "accessors disagree: %s" % "; ".join("%s: %s" % (show(a)[:60] if a else "?", ",".join(x for x, f in v)) for a, v in m.items()))
        for a in m:
            if a is None or n == {"set"} and len(m) > 1:
                continue
            o = owner.setdefault(a, k)
            c.ob("apart", o == k, "%s-shared" % k, m[a][0][1], "shares its location with %s" % o)
    c.need(both >= 18, "only %d settings can be read back" % both)
    limits(c)
    apply_(c)


def reader(f):
    """the location a getter returns, if it returns exactly what it holds"""
    P, E = effects(f)
    res = set()
    for t, S, e in E:
        if t is None or t[0] == "insv":
            # a duration, directly or through the out pointer
            vs = [w.val for a, w in e.items()] + ([t] if t is not None else [])
            ns = {y for v in vs for y in subterms(v) if y[0] == "call" and y[1].endswith("Nanoseconds")}
            ns |= {y for i in f.live("call") if i.cshort.endswith("absl::Nanoseconds") for y in [f.term(i)]}
            L = set()
            for y in ns:
                L |= {z for z in loads(y) if not INIT.search(show(z))} if any(isinstance(z, tuple) and strip(z)[0] == "load" for z in y[2]) else set()
            if not (ns and len(L) == 1):
                return None
            # and it is that duration which leaves
            if t is not None and not (ns & set(subterms(t))):
                return None
            if t is None:
                out = {a: w.val for a, w in e.items() if "alloca" != root(a)}
                if not out or not all(ns & set(subterms(v)) for v in out.values()):
                    return None
            res |= L
            continue
        if t[0] == "call" and t[1].endswith("Nanoseconds"):
            L = {z for z in loads(t)}
            if len(L) != 1:
                return None
            res |= L
            continue
        if t in (I(0), I(1), I(-1)):
            hit = set()
            for x in S:
                for y in loads(x):
                    if not INIT.search(show(y)):
                        l = next(z for z in subterms(x) if z[0] == "load" and z[1] == y)
                        pos = positive(S, l)
                        if pos is not None:
                            if pos != (t != I(0)):
                                return None
                            hit.add(y)
            if len(hit) != 1:
                return None
            res |= hit
            continue
        u = t
        while u[0] in ("zext", "sext", "trunc") or u[0] in ("and", "band") and I(1) in u[1:] or u[0] == "cmp" and u[1] == "ne" and u[3] == I(0):
            u = next(x for x in u[1:] if isinstance(x, tuple) and x != I(1) and x != I(0))
        if u[0] != "load" or not globalrooted(u[1]):
            u2 = strip(t)
            L = loads(t)
            if len(L) == 1 and all(y[0] in ("load", "glob", "fld", "gep", "int", "zext", "sext", "trunc", "and", "bin", "cast", "cmp") for y in subterms(t) if y and isinstance(y[0], str)):
                res |= L
                continue
            return None
        res.add(u[1])
    return next(iter(res)) if len(res) == 1 else None


def root(t):
    while t[0] in ("fld", "gep"):
        t = t[3] if t[0] == "fld" else t[1]
    return t[0]


def positive(S, l):
    """whether the flag l is known set (True) or clear (False)"""
    for x in S:
        y, pol = (x[1], False) if x[0] == "not" else (x, True)
        if y == l:
            return pol
        if y[0] == "cmp" and y[1] in ("eq", "ne") and I(0) in y[2:]:
            o = y[2] if y[3] == I(0) else y[3]
            if o == l or o[0] == "and" and set(o[1:]) == {I(1), l} or l in set(subterms(o)) and len(loads(o)) == 1 and o[0] not in ("load",):
                return (y[1] == "ne") == pol
            if o == l:
                return (y[1] == "ne") == pol
    return None


def limits(c):
    f = c.fn(r"PageAllocator::set_limit\(", ["ShrinkToUsageLimit", "^absl::", "SpinLock"])
    slot = lambda a: field_of(a, "limits_")
    P, E = effects(f, more=lambda i: "shrink" if i.op == "call" and i.cshort.endswith("ShrinkToUsageLimit") else None)
    for t, S, e in E:
        ws = [(a, w.val) for a, w in e.items() if slot(a)]
        mine = [a for a, v in ws if v == ("arg", 1) and indexed(a, ("arg", 2))]
        c.ob("limit", len(mine) == 1, "stored", f, "the limit is not stored for its kind")
        hard = [a for a, v in ws if a not in mine]
        # where the soft limit is lowered it becomes the hard one
        lo = [(a, v) for a, v in ws if a not in mine]
        ok = True
        for a, v in lo:
            ok = ok and off(a) == 0
            for x, G in cases(f, v, S):
                for y, H in cases(f, x[1], G) if x[0] == "load" else ():
                    # the hard limit, or the soft one left as it is
                    ok = ok and slot(y) and (off(y) == 8 or off(y) == 0 and any(z[0] == "cmp" and z[1] in ("ule", "ult", "uge", "ugt") and ordered(z, slot) for z in H))
                ok = ok and x[0] == "load"
        c.ob("limit", ok, "lowered", f, "another limit is changed")
        if not lo:
            ok = any(x[0] == "cmp" and x[1] in ("ule", "ult", "uge", "ugt") and ordered(x, slot) for x in S)
            c.ob("limit", ok, "order", f, "the soft limit may stay above the hard one")
        c.ob("limit", ("seen", "shrink") in S or P.count(S, "shrink") not in (0, None, (0, 0)), "applied", f, "the new limit is not applied")
    # user-visible setters
    B = [a for a in A if a != "Log"] + ["Log"]
    for f in c.fns([r"^TCMalloc_Internal_SetHeapSizeHardLimit(\(|$)", r"^MallocExtension_Internal_SetMemoryLimit(\(|$)"], B, floor=2):
        ext = f.name.startswith("Malloc")
        cs = sites(f, r"PageAllocator::set_limit$")
        P = PF(f, K=48, events=lambda i: "L%d" % i.id if i in cs else None)
        for i in cs:
            a = [unspill(f, x) for x in args(f, i)]
            for S in P.at(i):
                h = entails(S, cmp("eq", ("arg", 1), 1))
                for kd, G0 in cases(f, a[2], S):
                    c.ob("limit", (strip(kd) == ("arg", 1) and ext) or strip(kd) == I(1) and (not ext or h) or ext and strip(kd) == I(0) and entails(S, cmp("ne", ("arg", 1), 1)), "kind-" + short(f.name), i, "sets the limit of another kind")
                for v, G in cases(f, a[1], S):
                    v = strip(v)
                    ok = v == ("arg", 0) and (ext or entails(G, cmp("ne", ("arg", 0), 0))) or v in (I(-1), I(2**64 - 1)) and entails(G, cmp("eq", ("arg", 0), 0))
                    c.ob("limit", ok, "value-" + short(f.name), i, "sets another limit: %s" % show(v)[:40])
        for t, S in P.rets():
            c.ob("limit", any(("seen", "L%d" % i.id) in S for i in cs), "always-" + short(f.name), f, "a path sets no limit")
    for f in c.fns([r"^MallocExtension_Internal_GetMemoryLimit(\(|$)", r"^TCMalloc_Internal_GetHeapSizeHardLimit(\(|$)"], A, floor=2):
        for t, S in PF(f).rets():
            ok = t[0] == "load" and slot(t[1]) and (indexed(t[1], ("arg", 0)) if f.name.startswith("Malloc") else off(t[1]) == 8)
            c.ob("limit", ok, "get-" + short(f.name), f, "returns another limit")
    for r, want in ((r"Parameters::set_heap_size_hard_limit\(", "set"), (r"Parameters::heap_size_hard_limit\(", "get")):
        f = c.fn(r, A + ["_Internal_"])
        cs = sites(f, "_Internal_%sHeapSizeHardLimit|PageAllocator::(set_)?limit$" % want.capitalize())
        if want == "set":
            P = PF(f, events=lambda i: "s" if i in cs else None)
            c.ob("limit", bool(cs) and all(P.count(S, "s") not in (0, None) for t, S in P.rets()) and all(("arg", 0) in args(f, i) for i in cs), "parameter-set", f, "the parameter is not passed on")
        else:
            for t, S in PF(f).rets():
                ok = t[0] == "load" and slot(t[1]) and off(t[1]) == 8 or any(t == f.term(i) for i in cs)
                c.ob("limit", ok, "parameter-get", f, "returns another limit")


def field_of(a, name):
    while a[0] in ("gep", "fld"):
        if a[0] == "fld":
            if a[2] == name or name in str(a[1:3]):
                return True
            a = a[3]
        else:
            a = a[1]
    return False


def off(a):
    n = 0
    while a[0] == "gep":
        if a[3]:
            return None
        n += a[2]
        a = a[1]
    return n


def indexed(a, ix):
    """address of element ix (8-byte elements) or of the constant it equals"""
    if a[0] == "gep" and a[2] == 0 and len(a[3]) == 1:
        z = a[3][0]
        return any(isinstance(y, tuple) and strip(y) == ix for y in (z if isinstance(z, tuple) else (z,))) or ix in set(subterms(z))
    return False


def ordered(x, slot):
    a, b = x[2], x[3]
    p = x[1]
    if p in ("ugt", "uge"):
        a, b, p = b, a, {"ugt": "ult", "uge": "ule"}[p]
    return a[0] == "load" and b[0] == "load" and slot(a[1]) and slot(b[1]) and off(a[1]) == 0 and off(b[1]) == 8


def apply_(c):
    f = c.fn(r"^TCMalloc_Internal_SetMaxTotalThreadCacheBytes(\(|$)", A)
    P, E = effects(f, more=lambda i: "re" if i.op == "call" and "RecomputePerThreadCacheSize" in i.cshort else None)
    for t, S, e in E:
        w = [(a, x.val) for a, x in e.items() if "overall_thread_cache_size_" in show(a)]
        c.ob("apply", len(w) == 1, "stored", f, "the thread caches' total is not updated")
        for a, v in w:
            for x, G in cases(f, v, S):
                x = strip(x)
                lo = x[0] == "int" and 0 < x[1] and any(entails(G, cmp(p, ("arg", 0), x[1])) for p in ("sle", "slt", "ule", "ult"))
                hi = x == ("arg", 0) and not entails(G, cmp("sle", ("arg", 0), 0)) and any(y[0] == "cmp" and ("arg", 0) in y[2:] for y in G)
                c.ob("apply", lo or hi, "bounded", f, "another total is applied: %s" % show(x)[:40])
        c.ob("apply", ("seen", "re") in S or P.count(S, "re") not in (0, None), "recomputed", f, "per-thread shares are not recomputed")
