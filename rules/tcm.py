"""Shared vocabulary for the allocation entry points (tcmalloc.cc)."""
import re
from lib import *
from lib import _

TU = "tcmalloc/tcmalloc.cc"
ANCH = ["fast_alloc<", "::do_free<", "::do_free_with_size<", "slow_alloc_(small|large)<", "alloc_small_sampled",
        "do_realloc", "::handle_oom", "fast_free_with", "InvokeHooksAndFreePages", "handle_sampled_or",
        "do_unsized_free", "FreeSmall", "FreeWithHooks", "GetSize", "GetPageSize", "Report(Corrupted|Double|Mismatched)",
        "::InvokeNewHook", "::InvokeDeleteHook", "do_malloc_pages<", "PageAllocator::(New|NewAligned|Delete)",
        "Sample(Small|Large)Allocation", "::AllocateSlow", "::AllocateFast", "::DeallocateSlow", "::DeallocateFast",
        "ThreadCache::", "UsePerCpuCache", "HaveHooks", "Sampler::", "::to_pointer", "::as_pointer", "SizeMap::",
        "GuardedPageAllocator::", "MaybeUnsample", "PageMap::", "::InsertRange", "Span::(Delete|New)", "SlowInitIfNecessary",
        "Parameters::", "CrashWithOOM", "nallocx", "^absl::", r"SpinLock::(Lock|Unlock|lock|unlock)"]

# entry point -> (kind of size, argument of size, argument of alignment or None, out-of-memory policy)
ALLOC = {
    "TCMallocInternalMalloc": (0, None, "Malloc"),
    "TCMallocInternalNew": (0, None, "Cpp"),
    "TCMallocInternalNewNothrow": (0, None, "Null"),
    "TCMallocInternalNewAligned": (0, 1, "Cpp"),
    "TCMallocInternalNewAlignedNothrow": (0, 1, "Null"),
    "TCMallocInternalNewHotCold": (0, None, "Cpp"),
    "TCMallocInternalNewAlignedHotCold": (0, 1, "Cpp"),
    "TCMallocInternalNewHotColdNothrow": (0, None, "Null"),
    "TCMallocInternalNewAlignedHotColdNothrow": (0, 1, "Null"),
    "TCMallocInternalSizeReturningNew": (0, None, "Cpp"),
    "TCMallocInternalSizeReturningNewAligned": (0, 1, "Cpp"),
    "__size_returning_new_hot_cold": (0, None, "Cpp"),
    "__size_returning_new_aligned_hot_cold": (0, 1, "Cpp"),
    "tcmalloc_size_returning_operator_new_nothrow": (0, None, "Null"),
    "tcmalloc_size_returning_operator_new_aligned_nothrow": (0, 1, "Null"),
    "tcmalloc_size_returning_operator_new_hot_cold_nothrow": (0, None, "Null"),
    "tcmalloc_size_returning_operator_new_aligned_hot_cold_nothrow": (0, 1, "Null"),
    "TCMallocInternalMemalign": (1, 0, "Malloc"),
    "TCMallocInternalAlignedAlloc": (1, 0, "Malloc"),
    "TCMallocInternalAlignedAllocAtLeast": (1, 0, "Malloc"),
    "TCMallocInternalAllocAtLeast": (0, None, "Malloc"),
    "TCMallocInternalPosixMemalign": (2, 1, "Malloc"),
    "TCMallocInternalValloc": (0, "page", "Malloc"),
    "TCMallocInternalPvalloc": ("round", "page", "Malloc"),
    "TCMallocInternalCalloc": ((0, 1), None, "Malloc"),
    "TCMallocInternalRealloc": (1, None, "Malloc"),
    "TCMallocInternalReallocArray": ((1, 2), None, "Malloc"),
}
FREE = {
    "TCMallocInternalFree": (None, None), "TCMallocInternalDelete": (None, None),
    "TCMallocInternalDeleteAligned": (None, 1),
    "TCMallocInternalDeleteSized": (1, None), "TCMallocInternalFreeSized": (1, None),
    "TCMallocInternalDeleteSizedAligned": (1, 2),
    "TCMallocInternalFreeAlignedSized": (2, 1),
    "TCMallocInternalSdallocx": (1, "flags"),
}


_tok = {}
for _i in ("0", "1"):
    _n = "__alloc_token_%s_" % _i
    _tok.update({
        _n + "_Znwm": (0, None, "Cpp"), _n + "_ZnwmRKSt9nothrow_t": (0, None, "Null"),
        _n + "_ZnwmSt11align_val_t": (0, 1, "Cpp"), _n + "_ZnwmSt11align_val_tRKSt9nothrow_t": (0, 1, "Null"),
        _n + "_Znwm12__hot_cold_t": (0, None, "Cpp"), _n + "_ZnwmRKSt9nothrow_t12__hot_cold_t": (0, None, "Null"),
        _n + "_ZnwmSt11align_val_t12__hot_cold_t": (0, 1, "Cpp"),
        _n + "_ZnwmSt11align_val_tRKSt9nothrow_t12__hot_cold_t": (0, 1, "Null"),
        _n + "__size_returning_new": (0, None, "Cpp"), _n + "__size_returning_new_aligned": (0, 1, "Cpp"),
        _n + "__size_returning_new_hot_cold": (0, None, "Cpp"), _n + "__size_returning_new_aligned_hot_cold": (0, 1, "Cpp"),
        _n + "malloc": (0, None, "Malloc"), _n + "realloc": (1, None, "Malloc"),
        _n + "reallocarray": ((1, 2), None, "Malloc"), _n + "calloc": ((0, 1), None, "Malloc"),
        _n + "memalign": (1, 0, "Malloc"), _n + "aligned_alloc": (1, 0, "Malloc"),
        _n + "valloc": (0, "page", "Malloc"), _n + "pvalloc": ("round", "page", "Malloc"),
        _n + "posix_memalign": (2, 1, "Malloc"),
    })
ALLOC.update(_tok)
for _o in ("operator new", "operator new[]"):
    ALLOC.update({
        _o + "(unsigned long, __hot_cold_t)": (0, None, "Cpp"),
        _o + "(unsigned long, std::nothrow_t const&, __hot_cold_t)": (0, None, "Null"),
        _o + "(unsigned long, std::align_val_t, __hot_cold_t)": (0, 1, "Cpp"),
        _o + "(unsigned long, std::align_val_t, std::nothrow_t const&, __hot_cold_t)": (0, 1, "Null"),
    })


def role(n):
    m = n.lower()
    for r in ("reallocarray", "realloc", "calloc", "posixmemalign", "posix_memalign", "alignedallocatleast",
              "alignedalloc", "aligned_alloc", "pvalloc", "valloc", "memalign"):
        if m.endswith(r):
            return r.replace("_", "")
    return "plain"


def entries(c, table):
    rx = ["^" + re.escape(k) + "$" for k in table]
    fs = c.fns(rx, ANCH, tu=TU)
    out = {}
    for f in fs:
        out[f.name if f.name in table else f.sname] = f
    c.need(set(table) <= set(out), "entry points missing: %s" % sorted(set(table) - set(out)))
    return out


def policy(i):
    """(oom, align) policy kind of a templated callee."""
    m = re.search(r"TCMallocPolicy<tcmalloc::tcmalloc_internal::(\w+)OomPolicy, tcmalloc::tcmalloc_internal::(\w+?)(?:Align)?(?:As)?Policy", i.callee)
    n = re.search(r"TCMallocPolicy<[^<>]*?(\w+)OomPolicy, [^<>]*?(\w+)Policy,", i.callee)
    return (n.group(1), n.group(2)) if n else (None, None)


def ov(t):
    """(a, b) when t is an overflow-checked product's value."""
    if t[0] == "ext" and t[1][0] == "ovf" and t[1][1] == "umul" and t[2] == (0,):
        return (t[1][2], t[1][3])
    if t[0] == "mul":
        return (t[1], t[2])
    if t[0] == "ext" and t[1][0] == "ovf" and t[1][1] == "umul":
        return (t[1][2], t[1][3])
    return None


def is_product(t, a, b):
    p = None
    if t[0] == "ext" and len(t) >= 3 and t[1][0] == "ovf" and "umul" in t[1]:
        if str(t[2]).find("0") < 0:
            return False
        p = set(t[1][2:])
    elif t[0] in ("mul", "nlmul"):
        p = set(t[1:])
    elif t[0] == "lin":
        return False
    return p == {a, b}


def flag(t, a, b):
    return t[0] == "ext" and t[1][0] == "ovf" and "umul" in t[1] and set(t[1][2:]) == {a, b} and "1" in str(t[2])


def overflowed(S, a, b):
    """True: a*b overflowed on this path; False: it did not; None unknown."""
    for x in S:
        if flag(x, a, b):
            return True
        if x[0] == "not" and flag(x[1], a, b):
            return False
        if x[0] == "cmp" and x[3] == ("int", 0) and flag(x[2], a, b):
            return x[1] == "ne"
        if x[0] == "cmp" and x[1] == "eq" and x[3] == ("int", 0) and x[2] in (a, b):
            return False
        if x[0] == "cmp":
            for p, l, r in ((x[1], x[2], x[3]), (SWAP.get(x[1]), x[3], x[2])):
                # l = udiv(MAX, a) compared with b
                if l[0] == "udiv" and l[1] == ("int", -1) and {l[2], r} == {a, b}:
                    if p in ("ult",):
                        return True
                    if p in ("uge",):
                        return False
                # l = udiv(a*b, b) compared with a
                if l[0] == "udiv" and is_product(l[1], a, b) and {l[2], r} == {a, b}:
                    if p == "ne":
                        return True
                    if p == "eq":
                        return False
    return None


SWAP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def sites(f, rx):
    return [i for i in f.live("call") if re.search(rx, i.cshort) and i.b not in f.crash]


def pow2_ok(S, a):
    """The facts imply that a is a power of two."""
    nz = entails(S, cmp("ne", a, 0)) or entails(S, cmp("ugt", a, 0)) or entails(S, cmp("uge", a, 1))
    for x in S:
        if x[0] == "cmp" and x[2] == ("ctpop", a):
            if (x[1], x[3]) == ("eq", ("int", 1)):
                return True
            if (x[1], x[3]) in (("ult", ("int", 2)), ("ule", ("int", 1))) and nz:
                return True
    return False


def pow2_bad(S, a):
    """The facts imply that a is not a power of two."""
    if entails(S, cmp("eq", a, 0)):
        return True
    for x in S:
        if x[0] == "cmp" and x[2] == ("ctpop", a) and (x[1], x[3]) in (("ne", ("int", 1)), ("uge", ("int", 2)), ("ugt", ("int", 1)), ("eq", ("int", 0))):
            return True
    return False


def ret_map(f, P):
    """(value, facts) with struct results left as terms."""
    return [(t, S) for t, S in P.rets()]


def page(f):
    """Page-size term(s)."""
    return [f.term(i) for i in f.live("call") if re.search(r"GetPageSize$", i.cshort)]


def structs(f, P, r):
    """[((field0, field1), facts)] of a two-field result at return r."""
    t = f.term(r.ops[0])
    out = []
    for S in P.at(r):
        out += split_struct(f, t, S)
    return out


def split_struct(f, t, S):
    if t[0] == "x" and "zeroinitializer" in str(t):
        return [((("null",), ("int", 0)), S)]
    if t[0] == "phi":
        o = [(v, F) for v, F in cases(f, t, S) if v != t]
        if o:
            return [y for v, F in o for y in split_struct(f, v, F)]
    if t[0] == "insv" and t[1][0] == "insv":
        out = []
        a, b = (t[1][2], t[2]) if t[3] == (1,) else (t[2], t[1][2])
        for x, F in cases(f, a, S):
            for y, G in cases(f, b, F):
                out.append(((x, y), G))
        return out
    return [((("ext", t, (0,)), ("ext", t, (1,))), S)]
