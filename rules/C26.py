"""The public extension interface works with and without the allocator linked in."""
import subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
from tcm import *
from lib import _
import build

EXT = "tcmalloc/malloc_extension.cc"
TRC = "tcmalloc/malloc_tracing_extension.cc"
# units that programs link without the allocator
ALONE = (EXT, TRC, "tcmalloc/internal/logging.cc", "tcmalloc/internal/page_allocation_status.cc")
DIS = next((x for x in ("llvm-dis-18", "llvm-dis", "/usr/lib/llvm-18/bin/llvm-dis") if shutil.which(x)), "llvm-dis")
A = ["^absl::", "^std::.*(string|map|unique_ptr)", "Profile::Profile", "AllocationProfilingToken::AllocationProfilingToken", "^operator ", "^free$", "^nallocx"]
# answer without an allocator, where it is a plain value
DEF = {"GetMemoryLimit": 0, "GetProfileSamplingInterval": -1, "GetGuardedSamplingInterval": -1, "PerCpuCachesActive": 0,
       "GetMaxPerCpuCacheSize": -1, "GetMaxTotalThreadCacheBytes": -1, "GetBackgroundProcessActionsEnabled": 0,
       "GetOwnership": 0, "ReleaseCpuMemory": 0, "GetBackgroundReleaseRate": 0, "GetRegionFactory": None, "NeedsProcessBackgroundActions": 0}
SYM = {"PerCpuCachesActive": ["GetPerCpuCachesActive"], "GetProperties": ["GetProperties", "GetExperiments"], "NeedsProcessBackgroundActions": []}
NOWEAK = ("GetEstimatedAllocatedSize",)
# results handed back through a pointer the wrapper supplies
OUT = ("GetStats", "GetNumericProperty", "GetProperties", "GetBackgroundProcessSleepInterval", "GetSkipSubreleaseShortInterval", "GetSkipSubreleaseLongInterval")
OPT = ("GetNumericProperty", "GetAllocatedSize")


def run(c):
    c.rule("guard", "a function the allocator may not provide is called only where its address has been tested")
    c.rule("default", "without the allocator each call answers with its documented default and calls nothing")
    c.rule("forward", "with the allocator each call reaches its own implementation once, with its own arguments and result")
    c.rule("fallback", "the replaceable operators default to the plain allocation functions with the same arguments")
    guard(c)
    forward(c)
    fallback(c)


def ir(tu):
    t = subprocess.run([DIS, build.tu_bc(tu, "release"), "-o", "-"], capture_output=True, text=True).stdout
    weak = set(re.findall(r'^declare [^\n]*?extern_weak [^\n]*?@"?([\w.$]+)"?\(', t, re.M))
    defs, calls, link, cur = set(), [], {}, None
    for l in t.splitlines():
        if l.startswith("define "):
            cur = re.search(r'@"?([\w.$]+)"?\(', l).group(1)
            link[cur] = l.split("@")[0]
            defs.add(cur)
        m = re.search(r'\b(?:call|invoke)\b.*? @"?([\w.$]+)"?\(', l)
        if m:
            calls.append((cur, m.group(1)))
    al = set(re.findall(r'^@"?([\w.$]+)"? = [^\n]*alias ', t, re.M))
    return tu, weak, defs | al, calls, link


def rx(mangled):
    """root expression for a mangled name"""
    d = subprocess.run(["c++filt", "-p", mangled], capture_output=True, text=True).stdout.strip()
    return r"(^|[ :])" + re.escape(d) + r"(\(|$|<)", d


def nonnull(S, sym):
    for x in S:
        y = x[1] if x[0] == "not" else x
        if y[0] == "x" and re.search(r"@%s\b" % re.escape(sym), str(y[1])):
            ne = "icmp ne" in str(y[1])
            if "null" in str(y[1]) and "icmp" in str(y[1]):
                return ne != (x[0] == "not")
        if y[0] == "cmp" and ("null",) in y[2:] and any(z[0] in ("g", "fn", "f") and z[-1] == sym for z in y[2:]):
            return (y[1] == "ne") != (x[0] == "not")
    return None


def weaksym(i, weak):
    """mangled name of the weak function this call reaches"""
    m = i.d["callee"][-1] if isinstance(i.d.get("callee"), list) else None
    for s in weak:
        if m == s or i.callee == s or i.cshort == rx(s)[1]:
            return s
    return None


def guard(c):
    bc, m = build.module("release")
    units = [u for u in m["units"] if not u.startswith("/") and not re.search("absl", u)]
    with ThreadPoolExecutor(8) as e:
        info = list(e.map(ir, units))
    have = set().union(*[d for t, w, d, k, l in info])
    n = 0
    for tu, weak, defs, calls, link in info:
        # what the same link always provides needs no test
        need = {s for s in weak if tu in ALONE or s not in have}
        rev = {}
        for a, b in calls:
            rev.setdefault(b, set()).add(a)
        for s in sorted(need):
            todo, seen, roots = list(rev.get(s, ())), set(), set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if re.search(r"\b(internal|private)\b", link[x]) and rev.get(x, set()) - {x}:
                    todo += rev[x]
                else:
                    roots.add(x)
            if not roots:
                continue
            hit = 0
            for f in c.fns([rx(r)[0] for r in sorted(roots)], [a for a in A if not a.startswith("^std::")] + ["SpinLock", "GetStackTrace", "LowLevelAlloc"], tu=tu):
                f.crash = set()     # what runs on the way to a crash counts as well
                cs = [i for i in f.all("call") if i.cshort == short(rx(s)[1]) or i.callee == s or i.cshort == s]
                if not cs:
                    continue
                hit += 1
                P = PF(f, K=48)
                for i in cs:
                    ss = P.at(i)
                    ok = bool(ss) and all(nonnull(S, s) for S in ss)
                    n += 1
                    c.ob("guard", ok, "%s-%s" % (s, short(f.name)), i, "%s may be missing and is called without a test" % s)
            c.need(hit, "callers of %s in %s" % (s, tu))
    c.need(n >= 30, "only %d guarded weak calls" % n)


def forward(c):
    fs = c.fns([r"^tcmalloc::MallocExtension::[A-Z]\w*\("], A, tu=EXT, floor=25)
    fs += c.fns([r"malloc_tracing_extension::GetAllocatedAddressRanges\("], A, tu=TRC)
    for f in fs:
        x = short(f.name).split("::")[-1]
        if x in NOWEAK:
            for t, S in PF(f).rets():
                c.ob("forward", t[0] == "call" and t[1].startswith("nallocx") and ("arg", 0) in set(subterms(t)), "estimate", f, "the estimate is not nallocx'")
            continue
        trace = "tracing" in f.name
        pre = ("MallocTracingExtension" if trace else "MallocExtension") + "_Internal_"
        want = [pre + y for y in SYM.get(x, [x])]
        allc = [i for i in f.live("call") if not i.cshort.startswith("llvm.") and i.b not in f.crash]
        ours = [i for i in allc if re.match(r"Malloc(Tracing)?Extension_Internal_", i.cshort)]
        for w in want:
            c.expect(any(i.cshort.startswith(w) for i in ours), "forward", x, f, "never reaches its implementation", w, EXT)
        P = PF(f, K=48, events=lambda i: i.cshort.split("(")[0] if i in ours else "other" if i in allc else None)
        sret = x in ("GetStats", "SnapshotCurrent", "StartAllocationProfiling", "StartLifetimeProfiling", "StartEventTracing", "GetProperties") or trace
        np = nparams(f)
        for i in ours:
            nm = i.cshort.split("(")[0]
            if nm not in want:
                c.ob("forward", nm == "MallocExtension_Internal_ProcessBackgroundActions" and x == "ProcessBackgroundActions", "own-%s" % x, i, "reaches %s" % nm)
                continue
            a = args(f, i)
            if trace:
                c.ob("forward", a == [("arg", 0)], "args-%s" % x, i, "the result is not handed back")
                continue
            if x in OUT:
                c.ob("forward", bool(a) and (a[-1][0] == "alloca" or a[-1] == ("arg", 0)), "out-%s" % x, i, "the result is taken elsewhere")
                a = a[:-1]
            if x == "GetNumericProperty":
                ok = len(a) == 2 and (a == [("arg", 0), ("arg", 1)] or a[0][0] == "call" and a[0][1].endswith("data") and a[1][0] == "call" and a[1][1].endswith("size") and a[0][2][:1] == a[1][2][:1])
                c.ob("forward", ok, "args-%s" % x, i, "asks for another property")
                continue
            exp = [("arg", k) for k in range(1 if sret else 0, np)]
            if x == "SetMemoryLimit":
                ok = len(a) == 2 and a[1] == ("arg", 1)
                for S in P.at(i):
                    for v, G in cases(f, a[0], S):
                        z = entails(G, cmp("eq", ("arg", 0), I(0)))
                        ok = ok and (v == ("arg", 0) and entails(G, cmp("ne", ("arg", 0), I(0))) or z and v in (I(-1), ("c", -1), ("c", 2**64 - 1)))
                c.ob("forward", ok, "args-%s" % x, i, "hands on another limit")
                continue
            c.ob("forward", a == exp, "args-%s" % x, i, "hands on other arguments: %s" % [show(y) for y in a])
        for t, S in P.rets():
            st = [nonnull(S, w if not trace else "_Z57" + w + "v") for w in want]
            if x == "NeedsProcessBackgroundActions":
                c.ob("forward", "MallocExtension_Internal_ProcessBackgroundActions" in str(t) and "icmp ne" in str(t) or
                     t in (I(0), I(1)) and (t == I(1)) == bool(nonnull(S, pre + "ProcessBackgroundActions")), "ret-%s" % x, f, "does not say whether background work is provided")
                continue
            for w, g in zip(want, st):
                n = P.count(S, w)
                n = n if isinstance(n, int) else max(n) if n else 0
                if g is None:
                    c.ob("forward", False, "decided-%s" % x, f, "returns without deciding whether %s is provided" % w)
                else:
                    c.ob("forward" if g else "default", n == (1 if g else 0), "count-%s" % x, f, "%s is called %s times" % (w, n))
            if any(st):
                if len(want) > 1 or x in OUT and x not in OPT or trace or sret or t is None:
                    if x in OUT and not sret and t is not None:
                        o = [args(f, i)[-1] for i in ours]
                        # an aggregate put together from the out parameter
                        parts_ = set(subterms(t))
                        c.ob("forward", any(("load", z) == y[:2] for y in parts_ for z in o) or t[0] == "load", "ret-%s" % x, f, "does not return the result")
                    continue
                i = ours[0]
                if x in OPT:
                    fl, v = optional(P, S, t)
                    if x == "GetNumericProperty":
                        r = f.term(i)
                        if r in S or any(entails(S, cmp("ne", r, k)) for k in (I(0),)):
                            c.ob("forward", fl == I(1) and v is not None and v[0] == "load" and v[1] == args(f, i)[-1], "ret-%s" % x, f, "the property's value is not returned")
                        else:
                            c.ob("forward", fl == I(0), "unknown-%s" % x, f, "a value is returned for an unknown property")
                    else:
                        c.ob("forward", fl == I(1) and v == f.term(i), "ret-%s" % x, f, "the size is not returned")
                    continue
                c.ob("forward", same(P, S, t, f.term(i)), "ret-%s" % x, f, "does not return the result: %s" % show(t)[:60])
            elif all(g is False for g in st):
                if x in DEF:
                    t2 = t
                    c.ob("default", same(P, S, t2, I(DEF[x]) if DEF[x] is not None else ("null",)), "value-%s" % x, f, "the default is %s" % show(t)[:60])
                if x in OPT:
                    c.ob("default", optional(P, S, t)[0] == I(0), "none-%s" % x, f, "a value is returned")
        # what a missing implementation may call: constructors of the default
        for i in allc:
            if i in ours:
                continue
            for S in P.at(i):
                if want and all(nonnull(S, w if not trace else "_Z57" + w + "v") is False for w in want):
                    c.ob("default", bool(re.search(r"^absl::(ZeroDuration|Unimplemented|Status|Duration|string_view|flat_hash_map|node_hash_map|container_internal)|^std::|Profile::Profile|Token::AllocationProfilingToken|^absl::.*(PropertyMap|map)", i.cshort)),
                         "calls-%s" % x, i, "the default calls %s" % i.cshort)
        if x.startswith("Get") and x.endswith("Interval") and x in OUT:
            z = [i for i in allc if i.cshort == "absl::ZeroDuration"]
            bad = [S for t, S in P.rets() if st and nonnull(S, want[0]) is False and not P.count(S, "other")]
            c.ob("default", not bad and (bool(z) or not z and zero_ret(f, P, want[0])), "value-%s" % x, f, "the default is not the zero duration")


def zero_ret(f, P, w):
    return all(all(y[0] != "call" for y in subterms(t)) for t, S in P.rets() if nonnull(S, w) is False)


def nparams(f):
    n = f.d.get("nargs") if hasattr(f, "d") else None
    if isinstance(n, int):
        return n
    m = re.search(r"\(([^()]*)\)(?: const)?$", f.name)
    s = m.group(1).strip() if m else ""
    k = 0 if not s or s == "void" else s.count(",") + 1
    if re.search("string_view", s):
        k += 1
    if "Duration" in s:
        k += 1
    return k + (1 if re.search(r"::(GetStats|SnapshotCurrent|Start\w+|GetProperties)\(", f.name) else 0)


def same(P, S, t, v):
    """the path returns v"""
    if t == v or P.resolve(S, t) == v:
        return True
    if t is None:
        return False
    t, v = strip(t), strip(v)
    return t == v or entails(S, cmp("eq", t, v)) or entails(S, Fn.mkcmp("eq", t, v))


def optional(P, S, t):
    """(engaged flag, value) of a returned optional"""
    d = {}
    while t is not None and t[0] == "insv":
        k = t[3][0] if isinstance(t[3], tuple) and t[3] else t[3]
        d.setdefault(k, t[2])
        t = t[1]
    out = []
    for k in (1, 0):
        v = d.get(k)
        if v is not None:
            r = P.resolve(S, v)
            if v[0] == "phi":
                for x in S:
                    if x[0] == "cmp" and x[1] == "eq" and v in x[2:]:
                        r = x[2] if x[3] == v else x[3]
                        if r[0] == "c":
                            break
            v = r
            if v[0] == "c":
                v = I(v[1])
        out.append(v)
    return out[0], out[1]


FB = {  # function -> (callee, arguments, how the result is used)
    "sdallocx": ("free", 1), "free_sized": ("free", 1), "free_aligned_sized": ("free", 1)}


def fallback(c):
    f = c.fn(r"^nallocx(\(|$)", A, tu=EXT)
    for t, S in PF(f).rets():
        c.ob("fallback", t == ("arg", 0), "nallocx", f, "does not return the size")
    for n in FB:
        f = c.fn("^%s(\\(|$)" % n, A, tu=EXT)
        cs = [i for i in f.live("call") if not i.cshort.startswith("llvm.")]
        P = PF(f, events=lambda i: "f" if i in cs else None)
        c.ob("fallback", len(cs) == 1 and cs[0].cshort == "free" and args(f, cs[0]) == [("arg", 0)] and all(P.count(S, "f") in (1, (1, 1)) for t, S in P.rets()), n, f, "does not free the block once")
    k = 0
    for f in c.fns([r"^__size_returning_new", r"^tcmalloc_size_returning_operator_new"], A, tu=EXT, floor=4):
        nt = "nothrow" in f.name
        k += 1
        cs = [i for i in f.live("call") if not i.cshort.startswith("llvm.")]
        ok = len(cs) == 1 and re.match(r"operator new$", cs[0].cshort) and args(f, cs[0])[:1] == [("arg", 0)] and (len(args(f, cs[0])) == 2) == nt
        c.ob("fallback", ok, "new-" + short(f.name), f, "does not allocate the requested size once")
        if not ok:
            continue
        p = f.term(cs[0])
        P = PF(f)
        for t, S in P.rets():
            sz, v = optional(P, S, t)
            c.ob("fallback", v == p, "block-" + short(f.name), f, "returns another block")
            good = sz is not None
            for s, G in cases(f, sz, S) if good else ():
                s = strip(s)
                if nt:
                    good = good and (s == ("arg", 0) and entails(G, cmp("ne", p, ("null",))) or s in (I(0),) and entails(G, cmp("eq", p, ("null",))))
                else:
                    good = good and s == ("arg", 0)
            c.ob("fallback", good, "size-" + short(f.name), f, "reports another size")
    m = 0
    for f in c.fns([r"^operator new(\[\])?\(.*hot_cold_t"], A, tu=EXT, floor=6):
        cs = [i for i in f.live("call") if not i.cshort.startswith("llvm.")]
        arr = "[]" in f.name.split("(")[0]
        n = f.name.count(",")
        ok = len(cs) == 1 and cs[0].cshort.startswith("operator new") and ("[]" in cs[0].cshort) == arr
        if ok:
            a = args(f, cs[0])
            ok = len(a) == n and a[0] == ("arg", 0) and all(x == ("arg", j) or "nothrow" in str(x) for j, x in enumerate(a)) and \
                all(t == f.term(cs[0]) for t, S in PF(f).rets())
        c.ob("fallback", ok, "hotcold-" + f.name.replace(" ", "")[:80], f, "does not forward to the plain operator")
