"""Every standard allocation symbol is taken over, by the matching entry point."""
import subprocess, shutil
from tcm import *
from lib import _
import build

TU = "tcmalloc/tcmalloc.cc"
I_ = "TCMallocInternal"
N, NA_, AL = "RKSt9nothrow_t", "St11align_val_t", "12__hot_cold_t"
# symbol -> entry point that must serve it, by the standards' meaning of it
SYM = {
    "malloc": "Malloc", "free": "Free", "calloc": "Calloc", "realloc": "Realloc", "reallocarray": "ReallocArray",
    "memalign": "Memalign", "aligned_alloc": "AlignedAlloc", "posix_memalign": "PosixMemalign", "valloc": "Valloc", "pvalloc": "Pvalloc",
    "free_sized": "FreeSized", "free_aligned_sized": "FreeAlignedSized", "cfree": "Free", "sdallocx": "Sdallocx",
    "malloc_usable_size": "MallocSize", "malloc_size": "MallocSize", "malloc_stats": "MallocStats", "malloc_trim": "MallocTrim",
    "mallopt": "MallOpt", "mallinfo": "MallInfo", "mallinfo2": "MallInfo2", "malloc_info": "MallocInfo",
    "alloc_at_least": "AllocAtLeast", "aligned_alloc_at_least": "AlignedAllocAtLeast",
    "__libc_malloc": "Malloc", "__libc_free": "Free", "__libc_realloc": "Realloc", "__libc_calloc": "Calloc", "__libc_cfree": "Free",
    "__libc_memalign": "Memalign", "__libc_valloc": "Valloc", "__libc_pvalloc": "Pvalloc", "__posix_memalign": "PosixMemalign",
    "__size_returning_new": "SizeReturningNew", "__size_returning_new_aligned": "SizeReturningNewAligned",
}
for _c in "wa":
    SYM.update({"_Zn%sm" % _c: "New", "_Zn%sm%s" % (_c, N): "NewNothrow", "_Zn%sm%s" % (_c, NA_): "NewAligned",
                "_Zn%sm%s%s" % (_c, NA_, N): "NewAlignedNothrow"})
for _c in "la":
    SYM.update({"_Zd%sPv" % _c: "Delete", "_Zd%sPvm" % _c: "DeleteSized", "_Zd%sPv%s" % (_c, N): "Delete",
                "_Zd%sPv%s" % (_c, NA_): "DeleteAligned", "_Zd%sPv%s%s" % (_c, NA_, N): "DeleteAligned",
                "_Zd%sPvm%s" % (_c, NA_): "DeleteSizedAligned"})
SYM = {k: I_ + v for k, v in SYM.items()}
# array and alternative names of entry points
ARR = {"Cfree": "Free", "DeleteArraySized": "DeleteSized", "DeleteArraySizedAligned": "DeleteSizedAligned", "DeleteNothrow": "Delete",
       "DeleteAlignedNothrow": "DeleteAligned", "NewArray": "New", "NewArrayAligned": "NewAligned", "NewArrayNothrow": "NewNothrow",
       "NewArrayAlignedNothrow": "NewAlignedNothrow", "NewArrayHotCold": "NewHotCold", "NewArrayAlignedHotCold": "NewAlignedHotCold",
       "NewArrayHotColdNothrow": "NewHotColdNothrow", "NewArrayAlignedHotColdNothrow": "NewAlignedHotColdNothrow",
       "DeleteArray": "Delete", "DeleteArrayAligned": "DeleteAligned", "DeleteArrayNothrow": "Delete", "DeleteArrayAlignedNothrow": "DeleteAligned"}
SYM.update({I_ + k: I_ + v for k, v in ARR.items()})
for _i in "01":
    for _t in ("", N, NA_, NA_ + N, AL, N + AL, NA_ + AL, NA_ + N + AL):
        SYM["__alloc_token_%s__Znam%s" % (_i, _t)] = "__alloc_token_%s__Znwm%s" % (_i, _t)
# hot/cold operators: defined functions that forward
HOT = {}
for _c in "wa":
    HOT.update({"_Zn%sm%s" % (_c, AL): "NewHotCold", "_Zn%sm%s%s" % (_c, N, AL): "NewHotColdNothrow",
                "_Zn%sm%s%s" % (_c, NA_, AL): "NewAlignedHotCold", "_Zn%sm%s%s%s" % (_c, NA_, N, AL): "NewAlignedHotColdNothrow"})
HOOKS = {"__malloc_hook": "Malloc", "__realloc_hook": "Realloc", "__free_hook": "Free", "__memalign_hook": "Memalign"}
DIS = next((x for x in ("llvm-dis-18", "llvm-dis", "/usr/lib/llvm-18/bin/llvm-dis") if shutil.which(x)), "llvm-dis")


def symbols(cfg):
    t = subprocess.run([DIS, build.tu_bc(TU, cfg), "-o", "-"], capture_output=True, text=True).stdout
    al, df, gl = {}, {}, {}
    for l in t.splitlines():
        if l[:1] == "@":
            m = re.match(r'@"?([\w.$]+)"? = (.*?)alias .*?, ptr @"?([\w.$]+)"?', l)
            if m:
                al[m.group(1)] = (m.group(3), m.group(2))
                continue
            m = re.match(r'@([\w.$]+) = (.*)', l)
            if m:
                gl[m.group(1)] = m.group(2)
        elif l.startswith("define "):
            m = re.match(r'define (.*?)@"?([\w.$]+)"?\((.*)', l)
            if m:
                df[m.group(2)] = m.group(1)
    return al, df, gl


WEAK = re.compile(r"\b(weak|weak_odr|linkonce|linkonce_odr|internal|private|hidden|available_externally)\b")


def run(c):
    c.rule("served", "each standard symbol is defined strongly and served by the entry point with its meaning")
    c.rule("hook", "the legacy malloc hooks forward to the matching entry point")
    for cfg in ("release", "small", "p256k"):
        al, df, gl = symbols(cfg)
        c.need(len(al) + len(df) > 60, "symbol table of %s is empty (%s)" % (TU, cfg))

        def resolve(s, n=0):
            while s in al and n < 20:
                s, n = al[s][0], n + 1
            return s

        def fwd(s, want):
            """s is a function that only forwards its arguments to want"""
            for f in c.fns("^" + re.escape(s) + r"(\(|$)", ["^TCMallocInternal", "^__alloc_token"], tu=TU, config=cfg, floor=1):
                cs = [i for i in f.live("call") if not i.cshort.startswith("llvm.")]
                if len(cs) != 1 or resolve(cs[0].callee) != resolve(want):
                    return False
                k = args(f, cs[0])
                # same parameters, in order; tag arguments (nothrow) may go
                idx = [t[1] for t in k if t[0] == "arg"]
                if len(idx) != len(k) or idx != sorted(set(idx)) or idx[:1] not in ([0], []):
                    return False
                v = [f.term(r.ops[0]) for r in f.rets if r.ops]
                return all(x == f.term(cs[0]) for x in v)
            return False
        for s, want in sorted(SYM.items()):
            inst = "%s:%s" % (cfg, s)
            if s.startswith("_Z") or s in ("malloc", "free"):
                pass
            lk = al[s][1] if s in al else df.get(s)
            if s in ("mallinfo2", "mallinfo") and lk is None and want not in df:
                continue
            c.ob("served", lk is not None, inst, TU, "%s is not provided" % s)
            if lk is None:
                continue
            c.ob("served", not WEAK.search(lk), "strong-" + inst, TU, "%s can be replaced by another definition" % s)
            ok = resolve(s) == resolve(want) and resolve(want) in df
            if not ok and s in df:
                ok = fwd(s, want)
            c.ob("served", ok, "target-" + inst, TU, "%s is served by %s, not %s" % (s, resolve(s), want))
        for s, want in sorted(HOT.items()):
            lk = al[s][1] if s in al else df.get(s)
            c.ob("served", lk is not None and not WEAK.search(lk), "%s:%s" % (cfg, s), TU, "%s is not provided" % s)
        for h, want in HOOKS.items():
            m = re.search(r"global ptr @([\w.$]+)", gl.get(h, ""))
            c.ob("hook", bool(m), "%s:%s" % (cfg, h), TU, "%s is not set" % h)
            if not m:
                continue
            r = c.fns(["(^|::)" + re.escape(demangled(m.group(1))) + r"(\(|$)"], ["^TCMallocInternal"], tu=TU, config=cfg, floor=1)
            for f in r:
                cs = [i for i in f.live("call") if not i.cshort.startswith("llvm.")]
                ok = len(cs) == 1 and resolve(cs[0].callee) == I_ + want
                c.ob("hook", ok, "%s:%s" % (cfg, h), f, "%s does not forward to %s" % (h, want))
                for i in cs:
                    a = args(f, i)
                    c.ob("hook", a == [("arg", k) for k in range(len(a))], "args-%s:%s" % (cfg, h), i, "%s passes other arguments" % h)
                    c.ob("hook", all(f.term(x.ops[0]) == f.term(i) for x in f.rets if x.ops), "ret-%s:%s" % (cfg, h), f, "%s returns something else" % h)


def demangled(s):
    m = re.match(r"_ZL(\d+)(\w+)", s)
    return m.group(2)[:int(m.group(1))] if m else s
