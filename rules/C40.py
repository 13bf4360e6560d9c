"""Serving a request never calls back into the public allocation interface,
and depends on nothing that is set up by a constructor."""
from tcm import *
import wp
from C13 import roomy_any, nm

ROOT = r"TCMallocInternal(?!MallocStats|MallocTrim|Mall[Ii]nfo|MallocInfo|Mallopt|MallOpt)\w+$|tcmalloc::tcmalloc_internal::ThreadCache::(DestroyThreadCache|BecomeIdle)"
# virtual operations of the allocator's own helpers, called indirectly
VIRT = r"operator\(\)\(tcmalloc::tcmalloc_internal::Range\)|AddressRegion::Alloc\(|AddressRegionFactory::\w*Create"
DENY = [
    (r"(malloc|calloc|realloc|reallocarray|free|cfree|memalign|posix_memalign|aligned_alloc|valloc|pvalloc|malloc_usable_size|free_sized|free_aligned_sized|sdallocx)$", "the public allocation interface"),
    (r"operator (new|delete)(\[\])?\(", "the public allocation interface"),
    (r"(f|fd|fre|p)open\d*$|open_memstream|opendir|scandir|glob$|getline$|getdelim$|v?asprintf|str(n)?dup$|realpath$|getcwd$|canonicalize_file_name|setlocale|syslog|getaddrinfo|getpw|getgr|tmpfile|qsort(_r)?$|regcomp|wordexp"
     r"|v?printf$|v?fprintf$|puts$|fputs$|putchar$|fputc$|fwrite$|fread$|fgets$|fflush$|perror$|setvbuf$", "a C library function that allocates"),
    (r"setenv$|putenv$|unsetenv$|clearenv$|backtrace(_symbols)?$|dlopen$|dlsym$|dlclose$|dladdr1?$|pthread_create$|pthread_getattr_np$|pthread_atfork$|atexit$|on_exit$|__cxa_atexit$|__cxa_thread_atexit(_impl)?$|__cxa_allocate_exception|__cxa_throw"
     r"|__tls_get_addr$|thrd_create$|timer_create$", "a C library function that allocates"),
    (r"__cxa_guard_acquire$", "initialises a local static under a guard"),
    (r".*std::(__cxx11::|__debug::)?(basic_string|basic_\w*stream|locale|ios_base|thread|function|any|filesystem|random_device|call_once)\b.*(_M_create|_M_mutate|_M_append|_M_replace|_M_assign|append|assign|reserve|resize|push_back|operator\+|basic_string\(|stream\(|operator<<|thread\(|locale\(|random_device)", "a C++ library object that allocates"),
    (r"std::__throw_|std::__detail::", "a C++ library function that allocates"),
    (r"absl::\w*:?:?(StrCat|StrAppend|StrFormat|StrJoin|Substitute|FormatDuration|FormatTime|CEscape|Symbolize|SimpleAtod_never)\b|absl::.*(StrCatPieces|FormatPack|AppendPieces|CatPieces|LogMessage|log_internal|RegisterFlag|FlagImpl)", "an Abseil function that allocates"),
]
DENY = [(re.compile(a), b) for a, b in DENY]


def reach(p, roots):
    cb = {}
    for n in p.fn:
        for i in p.calls[n]:
            if wp.CBCTOR.search(i.callee) and i.callee in p.fn:
                for k in p.fn[i.callee].all("store"):
                    for m in p._addr(p.fn[i.callee], k.ops[0]):
                        cb.setdefault(n, []).append((i, m))
    seen, st = {r: None for r in roots}, list(roots)
    ext = []
    while st:
        n = st.pop()
        for i, m in [(i, i.callee) for i in p.calls[n]] + cb.get(n, []):
            if m not in p.fn:
                ext.append((n, i, m))
            elif m not in seen:
                seen[m] = (n, i)
                st.append(m)
    return seen, ext


def path(seen, n):
    out = [n]
    while seen.get(out[-1]):
        out.append(seen[out[-1]][0])
    return " > ".join(nm(x) for x in out[::-1][-7:])


def run(c):
    c.rule("external", "no function outside the library that allocates is reached from an allocation or free")
    c.rule("self", "internal functions do not call the public entry points")
    c.rule("early", "nothing reached uses an object set up by a constructor at start-up")
    p = wp.Program("release")
    import build
    bc, m = build.module("release")
    c.units.update(m["units"])
    roots = [n for n in p.fn if re.match(ROOT, n)]
    c.need(len(roots) >= 25, "entry points: %d" % len(roots))
    c.roots.update(roots)
    entry = set(roots)
    virt = [n for n in p.fn if re.search(VIRT, n)]
    c.need(len(virt) >= 3, "indirectly called helpers: %d" % len(virt))
    seen, ext = reach(p, roots + virt)
    c.need(len(seen) > 1000, "reached functions: %d" % len(seen))
    c.nins += sum(len(p.fn[n].ins) for n in seen)
    ok = 0
    for n, i, m in ext:
        k = m.replace("absl::debian3::", "absl::").replace("inline ", "")
        why = next((b for a, b in DENY if a.match(k)), None)
        if why is None:
            ok += 1
            continue
        c.ob("external", k.startswith("operator") and roomy_any(p, n, i, seen), "%s@%s" % (nm(m), nm(n)), i.where(),
             "%s, %s, is reached while serving a request: %s" % (nm(m), why, path(seen, n)))
    c.ob("external", True, "external-calls:%d" % ok)
    ns = 0
    for n in seen:
        if n in entry:
            continue
        for i in p.calls[n]:
            if i.callee in entry and i.callee.startswith("TCMallocInternal"):
                cs = {m for m, _ in p.callers.get(n, ())}
                c.ob("self", bool(cs) and cs <= entry, "%s@%s" % (i.callee, nm(n)), i.where(), "internal code calls the public entry point: %s" % path(seen, n))
        ns += 1
    c.ob("self", True, "functions:%d" % ns)
    # -- objects with dynamic initialisation
    dyn = {}
    for n, f in p.fn.items():
        if re.match(r"__cxx_global_var_init", n):
            for b in f.blocks:
                for i in b:
                    for o in i.ops:
                        for x in (globs(f, o) if o else ()):
                            dyn[x] = n
    used = 0
    for n in seen:
        f = p.fn[n]
        if re.match(r"__cxx_global_var_init|_GLOBAL__", n):
            continue
        for b in range(len(f.blocks)):
            if b not in f.livb or b in f.crash:
                continue
            for i in f.blocks[b]:
                for o in i.ops:
                    for x in (globs(f, o) if o else ()):
                        used += 1
                        if x in dyn:
                            c.ob("early", False, "%s@%s" % (x, nm(n)), i.where(), "%s is set up by a constructor at start-up but used while serving a request: %s" % (x, path(seen, n)))
    c.ob("early", True, "global-uses:%d dynamic:%d" % (used, len(dyn)))
    c.need(used > 500, "uses of globals: %d" % used)


def globs(f, o):
    if o[0] == "g":
        return [o[1]]
    if o[0] in ("v", "a"):
        return ()
    return [x[1] for x in wp._walk(f.term(o)) if x and x[0] in ("g", "glob", "global") and len(x) > 1 and isinstance(x[1], str)]
