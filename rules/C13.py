"""Lock discipline of the whole library: order, balance, held state, callbacks."""
import collections
from tcm import *
import wp


# locks of which several instances may be held at once, taken in a fixed order
# (array index; graveyard before record)
NEST = {"ResizeInfo::lock", "Sample::lock"}
# plain state read or written only with its lock: (class, field) -> lock
GUARD = {
    "GuardedPageAllocator::guarded_page_lock_": [("GuardedPageAllocator", x) for x in ("used_pages_", "initialized_", "allow_allocations_")],
    "ThreadCache::threadcache_lock_": [("", x) for x in ("thread_heaps_", "thread_heap_count_", "next_memory_steal_", "per_thread_cache_size_", "unclaimed_cache_space_")]
    + [("ThreadCache", "next_"), ("ThreadCache", "prev_")],
    "MetadataObjectAllocator::metadata_lock_": [("MetadataObjectAllocator", "free_list_"), ("MetadataObjectAllocator", "stats_")],
    "Arena::arena_lock_": [("Arena", x) for x in ("free_area_", "free_avail_", "freelist_", "bytes_allocated_", "bytes_unavailable_", "bytes_nonresident_",
                                                  "freelist_bytes_unallocated_", "blocks_", "freelist_blocks_")],
    "AllocationSampleList::lock_": [("AllocationSampleList", "first_")],
    "DeallocationProfilerList::profilers_lock_": [("DeallocationProfilerList", "first_")],
    "TransferCache::lock_": [("TransferCache", "low_water_mark_"), ("TransferCache", "slots_")],
    "PeakHeapTracker::recorder_lock_": [("PeakHeapTracker", "last_peak_"), ("PeakHeapTracker", "peak_heap_recorder_")],
    "CentralFreeList::lock_": [("CentralFreeList", "nonempty_"), ("Span", "nonempty_index_")],
    "Sample::lock": [("Sample", "dead")],
    "SystemAllocator::spinlock_": [("SystemAllocator", x) for x in ("rnd_", "next_sampled_addr_", "next_selsan_addr_", "next_normal_addr_", "next_cold_addr_", "next_metadata_addr_",
                                                                    "sampled_regions_", "normal_regions_", "selsan_regions_", "cold_region_", "metadata_region_", "region_factory_")],
    "pageheap_lock": [("HugePageFiller", "max_backoff_delay_"), ("HugePageFiller", "current_backoff_delay_"), ("HugePageFiller", "treatment_stats_")]
    + [("HugePageAwareAllocator", x) for x in ("filler_", "regions_", "alloc_", "cache_", "donated_huge_pages_", "abandoned_pages_", "tracker_allocator_", "region_allocator_",
                                               "vm_allocator_", "metadata_allocator_", "unback_", "unback_without_lock_", "info_")] + [("PageAllocatorInterface", "info_")],
}
# classes all of whose (non-atomic) fields are only written with the lock
OWNED = {"pageheap_lock": ("HugeAddressMap", "HugeCache", "HugePageFiller", "HugeRegion", "HugeRegionSet", "PageTracker", "RangeTracker", "PageAllocInfo", "PageAllocator",
                           "HugeAllocator", "UsageInfo", "HugePageFillerStats")}

ALLOC = re.compile(r"^(operator new(\[\])?\(|operator delete(\[\])?\(|malloc$|free$|calloc$|realloc$|posix_memalign$|aligned_alloc$|strdup$|fopen|fdopen|getline$|asprintf|opendir$|pthread_create$|dlopen$"
                   r"|std::\w*::?basic_string<.*::_M_(create|mutate|append|assign|replace)|std::__cxx11::basic_string<.*::(_M_create|_M_mutate|_M_append|_M_replace|_M_assign|append|assign|reserve)|absl.*::(StrCat|StrAppend|StrFormat|FormatPack)\b)")
ROOM = re.compile(r"capacity|max_\w*events|\bsize\b|reserve")


def program(cfg="release"):
    p = wp.Program(cfg)
    return p.locks().must({n for n in p.fn if is_ctor(n) and not re.search(r"Holder|Lock|Guard", n.split("(")[0].split("::")[-1])})


def nm(n):
    return wp.bare(n).split("(")[0].split("tcmalloc_internal::")[-1][-70:]


def foreign(n):
    return wp.bare(n).split("(")[0].split(" ")[-1].startswith(("std::", "absl::", "__gnu"))


def is_ctor(n):
    q = wp.bare(n).split("(")[0].split("::")
    return len(q) > 1 and bool(q[-1]) and q[-1].lstrip("~").split("[")[0].strip() == q[-2]


def fields(f, t, out, seen=()):
    """Fields on the address path of t (not those of earlier loads)."""
    while t and t[0] in ("fld", "gep", "phi", "cast", "g", "glob", "global"):
        if t[0] == "fld":
            out.add((wp.bare(t[1]).split("::")[-1], t[2]))
            t = t[3]
        elif t[0] == "gep":
            t = t[1]
        elif t[0] == "phi":
            i = f.ins.get(t[1])
            if t not in seen and len(seen) < 4 and i is not None and i.op == "phi":
                for o in i.ops:
                    if o:
                        fields(f, f.term(o), out, seen + (t,))
            return
        elif t[0] == "cast":
            t = t[-1]
        else:
            if isinstance(t[1], str):
                out.add(("", t[1].split("::")[-1]))
            return


def roomy(p, n, i, l, d=0):
    """A vector grows under lock l only within reserved room."""
    if not foreign(n):
        return any(ROOM.search(show(x)) for x in p.fn[n].guards(i))
    cs = [(m, j) for m, j in p.callers.get(n, ()) if l in p.entry[m] or l in p.site_held.get((m, j.id), ())]
    return bool(cs) and d < 14 and all(roomy(p, m, j, l, d + 1) for m, j in cs)


def roomy_any(p, n, i, seen, d=0):
    """As roomy, for every caller among `seen`."""
    if not foreign(n):
        return any(ROOM.search(show(x)) for x in p.fn[n].guards(i))
    cs = [(m, j) for m, j in p.callers.get(n, ()) if m in seen]
    return bool(cs) and d < 14 and all(roomy_any(p, m, j, seen, d + 1) for m, j in cs)


def run(c):
    c.rule("order", "locks are acquired in an order without cycles, none twice")
    c.rule("balance", "a function leaves every lock as its callers expect")
    c.rule("guarded", "state owned by a lock is touched only with that lock held")
    c.rule("callback", "user hooks run without any internal lock")
    c.rule("alloc", "nothing that may allocate through the public interface runs under an internal lock")
    p = program()
    c.need(len(p.fn) > 3000, "whole-program view has %d functions only" % len(p.fn))
    c.nins += sum(len(f.ins) for f in p.fn.values())
    c.roots.update(n for n in p.fn if "tcmalloc" in n)
    import build
    c.units.update(build.module("release")[1]["units"])
    locks = {x for s in p.S.values() for x in s.acq if isinstance(x, str) and x != "?"}
    for k in GUARD:
        c.need(k in locks, "lock %s is gone" % k)

    # -- order
    adj = collections.defaultdict(set)
    for a, b in p.edges:
        if isinstance(a, str) and isinstance(b, str) and "?" not in (a, b) and (a != b or a not in NEST):
            adj[a].add(b)
    reach = {}

    def closure(a):
        if a not in reach:
            seen, st = set(), [a]
            while st:
                for y in adj[st.pop()]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            reach[a] = seen
        return reach[a]
    for a in sorted(locks):
        for b in sorted(adj[a]):
            cyc = a == b or a in closure(b)
            n, i = p.edges[(a, b)][0]
            c.ob("order", not cyc, "%s>%s" % (a, b), i.where(), "%s may be acquired while %s is held (in %s, through %s), and %s" % (
                b, a, nm(n), nm(i.callee), "it is the same lock" if a == b else "the reverse order is possible as well"))
        c.ob("order", a not in adj[a], a)

    # -- balance
    for n, f in p.fn.items():
        s = p.S[n]
        if not (s.acq or s.rel) or "tcmalloc" not in n.split("(")[0]:
            continue
        net = {x for x in s.net if isinstance(x, str)}
        wrap = is_ctor(n) or re.search(r"::(\w*[lL]ock\w*|Acquire\w*|Prefork\w*|BeforeFork\w*|[uU]nlock\w*|Release\w*Lock\w*)$", wp.bare(n).split("(")[0])
        ok = wrap or net <= s.rel
        c.ob("balance", ok, nm(n), f.where(), "%s may still be held on return" % ", ".join(sorted(map(str, net - s.rel))))
        A, R = p.M[n]
        lost = {x for x in R - A - NEST if isinstance(x, str)}
        c.ob("balance", wrap or not lost, nm(n) + "+", f.where(), "%s is released for the caller and not taken again on some path" % ", ".join(sorted(lost)))

    # -- guarded state
    want, own = {}, {}
    for l, fs in GUARD.items():
        for k in fs:
            want[k] = l
    for l, cs in OWNED.items():
        for k in cs:
            own[k] = l
    hits = collections.Counter()
    for n, f in p.fn.items():
        q = n.split("(")[0].split("<")[0]
        if "tcmalloc" not in n:
            continue
        young = is_ctor(n) and "Holder" not in n      # not shared yet
        if p.E[n] is None:                     # never called
            continue
        for b in range(len(f.blocks)):
            if b not in f.livb or b in f.crash:
                continue
            for i in f.blocks[b]:
                if i.op not in ("load", "store", "call"):
                    continue
                fs = set()
                if i.op == "load":
                    fields(f, f.term(i.ops[0]), fs)
                elif i.op == "store":
                    fields(f, f.term(i.ops[1]), fs)
                else:
                    for x in i.ops:
                        fields(f, f.term(x), fs)
                bad = []
                for k in fs:
                    if k in want and not (young and k[0]):
                        hits[k] += 1
                        if want[k] not in p.held(n, i):
                            bad.append((k, want[k]))
                if i.op == "store" and not young:
                    t = wp.strip(f.term(i.ops[1]))
                    if t[0] == "fld" and wp.base(t)[0] != "alloca":
                        k = wp.bare(t[1]).split("::")[-1]
                        if k in own and k not in ("HugePageFillerStats",):
                            hits[(k, "*")] += 1
                            if own[k] not in p.held(n, i):
                                bad.append(((k, t[2]), own[k]))
                for k, l in bad:
                    c.ob("guarded", False, "%s.%s@%s" % (k[0], k[1], nm(n)), i.where(),
                         "%s::%s is accessed in %s without %s held (held: %s)" % (k[0], k[1], nm(n), l, ", ".join(sorted(map(str, p.held(n, i)))) or "nothing"))
    for k, v in hits.items():
        c.ob("guarded", True, "%s.%s:%d" % (k[0], k[1], v))
    c.need(sum(1 for k in want if hits[k]) * 10 >= len(want) * 7, "most guarded fields are gone")

    # -- callbacks and allocation
    nh = 0
    for n in p.fn:
        if re.match(r"tcmalloc::MallocHook::Invoke\w+", n):
            nh += 1
            bad = [x for x in p.entry[n] if not x.startswith("MallocExtension_Internal_ProcessBackground")]
            c.ob("callback", not bad, nm(n), p.fn[n].where(), "reached with %s held: %s" % (", ".join(bad), " > ".join(nm(x) for x in p.chain(n, bad[0])) if bad else ""))
    c.need(nh >= 4, "hook invocation functions: found %d" % nh)
    na = 0
    for n, f in p.fn.items():
        for i in p.calls[n]:
            if i.callee in p.fn or not ALLOC.search(i.callee):
                continue
            h = {x for x in p.site_held.get((n, i.id), ()) if isinstance(x, str)} | set(p.entry[n])
            h = {x for x in h if x in GUARD or x == "ResizeInfo::lock"}
            if not h:
                na += 1
                continue
            l = sorted(h)[0]
            c.ob("alloc", roomy(p, n, i, l), "%s@%s" % (nm(i.callee), l), i.where(),
                 "%s may run with %s held: %s" % (nm(i.callee), l, " > ".join(nm(x) for x in p.chain(n, l))))
    c.ob("alloc", True, "unlocked:%d" % na)
