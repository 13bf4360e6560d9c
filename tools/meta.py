# One entry per property; tools/gen.py writes the deliverables from it.
P = [
dict(id="C01", title="Sizes never wrap: overflow is failure, success covers the request",
 statement="Every allocation entry point (malloc, calloc, realloc, reallocarray, aligned and size-returning forms, hot/cold and token variants, valloc, pvalloc) passes on exactly the caller's size; counts times sizes and roundings that do not fit size_t fail as out-of-memory instead of wrapping to a smaller request. calloc's object is zero over at least the requested product. The page count of a large request covers the requested size.",
 over=["inputs"], quant="every size, count, and alignment argument of every entry point",
 why="Wrap-around needs extreme arguments in particular combinations at particular entry points, and the built tests never call the allocator.",
 files=["tcmalloc/tcmalloc.cc", "tcmalloc/internal/overflow.h", "tcmalloc/pages.h"],
 mech=[("allocation entry points", "tcmalloc/tcmalloc.cc"), ("MultiplyOverflow", "tcmalloc/internal/overflow.h"), ("BytesToLengthCeil", "tcmalloc/pages.h")],
 how="A table of the entry points gives the argument roles. In the optimised CFG of each, the size operand of every allocation call is compared as a term with the argument, or the exact overflow-checked product with path facts excluding overflow; the path with overflow must end in the entry point's out-of-memory outcome. Page rounding terms are checked for the non-wrapping form or a guard. calloc's memset is matched to the returned pointer with the product (or the capacity) as length.",
 note="Judges arithmetic on the request path of the entry points; that the selected class is big enough is C04."),
dict(id="C02", title="Failure is reported exactly as each entry point promises",
 statement="When memory is exhausted or a size is absurd, malloc-family functions return null with errno ENOMEM, nothrow forms return null, and throwing forms never return null. posix_memalign and aligned_alloc refuse bad alignments with EINVAL before allocating; a failed posix_memalign returns the code and leaves its result untouched. An entry point returns exactly the object its allocation produced, and allocation slow paths never hand out null as success or drop an obtained object.",
 over=["inputs", "fault_sequences"], quant="every entry point, argument and point at which memory can run out",
 why="Out-of-memory at each internal point is not reproducible in tests, and the per-entry-point policy is a template parameter that compiles whichever is chosen.",
 files=["tcmalloc/tcmalloc.cc", "tcmalloc/tcmalloc_policy.h"],
 mech=[("entry points and slow paths", "tcmalloc/tcmalloc.cc"), ("out-of-memory policies", "tcmalloc/tcmalloc_policy.h")],
 how="The out-of-memory policy is read from the instantiated callee of every allocation call and compared with a table; each policy's handler is checked for its outcome (null, ENOMEM store, or no return); all returns of entry points and slow paths are split by path facts into allocated / out-of-memory / argument-error outcomes and each must be the promised one; argument refusals must entail an invalid alignment and acceptance a valid one.",
 note="The hand-off inside the caches (that an empty cache leads to the slow path) belongs to other properties."),
dict(id="C03", title="realloc keeps contents, frees the old block once and only on success",
 statement="realloc and reallocarray of null allocate, to size zero free the block and return null, and otherwise resize the given block to the given size. A moved block receives exactly the first min(old, new) bytes of the old one before the old one is freed, exactly once, and only if the new block exists; otherwise the old block stays intact. A block is kept in place only if its size is exactly what a fresh request would get.",
 over=["inputs", "fault_sequences"], quant="every block, new size and allocation failure",
 why="Tests sample sizes; the failure path and the size thresholds need exhaustion or exact boundary sizes.",
 files=["tcmalloc/tcmalloc.cc"], mech=[("do_realloc", "tcmalloc/tcmalloc.cc")],
 how="Routing facts at the calls in each entry point; in do_realloc a counting path analysis of allocation, copy and free events, with the copy's destination, source and length compared as terms with the new block, the old block and the minimum of both sizes under the path facts.",
 note="The size of the old block is taken from the allocator's own size query."),
dict(id="C04", title="Objects are as large and aligned as asked and report true capacity",
 statement="Every allocation entry point asks for the alignment it promises (the caller's, the page size, or the default), and size, alignment and size class reach the caches and the page allocator unchanged. The size class used holds the size and its object size is a multiple of the alignment; larger requests take whole pages covering the size at the alignment asked. Size-returning allocations and size queries (malloc_usable_size, nallocx, GetAllocatedSize, GetEstimatedAllocatedSize) answer with the size of the class or pages actually used.",
 over=["inputs"], quant="every size, alignment and flag combination at every entry point",
 why="The size-class lookup has boundaries at 8- and 128-byte steps, page-size and alignment thresholds, in dozens of policy instantiations; tests sample few.",
 files=["tcmalloc/tcmalloc.cc", "tcmalloc/sizemap.h", "tcmalloc/sizemap.cc", "tcmalloc/tcmalloc_policy.h"],
 mech=[("allocation paths", "tcmalloc/tcmalloc.cc"), ("GetSizeClass, lookup", "tcmalloc/sizemap.h"), ("lookup table", "tcmalloc/sizemap.cc")],
 how="The policy type of every callee is compared along the call chain and its size, class and alignment operands are traced to the caller's as terms. The lookup index of GetSizeClass is extracted per path as (size + k) >> s with its size range: rounding up, contiguous and monotone; every success path must entail that the class size is a multiple of the alignment. The code filling the table is checked to enter a class only for sizes it holds, leaving no gap. Every returned capacity is matched to the class or page count used.",
 note="That the lowest-level caches hold objects of the class's size is the business of the span carving and cache properties."),
dict(id="C05", title="Freeing returns each object once, to where it was allocated from",
 statement="Every form of free and delete gives the object back exactly once on every path, and ignores only null. It goes to the size class recorded for its page, or - in sized forms - to the class its given size and alignment were allocated from, in the pointer's own partition and hot/cold kind; page-sized objects return all pages of their span, and guarded samples go back to the guarded allocator. Ill-formed pointers, pointers inside an allocation, unknown memory and already freed pages are reported and never freed.",
 over=["inputs"], quant="every pointer, size, alignment and flag value at every deallocation entry point",
 why="A wrong class or a double hand-back corrupts silently much later; wrong-alignment, cold and partition combinations are not reached by tests.",
 files=["tcmalloc/tcmalloc.cc"], mech=[("do_free, do_free_with_size", "tcmalloc/tcmalloc.cc"), ("InvokeHooksAndFreePages", "tcmalloc/tcmalloc.cc"), ("FreeSmall", "tcmalloc/tcmalloc.cc")],
 how="Counting path analysis over every instantiation of the deallocation chain: one delegation per path. Pointer, size, alignment and class operands are traced as terms; the tag bits known on each path (from mask comparisons) must select the policy (hot, cold, partition) used for the class lookup; page frees must be dominated by the not-null, not-freed, no-class, no-live-objects and start-of-span facts, with the descriptor read only before it is given back.",
 note="That the given size is the allocated one is the caller's contract. Corruption reports are known not to return."),
dict(id="C06", title="Hook registration and invocation are exact under concurrency",
 statement="Registering a non-null hook succeeds unless the fixed-capacity list is full, and makes exactly that hook visible to later invocations; removing one succeeds exactly when it was registered and stops only it; a null hook is refused. Every invocation calls each hook that stays registered throughout exactly once with the caller's information, calls no null or never-registered hook, takes no lock, and stays within its fixed buffer. Each public registration function works on its own list and reports that list's result.",
 over=["schedules", "histories"], quant="every interleaving of add, remove and invoke on every hook list",
 why="Tests run a few add/remove sequences on one list; memory ordering, capacity edges and races between a reader and a writer are not reachable that way.",
 files=["tcmalloc/internal/hook_list.h", "tcmalloc/malloc_hook.cc", "tcmalloc/malloc_hook.h", "tcmalloc/malloc_hook_invoke.h"],
 mech=[("HookList Add/Remove/Traverse", "tcmalloc/internal/hook_list.h"), ("registration entry points", "tcmalloc/malloc_hook.cc"), ("InvokeHookList", "tcmalloc/malloc_hook_invoke.h")],
 how="Every list member is instantiated by a driver and analysed on its optimised CFG: writes only with the list lock held; entry and end marker published with release stores in that order and read with acquire loads; a path analysis (disjunctive facts per program point) shows that success stores the argument once in a slot known to be null and in range, that failure writes nothing, that removal clears a slot equal to the argument and only shrinks the end past empty slots; the traversal loop is shown to copy exactly the non-null entries with the count bounded by the caller's capacity (inductive affine facts); invocation calls every snapshot element once. Each registration function is matched to its list global and its notification.",
 note="Decides these clauses for all inputs and interleavings of the list operations; it does not model the C++ memory model beyond the ordering of each access."),
dict(id="C22", title="Signal-safe I/O: EINTR retried, transfers exact, errno and mask restored",
 statement="The signal-safe open, close, read, write and poll wrappers repeat a call only when it was interrupted by a signal and never report such an interruption; partial transfers continue exactly after the bytes already moved, never past the caller's count, and the reported byte count is exactly what was moved. A guarded memory copy reports success only when every byte was copied to its own place. Saved errno and signal masks are put back on every way out.",
 over=["fault_sequences", "inputs"], quant="every sequence of short transfers, EINTR and error results, every buffer length",
 why="Tests cannot provoke every sequence of short reads, interruptions and errors from the kernel, and the built tests do not reach these functions.",
 files=["tcmalloc/internal/util.cc", "tcmalloc/internal/util.h"],
 mech=[("retry loops", "tcmalloc/internal/util.cc"), ("ScopedSigmask, ErrnoRestorer", "tcmalloc/internal/util.h")],
 how="Each wrapper's retry loop is checked on its CFG: the back edge is taken exactly under (result == -1 && errno == EINTR) or short-transfer facts, the exits exclude it; call arguments are affine-inductive in the running total (buffer+total, count-total), the total's update equals the call result, and the returned count is that total. The chunked copy is checked for iovec-count bound, consecutive places (linear induction) and success condition. Destructors of the errno and signal-mask guards are checked to be reached on all exits with the value saved on entry.",
 note="System calls are treated as returning arbitrary results. An errno change made by poll() inside a read retry is out of the claim."),
dict(id="C27", title="Coarse timestamps: sentinel never recorded, wrap-safe order and age",
 statement="A recorded timestamp is never mistaken for 'never recorded': resetting gives the unset state, recording any clock value gives the set state. Age is infinite exactly when unset and otherwise the modular difference of coarse ticks converted to seconds; comparing two timestamps is by the sign of their modular difference, so it stays right across counter wrap-around.",
 over=["inputs"], quant="every 64-bit clock value and every pair of 32-bit stamps",
 why="Tests use a few hand-picked clock values; the sentinel collision occurs for one reading in four billion.",
 files=["tcmalloc/internal/clock.h"], mech=[("Cycles32", "tcmalloc/internal/clock.h")],
 how="All members are instantiated and their value terms compared, path by path, with the modular-arithmetic specification: stored value is the tick-shifted reading with zero substituted by a non-zero constant, comparison is the sign of a 32-bit difference, elapsed is the unsigned 32-bit difference scaled by the same shift.",
 note="Exact for all inputs; floating-point rounding of the conversion to seconds is not judged."),
dict(id="C28", title="Stack-trace filter: consistent hashing, exact decay of the oldest entry",
 statement="Looking up a stack trace probes exactly the slots that adding it increments and answers 'possibly present' only when all are non-zero, so an added trace that has not been removed or decayed is always found. The decaying variant remembers a fixed number of additions and each further addition decays exactly the oldest remembered trace by one, atomically with respect to other additions.",
 over=["inputs", "schedules", "histories"], quant="every stack trace, every history of add/remove/decay and every interleaving of additions",
 why="Tests add a handful of traces single-threaded; slot agreement must hold for every trace and the ring hand-over for every interleaving.",
 files=["tcmalloc/internal/stacktrace_filter.h"], mech=[("StackTraceFilter", "tcmalloc/internal/stacktrace_filter.h"), ("DecayingStackTraceFilter", "tcmalloc/internal/stacktrace_filter.h")],
 how="The slot-index sequences of lookup and update are extracted as terms and shown equal step by step; updates are a single atomic read-modify-write per slot of the given amount; the ring operation must be one atomic exchange at a slot chosen by an atomic increment, whose old value (if any) is the one decayed by one.",
 note="Counter saturation/wrap is not judged."),
dict(id="C37", title="Hooks see every allocation and free once, with true sizes",
 statement="While new and delete hooks are registered, every successful allocation made through a hooked entry point is reported to the new hooks exactly once, after it succeeded, with its pointer, the requested size (the real size for size-returning entry points) and its real size; a failed allocation is not reported. Every well-formed free is reported to the delete hooks exactly once, before the block is given back, and a realloc that keeps the block reports a deletion and then an allocation of it. While either kind of hook is registered the per-CPU fast paths, which report nothing, are not used.",
 over=["inputs", "histories"], quant="every entry-point policy, allocation size and sampling outcome, every order of slow and fast paths",
 why="A hook-notification gap needs a particular entry point, size and cache state at once; tests register hooks around a few calls and the built tests none.",
 files=["tcmalloc/tcmalloc.cc", "tcmalloc/cpu_cache.h", "tcmalloc/static_vars.h", "tcmalloc/malloc_hook.cc"],
 mech=[("hook calls of the slow paths", "tcmalloc/tcmalloc.cc"), ("MaybeForceSlowPath", "tcmalloc/cpu_cache.h"), ("HaveHooks", "tcmalloc/static_vars.h")],
 how="Every policy instantiation of the large, sampled/hooked small, page-level free, hooked free and realloc paths is extracted to canonical SSA and its paths enumerated with event counts: hook calls per return, their order against every call that gives the block back, and the fields of the info structure, traced through the stack slot they are stored to, must be the allocation's own pointer and size terms or the arguments. The hookless slow paths must be dominated by 'no hooks registered' (and zero sampling weight); HaveHooks must be the disjunction over both lists; every slow per-CPU operation and every hook-list change must be followed by the uncaching of the slab that makes the fast path fail.",
 note="That the fast path fails while the slab is uncached is part of the per-CPU slab's own contract. A free of an ill-formed pointer, which is reported as an error, is exempt, as are registrations that race with the operation."),
dict(id="C14", title="A sampled allocation is recorded once and taken back once",
 statement="A sampled allocation is announced once to the sampled-allocation hooks and to the allocation and deallocation profiles, recorded once as live and attached to its span, all describing the same handle, pointer, sizes and weight; if its memory cannot be obtained nothing is recorded. Freeing it detaches its record exactly once, announces the same facts once to the sampled-deletion hooks and the deallocation profile before the record can be reused, and takes back exactly what it added to the fragmentation and live-sample totals. A free whose size or family (new or malloc) contradicts the record, or whose size cannot belong to an unsampled block's span, is reported instead of carried out.",
 over=["inputs", "histories"], quant="every entry-point policy, size, guarding outcome and free variant",
 why="Sampling picks allocations at random and the bookkeeping is only visible in profiles, so a lost or doubled record needs a chance sample on the one wrong path.",
 files=["tcmalloc/allocation_sampling.h", "tcmalloc/allocation_sampling.cc", "tcmalloc/span.cc", "tcmalloc/tcmalloc.cc"],
 mech=[("SampleifyAllocation, MaybeUnsampleAllocation", "tcmalloc/allocation_sampling.h"), ("Span::Sample, UnsampleSlow", "tcmalloc/span.cc")],
 how="Every instantiation of the sampling and unsampling functions is extracted to canonical SSA and its paths enumerated with event counts: per return, each of the announcements, the record and the attachment happens exactly once on success and never on failure or for an unsampled block. The record and both announcements are followed field by field through the local structures they are built in; weight and fragmentation must be the same quotient on both sides, the guarded result, its mapped span and its capacity are tied to the guard's outcome, and every path that releases the record must carry the facts that the given size, family and address agree with it. No read of, or pointer into, the record may be used after it is released.",
 note="The floating-point arithmetic of the estimate is compared as terms, not evaluated. Which allocations are picked is up to the sampler and not covered."),
dict(id="C38", title="Live-sample recorder: each record live or dead exactly once",
 statement="Every record of the live-sample list is on it once and is either live or in the graveyard, never both: registering revives one dead record or publishes one new record with a release, filled in before it can be seen live; unregistering disposes of a record once, before it can be reused, and buries it once, all under the graveyard's and the record's own lock. Iteration visits exactly the live records, each under its own lock, and dropping all samples treats each live one as an unregistration and skips dead ones. The peak-heap snapshot is replaced as a whole under its own lock.",
 over=["histories", "schedules"], quant="every order and interleaving of registration, removal, iteration and dropping all samples",
 why="A lost or doubly buried record needs a particular interleaving of sampling, freeing and profile collection.",
 files=["tcmalloc/internal/sampled_allocation_recorder.h", "tcmalloc/peak_heap_tracker.cc", "tcmalloc/peak_heap_tracker.h"],
 mech=[("SampleRecorder", "tcmalloc/internal/sampled_allocation_recorder.h"), ("PeakHeapTracker", "tcmalloc/peak_heap_tracker.cc")],
 how="The recorder is instantiated for the real sample type and for the metadata allocator, extracted to canonical SSA, and its paths enumerated with lock events keyed by the lock's address expression. Every graveyard and liveness store must happen under both locks and relink exactly the record in hand; loops are judged per iteration path, so that each record reached is visited, buried or skipped by its own liveness.",
 note="The locks' own correctness is assumed."),
dict(id="C39", title="Metadata arena: aligned, disjoint grants, every byte accounted",
 statement="Every grant of the metadata arena starts at the first suitably aligned address of the current area, lies inside it and is carved off it, whether the area is fresh from the system, the current one or a stashed remnant; a remnant is only reused when it holds the request with its padding, and leaves the list when it is. Every byte of an area is counted as granted, available, stashed or unavailable, and the statistics report exactly these counts. The per-type object allocators hand out each free object once and count what is in use, all under their lock.",
 over=["inputs", "histories"], quant="every sequence of metadata requests of any size and alignment, and of object creations and deletions",
 why="Overlapping or misaligned metadata corrupts the allocator's own state much later; remnant reuse needs particular sequences of sizes and alignments.",
 files=["tcmalloc/arena.cc", "tcmalloc/arena.h", "tcmalloc/metadata_object_allocator.h"],
 mech=[("Arena", "tcmalloc/arena.cc"), ("MetadataObjectAllocator", "tcmalloc/metadata_object_allocator.h")],
 how="Per return path of each arena and object-allocator function the net effect on every field is extracted as a linear term and compared with the path's facts: padding is the distance to the alignment, cursor, availability and counters move by the same amount, the branch taken proves the fit. Values re-read after a call are kept apart from earlier ones.",
 note="That the system hands out disjoint areas is the system allocator's part."),
dict(id="C32", title="Every standard allocation symbol is taken over by its entry point",
 statement="Every standard C, C++ and glibc-internal allocation and deallocation symbol, including array, sized, aligned, nothrow and allocation-token forms, is defined by the library with strong linkage and served by the entry point with exactly that symbol's meaning, in every page-size configuration, so that no program mixes this allocator with another. The legacy glibc malloc hooks forward the same arguments to the matching entry point.",
 over=["inputs"], quant="every standard allocation symbol and every build configuration",
 why="A test calls a handful of symbols; a wrong or missing alias for a rare form (sized aligned array delete, __libc_pvalloc) goes unnoticed until a program uses it.",
 files=["tcmalloc/libc_override.h", "tcmalloc/tcmalloc.cc"], mech=[("symbol aliases", "tcmalloc/libc_override.h"), ("array and nothrow aliases", "tcmalloc/tcmalloc.cc")],
 how="The alias graph of the compiled translation unit is resolved and compared with the table of what the C and C++ standards and glibc require of each symbol; a function in place of an alias must only forward its arguments; linkage must be strong and visible.",
 note="What the entry points do is covered by the other properties.", tech="alias-graph query over the compiler's IR"),
dict(id="C13", title="Internal locks: one order, always balanced, guarded state, no foreign code",
 statement="No two internal locks can be acquired in opposite orders, and none is acquired again by a thread that may already hold it, so no combination of threads and operations deadlocks; every operation leaves each lock as its caller expects. Shared state owned by a lock (free lists, span lists, page-heap structures, sampler lists, region lists) is touched only with that lock held. User hooks are invoked, and memory from the public interface is requested, only with no such lock held.",
 over=["schedules", "histories", "inputs"], quant="every schedule of every operation reachable from the library's functions",
 why="A lock-order or lockset violation shows only under a rare interleaving; the call chain to the second acquisition is usually several modules long.",
 files=["tcmalloc/huge_page_aware_allocator.h", "tcmalloc/central_freelist.h", "tcmalloc/transfer_cache_internals.h", "tcmalloc/thread_cache.cc", "tcmalloc/global_stats.cc", "tcmalloc/guarded_page_allocator.cc", "tcmalloc/arena.h", "tcmalloc/internal/system_allocator.h", "tcmalloc/deallocation_profiler.cc", "tcmalloc/peak_heap_tracker.cc"],
 mech=[("pageheap_lock and the lock members of the other layers", "tcmalloc/common.h")],
 how="Whole-program lock analysis over the un-inlined IR of all library sources: summaries of locks acquired, released and held on return are computed bottom-up to a fixpoint (holders, try-locks, callbacks bound to function references and release-reacquire windows included). From them the may-held graph must be acyclic, each function balanced on every path, every access to a field of the guarded-state table (and every write to the page-heap classes) dominated by a must-held lockset containing its lock, hook invocation must have an empty may-held set, and calls to the public allocation interface must have one too, unless provably within reserved vector room.",
 note="Locks are identified class-wide; the per-CPU resize locks and sample-record locks, which are taken in index or ring order, are exempt from the self-order rule. Objects under construction are exempt. Atomics' memory orders are not judged here."),
dict(id="C40", title="Serving a request never re-enters the allocator or needs start-up",
 statement="Handling an allocation, free or reallocation never calls the public allocation interface again, directly or through a C or C++ library facility that allocates (strings, streams, stdio, library sorting buffers), except to append to buffers already reserved. It also never depends on an object set up by a start-up constructor or by a guarded local static, so it works before any constructor has run and cannot recurse into its own initialisation.",
 over=["inputs", "histories", "schedules"], quant="every function reachable from an allocation, free, realloc or thread-exit entry point, on every path",
 why="A re-entrant allocation happens only on rare paths (limits, profiling, unusual environment); when it does the process hangs or dies.",
 files=["tcmalloc/tcmalloc.cc", "tcmalloc/static_vars.cc", "tcmalloc/experiment.cc", "tcmalloc/huge_page_filler.h", "tcmalloc/deallocation_profiler.cc"],
 mech=[("TCMallocInternal* entry points", "tcmalloc/tcmalloc.cc")],
 how="Call-graph closure over the un-inlined IR from all entry points, including callbacks bound to function references and the page-release and region-allocation virtual helpers (about 3,000 functions); every external function reached is matched against the catalogue of allocating library functions, public entry points and static guards, and every global referenced is matched against those with dynamic initialisers.",
 note="User hooks and the new-handler are the user's code and not followed; crash reporting paths are exempt. Functions of Abseil outside its headers are judged by name."),
dict(id="C26", title="The extension interface works with and without the allocator",
 statement="A program may link the MallocExtension, tracing-extension, logging and page-status code without the allocator, or with one that provides only some of it: no optional function is called unless it is present, and each MallocExtension call then answers with its documented default (limits and background rate 0, sampling intervals and cache sizes -1, flags false, durations zero, ownership unknown, optionals and profiles empty). When the allocator provides the function, each call reaches exactly its own implementation once with its arguments unchanged and returns its result; SetMemoryLimit(0) means no limit. The replaceable operators and sized-free functions fall back to the plain ones: nallocx returns the size asked for, size-returning new reports that size (0 with a null block), sized frees free the block.",
 over=["inputs", "configurations"], quant="every public wrapper and every call of an optional symbol, for every subset of provided symbols",
 why="Tests link either the whole allocator or none of it; a missing or crossed check shows only for one symbol of a partial allocator.",
 files=["tcmalloc/malloc_extension.cc", "tcmalloc/malloc_tracing_extension.cc", "tcmalloc/internal/logging.cc", "tcmalloc/internal/page_allocation_status.cc", "tcmalloc/huge_page_aware_allocator.cc", "tcmalloc/static_vars.cc"],
 mech=[("MallocExtension::*", "tcmalloc/malloc_extension.cc")],
 how="Weak external symbols are enumerated from the IR of every unit; in each function calling one, path facts at the call must contain that symbol's non-null test (symbols the same link always defines are exempt outside the stand-alone units). For each MallocExtension member the facts of each return path decide whether the symbol is present, and call count, arguments, result and default are compared with the expected ones.",
 note="The documented meaning of the default of GetStats and the profiles is taken as 'calls nothing but constructors'."),
dict(id="C41", title="Runtime settings read back as set and do not interfere",
 statement="Each runtime setting (sampling and guarded intervals, cache sizes and limits, background rate and sleep interval, subrelease intervals, feature switches) has one location: every setter stores its argument there on every path, through any of its public names, every getter returns exactly what it holds, and no two settings share it (turning off per-CPU caches or dynamic slabs may be refused without the build-time opt-out). A memory limit is stored for its own kind, 0 meaning none at the public interface, the soft limit is lowered to the hard one whenever it would exceed it, and the new limit is applied at once. Setting the thread-cache total also updates, bounded below, the value the caches use and recomputes their shares.",
 over=["inputs", "histories"], quant="every accessor of every setting, every argument and path",
 why="A crossed, truncated or dropped setting compiles and passes unless a test sets that very setting to a telling value.",
 files=["tcmalloc/parameters.cc", "tcmalloc/parameters.h", "tcmalloc/tcmalloc.cc", "tcmalloc/page_allocator.h", "tcmalloc/thread_cache.cc", "tcmalloc/cpu_cache.h"],
 mech=[("Parameters accessors", "tcmalloc/parameters.cc"), ("PageAllocator::set_limit", "tcmalloc/page_allocator.h")],
 how="All setters and getters are enumerated from the module by name; for each, the memory effects and the returned term of every path give the location written and read; accessors are grouped by setting and their locations compared within a group (equal) and across groups (different). set_limit and its callers are decided from path facts.",
 note="Atomicity of two concurrent setters is not judged; what each setting then does is the subject of the other properties."),
dict(id="C07", title="The page map keeps each page's own entry, for every page",
 statement="Looking up, setting or clearing a page in the page map concerns exactly that page's entry; a lookup answers nothing exactly when the page lies outside the prepared map, and a page's span and size class read back as stored. Preparing a range succeeds only once every page of it has a zeroed entry; registering or unregistering a span's size class reaches all its pages, and the enumeration visits every page that has a span once, in order. New spans are entered and registered before they are handed out, unregistered and cleared before their pages can be reused, and memory from the system is prepared before it is used.",
 over=["inputs", "histories"], quant="every page number, every page range and span length, every path that obtains or returns pages",
 why="The map covers 2^35 pages; tests touch a few neighbouring ones, so an index or boundary error at a node border, or a missing registration on one path, goes unseen.",
 files=["tcmalloc/pagemap.h", "tcmalloc/pagemap.cc", "tcmalloc/central_freelist.cc", "tcmalloc/huge_page_aware_allocator.h", "tcmalloc/huge_page_aware_allocator.cc", "tcmalloc/guarded_page_allocator.cc"],
 mech=[("PageMap3", "tcmalloc/pagemap.h"), ("PageMap::RegisterSizeClass", "tcmalloc/pagemap.cc")],
 how="Every load and store through the radix tree is decomposed into its root, node and leaf index; each must be an adjacent bit slice of one page number, and all functions must share the split. Path facts decide presence tests, the word's packing and the ends of the loops; loop evolution gives start, step and exit of Ensure, the registration loops and the enumeration's three nested indices. Dominance and path events decide the order of map updates against page release and use.",
 note="The order of memory accesses between unsynchronised readers and the writer is not judged; the split is decided for the default page size."),
dict(id="C08", title="A span keeps each of its objects in exactly one free place",
 statement="A span's page count, length and last page read back as set in every representation, and sampling keeps them; a size class is accepted only if its spans fit their bookkeeping, and object addresses and indices are converted by inverse maps. A newly built span lays its objects side by side and keeps each exactly once, in the batch handed out, the cache, the list or the bitmap; each returned object goes to exactly one free place and each object handed out is taken off its place, never beyond the batch given. The number of objects in use changes by exactly the objects moved, a span reports itself full exactly when all its objects are in use, and refuses the return that would leave it entirely free.",
 over=["inputs", "histories"], quant="every object size and count, every batch length, every state of cache, list and bitmap",
 why="The embedded list has positions where the cache fills, a head fills or a batch ends exactly at a head; tests with a few sizes and batch lengths reach some of them.",
 files=["tcmalloc/span.h", "tcmalloc/span.cc", "tcmalloc/internal/range_tracker.h"],
 mech=[("Span::ListPushBatch", "tcmalloc/span.h"), ("Span::BuildFreelist", "tcmalloc/span.cc")],
 how="Per path, the symbolic next state of every loop iteration (batch, cache, embedded and head positions) is compared with the rule: one store per object, the next free place, the link in front, the counts. Loop exits and entries give where each part starts and stops, min-selections are decided case by case; the packed page-count word is decomposed into bit slices shared by all readers and writers; index maps are compared as shift/mask pairs; values of counters are compared as linear terms at every return.",
 note="That the reciprocal's rounding is exact for every size class is a numeric fact left to the constant evaluation; legacy locking's variants are not built."),
dict(id="C10", title="The transfer cache keeps every object once and its capacity in bounds",
 statement="Inserting into and removing from a transfer cache, shrinking it and plundering it keep each cached object in exactly one place: what the slots take or give up is what the used count says, what does not fit goes to the central list exactly once, and a removal reports exactly what it delivered. The used count never exceeds the capacity, the capacity never the allocated slots, and decisions rest on counts read under the lock. Resizing grows a cache only after another shrank, counts both truthfully, and does not end with capacity taken and not given back.",
 over=["inputs", "histories", "schedules"], quant="every batch size, every used count, capacity and maximum, every order of operations and of resizing outcomes",
 why="Partial insertions, concurrent refills between the unlocked peek and the lock, and failed growth happen rarely; tests sample a few fill levels.",
 files=["tcmalloc/transfer_cache_internals.h", "tcmalloc/transfer_cache.h", "tcmalloc/transfer_cache.cc"],
 mech=[("TransferCache::InsertRange", "tcmalloc/transfer_cache_internals.h"), ("ResizeCaches", "tcmalloc/transfer_cache_internals.h")],
 how="Every store of the packed counts is decomposed into its used and capacity halves as linear forms of the previous ones; the copy paired with it must move exactly that many objects at exactly that slot, and the objects handed to the central list must be the complement. Min-selections and path facts decide the bounds against capacity and slots; a backward slice shows every count read after the lock. For resizing, the counters are followed through their phi webs: each success raises its own counter by one, and the return is guarded by their comparison.",
 note="The order of objects in the slots and the choice of which cache is resized are free; the objects themselves are opaque."),
    dict(id="C09", title="The central free list lists every span under its free objects and counts truly",
         statement="A span of the central free list with some but not all of its objects allocated is in exactly one of the nonempty lists, the one its number of allocated objects calls for, and the index recorded in it names that list; a span with no free object, or given back as completely free, is in none, and the histogram of spans by allocated objects moves with it. Inserting a batch releases every object to its own span once and hands every span that became free to the page heap exactly once; removing a batch reports exactly the objects it delivered. The free object and span counters change by exactly what was moved, under the lock.",
         over=["inputs", "histories", "schedules"], quant="every batch size and mix of spans, every fill level of a span before and after, every order of insertions, removals and refills",
         why="A wrong list or stale index shows only when a span crosses an occupancy boundary in a batch of the right size; tests sample a few orders and the fragmentation they check is statistical.",
         files=["tcmalloc/central_freelist.h", "tcmalloc/central_freelist.cc"],
         mech=[("CentralFreeList::ReleaseToSpans", "tcmalloc/central_freelist.h"), ("CentralFreeList::RemoveRange", "tcmalloc/central_freelist.h"), ("CentralFreeList::InsertRange", "tcmalloc/central_freelist.h"), ("CentralFreeList::Populate", "tcmalloc/central_freelist.h")],
         how="The functions are cut into acyclic path segments with the facts that hold on each; on every one the list operations, the recorded index and the histogram updates are compared with what the span's free objects before and after call for: the list index must be the index function of the allocated count after the change, the buckets the bit widths before and after. The insert loop's phis show that runs cover the batch without gap or overlap, and lock state is followed through every path.",
         note="Span's own free list is C08's subject and the lifetime statistics are not decided."),
    dict(id="C34", title="Intrusive lists and hinted lists link each element once and mark what is there",
         statement="An intrusive doubly linked list (TList) holds exactly the elements put in and not removed, each linked both ways, and its emptiness, first and last element, length and iteration follow from the links. An array of such lists (HintedTrackerLists) has a list's bit set exactly while that list has elements, counts all elements, and finds, removes or visits from the first nonempty list at or after the one asked for. The singly linked object list (LinkedList) gives out each object pushed exactly once, singly or in batches, and its length is the number of objects on it.",
         over=["inputs", "histories"], quant="every list content, every position of the element in its list, every order of adding, moving and removing, every batch size",
         why="A link or bit left wrong by one operation is only seen by a later one, on the neighbour or list concerned; tests walk through a few orders.",
         files=["tcmalloc/internal/linked_list.h", "tcmalloc/hinted_tracker_lists.h"],
         mech=[("TList", "tcmalloc/internal/linked_list.h"), ("HintedTrackerLists", "tcmalloc/hinted_tracker_lists.h"), ("LinkedList", "tcmalloc/internal/linked_list.h")],
         how="Each operation of every instantiation is cut into path segments; the stores of a segment, with reloads forwarded, must be exactly the link updates of the operation, as terms over the element and its neighbours. For hinted lists the bit operations of a path are compared with what the removal's result says of the list, the search index with the list used, and the size's change with the elements linked. Batch loops are proved by induction over their phis: start, step and exit.",
         note="Operations on an element not in the list are excluded by their precondition."),
    dict(id="C19", title="Bitmaps and range trackers mark, count and find exactly the bits asked for",
         statement="A bitmap's single-bit, range, search, count, clear and bitwise operations read and change exactly the bits they name, across word boundaries, and searches report the nearest bit or that there is none. A range tracker marks and unmarks exactly the range given, its used and allocation counts follow, and its longest free range is the length of the longest run of unmarked bits after every operation. FindAndMark returns the range it marked, chosen as a shortest free run that fits.",
         over=["inputs", "histories"], quant="every index, length and content of the bitmap, every sequence of marking and unmarking",
         why="Mistakes show at word boundaries, with ties between free runs or at the end of the bitmap; tests compare a few random sequences.",
         files=["tcmalloc/internal/range_tracker.h"],
         mech=[("Bitmap", "tcmalloc/internal/range_tracker.h"), ("RangeTracker", "tcmalloc/internal/range_tracker.h")],
         how="Masks are recognised as terms and turned into the bit interval they denote, as linear forms; a range loop's first part and step must cover the range without gap or overlap, with the remaining count reaching zero. Searches must start from the first word masked on the right side, go on word by word while nothing was found, and report the lowest or highest bit of the word. For range trackers, the scan over free ranges must start at zero, visit all of them, and keep the longest two and the best fit under the facts of each path.",
         note="Scaling between bitmaps of different sizes (CopyBits and Scale) is not decided."),
    dict(id="C11", title="The thread cache keeps each object once and the claimed cache space adds up",
         statement="A thread cache hands out, keeps or passes on to the transfer cache every object exactly once, and its recorded size changes by exactly the bytes of the objects it gains or gives up; a list or cache past its limit is trimmed, by no more than lay idle, and a list's low-water mark never exceeds its length. The cache space claimed by all thread caches and the unclaimed pool always add up: creating a cache, growing a limit, taking space from another cache, recomputing and deleting a cache move space without losing or making any. Every live cache is registered exactly once and taken in by the statistics; one given up is emptied first and then reachable neither from the registry nor from its thread.",
         over=["inputs", "histories", "schedules"], quant="every class, list length and limit, every batch size, every order of threads starting, growing, idling and ending",
         why="A leak of an object or of claimed space is silent, and a stale registry link needs threads ending in a particular order; tests run with per-CPU caches or a few threads.",
         files=["tcmalloc/thread_cache.h", "tcmalloc/thread_cache.cc"],
         mech=[("ThreadCache::ReleaseToTransferCache", "tcmalloc/thread_cache.cc"), ("ThreadCache::FetchFromTransferCache", "tcmalloc/thread_cache.cc"), ("ThreadCache::IncreaseCacheLimitLocked", "tcmalloc/thread_cache.cc"), ("ThreadCache::DeleteCache", "tcmalloc/thread_cache.cc")],
         how="Every function is cut into path segments. On each, the list and transfer cache calls are paired by list, buffer and count, the stored size is a linear form of the previous one whose coefficient must be the objects moved, and the changes of all claims and of the pool must sum to zero. Registry stores are compared, under each path's facts, with unlinking the cache from its neighbours, the head and the steal pointer before it is freed.",
         note="The tuning of limits is free as long as each stays at least one; which cache space is taken from is free."),
    dict(id="C17", title="A huge page's tracker hands out, takes back and releases exactly its pages",
         statement="Allocating from a huge page marks one range, returns its first page, and reports and takes off the released count exactly the pages of it that were released; freeing unmarks the range given where it lies. Releasing gives the system exactly the pages that are free and not yet released, records only what the system released, returns their number and marks the huge page broken; pages found unbacked are recorded alike. Span statistics report every free page once by its released state, and a collapse is announced under the lock around the call, over the whole huge page, and never of one with released pages.",
         over=["inputs", "histories", "schedules"], quant="every pattern of used, free and released pages, every outcome of the system calls, every order of operations",
         why="The patterns of used and released pages are far too many to sample, and a miscount is only seen when later operations underflow it or memory statistics drift.",
         files=["tcmalloc/huge_page_tracker.h"],
         mech=[("PageTracker", "tcmalloc/huge_page_tracker.h")],
         how="The loops of the tracker are cut into one turn each; what the range searches write through their addresses stands for itself, and each released or reported range must be the intersection of the free and the unreleased range found, as terms under the turn's facts. Bitmap expressions are evaluated as truth tables over used, released and found unbacked, so any equivalent formula is accepted. Collapsing is a sequence of lock, look, announce, unlock, call, lock, withdraw, unlock along each path.",
         note="The bitmap and range operations themselves are C19; residency of pages below the tracker's granularity is not decided."),
    dict(id="C18", title="The huge page filler files huge pages by state and its page counts add up",
         statement="A huge page the filler holds is in exactly one list, the one its donated, density, released and broken state and its longest free range call for, it changes only while it is out of its list, and it leaves only when wholly free and not under treatment. An allocation comes from the first list of its density with room for it, or from a donated huge page if sparse, and fails only when none has room. The counts of huge pages, allocated pages, unmapped pages, used pages in released lists and formerly released huge pages change by exactly what was allocated, freed, released or filed.",
         over=["inputs", "histories"], quant="every state of a huge page, every order of allocating, freeing, releasing, donating and treating",
         why="A huge page filed by its old state is lost to later searches or corrupts a list; counters drift by a few pages in rare states, and tests see only the states they build.",
         files=["tcmalloc/huge_page_filler.h", "tcmalloc/huge_page_tracker.h"],
         mech=[("HugePageFiller", "tcmalloc/huge_page_filler.h"), ("PageTracker", "tcmalloc/huge_page_tracker.h")],
         how="Typestate of a huge page (in a list, out) along every path of the filler's operations, with list operations and tracker changes as events. Every path that adds a huge page is compared with every path that removes one under compatible facts: list, density, position and counter must be the same terms. Counter updates are linear forms compared with the length, tracker result or page count of the same path; search indices must be those for the length asked.",
         note="Which huge page is best (packing quality), subrelease targets and lifetime histograms are not decided; the lists themselves are C34, the tracker is C17."),
dict(id="C15", title="A guarded page is open only to its own object and wrong frees never return",
 statement="A page of the guarded page pool is made accessible only after its slot was taken under the lock, for one object that lies within it, aligned as asked, with the padding behind it filled; size, start and stack trace are on record before the object is handed out. On free the page is inaccessible again before its slot can be taken anew, the slot is given back once, and a second free, a free of another address in the page and an overflow found in the padding never return. An access is attributed to the nearest slot and to the error its record shows, and the pool is used only once it is mapped with a guard page on either side of each page and all its records are initialised.",
 over=["inputs", "schedules", "histories"], quant="every size, alignment, slot, address and order of allocating and freeing",
 why="Wrong frees and overflows end the process, and which slot an object gets is random, so tests see few combinations; a record or page state that is wrong for one of them hides the bug it was meant to find.",
 files=["tcmalloc/guarded_page_allocator.cc", "tcmalloc/guarded_page_allocator.h"],
 mech=[("GuardedPageAllocator::Allocate", "tcmalloc/guarded_page_allocator.cc"), ("GuardedPageAllocator::Deallocate", "tcmalloc/guarded_page_allocator.cc")],
 how="Every acyclic path of the pool's operations with its branch facts: slot addresses are compared as polynomials in the slot and page size, placement as linear forms over its masked padding, the fill byte, length and slots of placement against those of the check on free, records by member and slot, and the order of the lock, page protection, record and slot events. The error classification is compared with a decision table over the record's states.",
 note="The choice of allocations to guard (rate limiting, filtering) beyond size and switch is statistical and not decided, nor what the SIGSEGV handler prints."),
dict(id="C16", title="Huge page pool and cache hand every page on once and their totals follow",
 statement="A range of huge pages taken from the pool, the cache or the system is handed on exactly once: to the caller, exactly as long as asked for, or back into a free map, whole or in pieces that make it up exactly. Pages obtained from the system equal those in use plus those in the pool's map; the cache's size equals what its map holds; its usage follows every range taken and given back. The search for a free range never takes a node that is too short, and never gives up while a subtree has one long enough. A request too large to express fails without effect. What the cache gives up to the pool is unbacked first, and is kept in the cache, and not reported as released, when unbacking fails; the size is right before the lock is dropped for that and is not restored from a stale copy. The caller is told whether the memory it gets is backed, and the statistics count every node once in the column of its state.",
 over=["inputs", "schedules", "faults", "histories"], quant="every length, every shape of the free maps, every failure of the system or of unbacking, every order of calls",
 why="Lost or doubly owned huge pages need a particular fragmentation plus a failing system call; a counter that drifts shows only in a later limit decision.",
 files=["tcmalloc/huge_allocator.cc", "tcmalloc/huge_cache.cc", "tcmalloc/huge_pages.h"],
 mech=[("HugeAllocator::Get", "tcmalloc/huge_allocator.cc"), ("HugeCache::ShrinkCache", "tcmalloc/huge_cache.cc"), ("HugeRange", "tcmalloc/huge_pages.h")],
 how="On every acyclic path each range taken (allocator, removed node) and given (insert, release, return value) is a formal difference of its end points; the sum over the path must cancel, using only that a node found for a length and known not to be longer is exactly that long. Counter changes, with reads before and after the unbacking callback told apart, are compared with the lengths taken and given. The search loop's turns are checked for what they know of the child they leave and of the node they keep.",
 note="The treap itself (ordering, longest, merging) is C42. Which node is best and how the cache limit moves (time series) are policy and not decided."),
dict(id="C42", title="The free-range map keeps ranges ordered, merged and their lengths true",
 statement="The map of free huge page ranges holds every range inserted exactly once. A range is merged with a neighbour exactly when the two adjoin, and the result is made up of its parts exactly; otherwise it gets a node of its own, linked in both directions at the side its address calls for and below no node of lower priority. Removing a node puts both its subtrees, joined by address and priority, in its place. The recorded longest range of every subtree follows each insertion, merge and removal up to the root. The total length, the nodes in use and the nodes kept for reuse follow every operation. Looking for the range before a page, the first range, or the next range goes towards it at every node and misses none.",
 over=["inputs", "histories"], quant="every tree shape, range, priority and order of insertions and removals",
 why="Priorities are random and the joining and splitting loops have many shapes; a wrong longest value or link makes free memory invisible only for the one tree shape that meets it.",
 files=["tcmalloc/huge_address_map.cc", "tcmalloc/huge_address_map.h"],
 mech=[("HugeAddressMap::Insert", "tcmalloc/huge_address_map.cc"), ("HugeAddressMap::Remove", "tcmalloc/huge_address_map.cc")],
 how="Inductive steps, checked on every acyclic path between loop headers: loop-carried values are given their roles (current node, link, parent, the two sides' ends) by how they start and are used, and each turn must keep the invariant those roles stand for, using the branch facts for order, priority and nullness. Values stored to a node's longest length are compared as sets of terms with those of its known children.",
 note="That the steps compose into the tree's global invariant is the usual hand argument, written in the rule file's roles; balance (expected depth) is probabilistic and not decided."),
dict(id="C43", title="System memory is reserved per tag, carved disjointly and released truly",
 statement="Memory taken from the system is used only where the system placed it as chosen: inside the addresses of its tag, aligned, never on top of another mapping; a mapping that landed elsewhere, or that no region could be made of, is given back whole. A reservation becomes a region of exactly its size, each tag has its own region and its own next place, and a region replaced was full. A region hands out ranges from the end of its unused part, within its bounds, at least as large and aligned as asked, made accessible first; a refused request changes nothing. Requests that would wrap or exceed a tag's addresses fail. Releasing touches only whole pages inside the range, success is reported exactly if the last attempt the system was asked for succeeded, and failures are counted.",
 over=["inputs", "faults", "histories"], quant="every size, alignment and tag, every outcome of mmap, mprotect, madvise and munlock, every order of requests",
 why="Placement is random and the error paths need a system call to fail or land elsewhere; an overlap or a leaked mapping is invisible until another mapping is corrupted.",
 files=["tcmalloc/internal/system_allocator.h"],
 mech=[("SystemAllocator::MmapAlignedLocked", "tcmalloc/internal/system_allocator.h"), ("SystemAllocator::AllocateFromRegion", "tcmalloc/internal/system_allocator.h"), ("SystemAllocator::Release", "tcmalloc/internal/system_allocator.h")],
 how="Every acyclic path between loop headers of the system allocator's operations. The range handed out is compared with the region's bounds as linear forms under the path's order facts; rounding and alignment are recognised as masks; slots and next places are collected per tag and must be distinct; each mapping is followed from the call to its region, its return or its unmapping; results are tied to the facts about the last system call on the path.",
 note="That the kernel honours its contract, NUMA binding and mapping names are assumed or left out; the probing of kernel features is not decided. Other build configurations' tag layouts (sanitizers) are not analysed."),
dict(id="C44", title="The page heap routes each span to one source and back to it",
 statement="Each span the huge-page-aware page heap makes consists of exactly the pages that one of its parts (filler, regions, huge page cache) handed out for that request, as many as were asked for, recorded and registered in the page map once; a request no part served returns no span and records nothing, and the cache was asked before giving up. Aligned spans come from the start of a huge page. A huge page that is split gets one tracker, from which the span's pages are taken before the rest is offered to others, and the page map leads to it; a whole huge page has none. Freed pages go back once to the part they came from; of a multi-huge-page span the last, partly donated huge page goes back only if it is empty, and with the others only if it is still backed. An emptied tracker is unregistered and its huge page returned, backed or unbacked as it is, before it is freed. Donated and abandoned counts follow. A release asks each part for no more than is still wanted and reports the sum.",
 over=["inputs", "histories", "faults"], quant="every size and alignment, every state of the parts and every outcome of asking them, every free and every release request",
 why="Which part serves a request depends on the heap's history; losing or returning twice a donated huge page needs a slack page that is reused, subreleased and freed in a certain order, and shows as memory given out twice much later.",
 files=["tcmalloc/huge_page_aware_allocator.h"],
 mech=[("HugePageAwareAllocator::AllocRawHugepages", "tcmalloc/huge_page_aware_allocator.h"), ("HugePageAwareAllocator::Delete", "tcmalloc/huge_page_aware_allocator.h"), ("HugePageAwareAllocator::ReleaseHugepage", "tcmalloc/huge_page_aware_allocator.h"), ("HugePageAwareAllocator::ReleaseAtLeastNPages", "tcmalloc/huge_page_aware_allocator.h")],
 how="Every acyclic path of New, NewAligned, Delete, TreatHugepageTrackers, AddRegion and both release operations, with everything inlined except the parts themselves. On each path the parts asked are told apart by the facts about their answers: exactly one may have answered, and the span's pages, length, tracker, page-map entries, counts and records are compared with that answer as linear forms under the path's equalities; frees are classified by the tracker found and by the filler's and regions' answers, and each class has one permitted set of effects.",
 note="What the parts themselves do is C16, C17, C18 and C43. When memory is backed ahead of use and which part is preferred are policy and not judged. That a fresh tracker hands out its first page is taken from C18. Statistics output is not covered."),
dict(id="C20", title="Memory limits release the exact overage; a hard limit is never passed silently",
 statement="When what the allocator keeps backed (system bytes of every part of the heap, less the unmapped ones, plus metadata) exceeds the soft limit, exactly the overage, rounded up to pages, is released; within the limit, or without one, nothing is. If that does not suffice and a hard limit is set, usage is read again and exactly what is then above the hard limit is released; when that fails too, the process ends instead of going on. Each hit of a limit and each success is counted once for its limit, and peak usage is noted whenever it is exceeded. A release asks each part of the heap (cold, normal and sampled, each partition) in turn for what is still wanted, with the reason given; the amount reported, to the caller and to hooks, is the sum of what the parts released, and success means that it covers the request; no part is left out unless enough was released. Huge pages are broken up only after whole ones did not suffice, and under a hard limit only if subrelease is enabled. When the heap hands out pages it took from its cache or the system, the limit is looked at before they are used.",
 over=["inputs", "histories", "faults"], quant="every limit, usage, number of partitions and every answer of the parts of the heap",
 why="The limits are acted upon only when a real heap exceeds them, with parts that release less or more than asked; which of the branches run depends on usage that changes between the two readings.",
 files=["tcmalloc/page_allocator.cc", "tcmalloc/page_allocator.h"],
 mech=[("PageAllocator::ShrinkToUsageLimit", "tcmalloc/page_allocator.cc"), ("PageAllocator::ShrinkHardBy", "tcmalloc/page_allocator.cc"), ("PageAllocator::ReleaseAtLeastNPages", "tcmalloc/page_allocator.h"), ("PageAllocator::stats", "tcmalloc/page_allocator.h")],
 how="Every acyclic path of ShrinkToUsageLimit, ShrinkHardBy, ReleaseAtLeastNPages and stats, with helpers inlined down to the heaps themselves. Usage, overage and remainders are compared as linear forms over the readings on the path; each path must carry the comparison that justifies what it does (release, stop, count, give up). For the loops over partitions the running total is found as the greatest set of loop values that every way in and around keeps equal to the sum of the answers so far, that more is still wanted is an invariant kept on every edge, and which parts have been asked is a must-analysis over the paths.",
 note="That each part releases what it reports is C44; setting the limits is C41. The layout of BackingStats is assumed."),
dict(id="C12", title="The per-CPU cache's slow paths lose and duplicate no object and no capacity",
 statement="Every object the per-CPU cache's slow paths fetch, pop or are given ends in exactly one place: with the caller, in the CPU's list, or in a backing cache of the same class. A refill keeps exactly one object, the one it returns, puts the rest into the list and gives what does not fit back to the backing cache; a refill that fetched nothing returns none. An overflow releases the freed object and everything popped with it, once. A drained list's objects are all released, once each. Never are more objects taken into the local batch than it has places. Exactly one backing cache (sharded or plain, the same for fetching and releasing) is used for a request and its count is passed on. A CPU's list is not used when the CPU is known to be stopped. Capacity is conserved: what is taken from a CPU's slack and not grown by goes back to it; a list that is drained, or shrunk for another, gives its capacity at its class's size; what is stolen from another CPU leaves its capacity exactly as it is added to the taker's; a list grows by no more than the slack obtained pays for.",
 over=["inputs", "schedules", "histories"], quant="every class, batch length, capacity and every number of objects the lists and backing caches accept or supply, including preemption between steps",
 why="The slab's operations accept fewer objects than offered whenever the thread migrates, the list is full or the slab is being resized; a test cannot force these outcomes at each call, and an object or byte of capacity lost that way is invisible.",
 files=["tcmalloc/cpu_cache.h"],
 mech=[("CpuCache::Refill", "tcmalloc/cpu_cache.h"), ("CpuCache::DeallocateSlowNoHooks", "tcmalloc/cpu_cache.h"), ("CpuCache::StealFromOtherCache", "tcmalloc/cpu_cache.h"), ("CpuCache::ResizeCpuSizeClasses", "tcmalloc/cpu_cache.h")],
 how="Every acyclic path, and every way around each loop, of Refill, DeallocateSlowNoHooks, AllocateSlowNoHooks, FetchFromBackingCache, ReleaseToBackingCache, Grow, ShrinkOtherCache, subtract_at_least, DrainHandler, StealCapacityForSizeClassWithinCpu, StealFromOtherCache and ResizeCpuSizeClasses. How many objects the local batch holds is followed as a linear form over the answers of the calls, starting from the loop variable that stands for it; every store, load, fetch, pop, push and release must agree with it, and on leaving it must be zero by the comparisons on the path. Capacity is an account: for each loop the variable holding the sum acquired is searched such that every edge keeps it equal to the sums obtained less those used, and every exit must credit exactly it.",
 note="What the slab's own operations do (restartable sequences in assembler) is not decided; the transfer caches are C10's. Which CPU or class is shrunk or grown, and how much is asked for, is policy. That PushBatch leaves the objects it did not take at the front of the batch is assumed. The counters are relaxed atomics; only that the amounts match is judged. Resizing the slabs is not covered."),
]
NA = []
