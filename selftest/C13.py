TCC = "tcmalloc/thread_cache.cc"
MO = "tcmalloc/metadata_object_allocator.h"
CF = "tcmalloc/central_freelist.h"
GP = "tcmalloc/guarded_page_allocator.cc"
GS = "tcmalloc/global_stats.cc"
TI = "tcmalloc/transfer_cache_internals.h"
AR = "tcmalloc/arena.h"
DP = "tcmalloc/deallocation_profiler.cc"
PM = "tcmalloc/pagemap.h"
HA = "tcmalloc/huge_page_aware_allocator.h"
HF = "tcmalloc/huge_page_filler.h"
AS = "tcmalloc/allocation_sampling.h"
M = [
 ("revert-extract", "bad", GS, "      if (use_per_cpu_cache) {\n        class_count", "      PageHeapSpinLockHolder l;\n      if (UsePerCpuCache(tc_globals)) {\n        class_count"),
 ("limit-unlocked", "bad", TCC, "void ThreadCache::IncreaseCacheLimit() {\n  AllocationGuardSpinLockHolder l(threadcache_lock_);\n", "void ThreadCache::IncreaseCacheLimit() {\n"),
 ("metadel-unlocked", "bad", MO, "  void LockAndDeleteMemory(T* p) ABSL_ATTRIBUTE_NONNULL() {\n    AllocationGuardSpinLockHolder l(metadata_lock_);\n", "  void LockAndDeleteMemory(T* p) ABSL_ATTRIBUTE_NONNULL() {\n"),
 ("populate-forgets", "bad", CF, "  if (ABSL_PREDICT_FALSE(span == nullptr)) {\n    lock_.lock();\n    return 0;", "  if (ABSL_PREDICT_FALSE(span == nullptr)) {\n    return 0;"),
 ("populate-late", "bad", CF, "  lock_.lock();\n\n  // Update the histogram once we populate the span.\n  const uint16_t allocated = result;\n  TC_ASSERT_EQ(allocated, span->Allocated());\n  const uint8_t bitwidth = absl::bit_width(allocated);\n  RecordSpanUtil(bitwidth, /*increase=*/true);\n  if (!span_empty) {\n    const uint8_t index = IndexFor(allocated, bitwidth);\n    nonempty_.Add(span, index);\n    span->set_nonempty_index(index);\n  }\n",
  "  const uint16_t allocated = result;\n  const uint8_t bitwidth = absl::bit_width(allocated);\n  RecordSpanUtil(bitwidth, /*increase=*/true);\n  if (!span_empty) {\n    const uint8_t index = IndexFor(allocated, bitwidth);\n    nonempty_.Add(span, index);\n    span->set_nonempty_index(index);\n  }\n  lock_.lock();\n"),
 ("gwp-free-unlocked", "bad", GP, "  AllocationGuardSpinLockHolder h(guarded_page_lock_);\n  FreeSlot(slot);", "  FreeSlot(slot);"),
 ("gwp-twice", "bad", GP, "  AllocationGuardSpinLockHolder h(guarded_page_lock_);\n  FreeSlot(slot);", "  AllocationGuardSpinLockHolder h(guarded_page_lock_);\n  if (slot == 0) { AllowAllocations(); }\n  FreeSlot(slot);"),
 ("report-under-tc", "bad", TCC, "    if (next_memory_steal_ == heap) next_memory_steal_ = heap->next_;\n    if (next_memory_steal_ == nullptr)", "    heap->Cleanup();\n    { AllocationGuardSpinLockHolder l2(threadcache_lock_); }\n    if (next_memory_steal_ == heap) next_memory_steal_ = heap->next_;\n    if (next_memory_steal_ == nullptr)"),
 ("arena-stats-unlocked", "bad", AR, None, None),
 ("profilers-reset", "bad", DP, "void DeallocationProfilerList::ReportMalloc(\n    const tcmalloc_internal::StackTrace& stack_trace) {\n  AllocationGuardSpinLockHolder h(profilers_lock_);\n", "void DeallocationProfilerList::ReportMalloc(\n    const tcmalloc_internal::StackTrace& stack_trace) {\n"),
 ("profilers-shrunk", "bad", DP, "  AllocationGuardSpinLockHolder h(profilers_lock_);\n  DeallocationProfiler** link = &first_;\n  DeallocationProfiler* cur = first_;\n", "  DeallocationProfiler** link = &first_;\n  DeallocationProfiler* cur = first_;\n  AllocationGuardSpinLockHolder h(profilers_lock_);\n"),
 ("recursive-report", "bad", DP, "  while (cur != nullptr) {\n    cur->ReportFree(handle);\n", "  while (cur != nullptr) {\n    cur->ReportFree(handle);\n    if (cur->next_ == cur) Remove(cur);\n"),
 ("tc-order", "bad", TI, None, None),
 ("ok-block", "ok", GP, "  AllocationGuardSpinLockHolder h(guarded_page_lock_);\n  FreeSlot(slot);", "  {\n    AllocationGuardSpinLockHolder h(guarded_page_lock_);\n    FreeSlot(slot);\n  }"),
 ("ok-manual", "ok", TCC, "void ThreadCache::IncreaseCacheLimit() {\n  AllocationGuardSpinLockHolder l(threadcache_lock_);\n  IncreaseCacheLimitLocked();\n", "void ThreadCache::IncreaseCacheLimit() {\n  threadcache_lock_.lock();\n  IncreaseCacheLimitLocked();\n  threadcache_lock_.unlock();\n"),
 ("ok-helper", "ok", TCC, "    if (heap->next_ != nullptr) heap->next_->prev_ = heap->prev_;\n    if (heap->prev_ != nullptr) heap->prev_->next_ = heap->next_;\n    if (thread_heaps_ == heap) thread_heaps_ = heap->next_;\n    thread_heap_count_--;\n", "    auto unlink = [](ThreadCache* h) ABSL_NO_THREAD_SAFETY_ANALYSIS {\n    if (h->next_ != nullptr) h->next_->prev_ = h->prev_;\n    if (h->prev_ != nullptr) h->prev_->next_ = h->next_;\n    if (thread_heaps_ == h) thread_heaps_ = h->next_;\n    thread_heap_count_--; };\n    unlink(heap);\n"),
 ("ok-early-return", "ok", TCC, "void ThreadCache::IncreaseCacheLimitLocked() {\n", "void ThreadCache::IncreaseCacheLimitLocked() {\n  if (max_size_ == 12345) return;\n"),
]
M = [m for m in M if m[3] is not None]
