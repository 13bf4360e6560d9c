A = "tcmalloc/arena.cc"
H = "tcmalloc/arena.h"
O = "tcmalloc/metadata_object_allocator.h"
M = [
 ("align", "bad", A, "return misalignment != 0 ? align - misalignment : 0;", "return misalignment != 0 ? misalignment : 0;"),
 ("nopad-check", "bad", A, "if (ABSL_PREDICT_FALSE(free_avail_ < alignment_bytes + bytes)) {", "if (ABSL_PREDICT_FALSE(free_avail_ < bytes)) {"),
 ("stale-pad", "bad", A, "    AllocSlow(bytes, align);\n    alignment_bytes = AlignmentBytes(free_area_, align);\n", "    AllocSlow(bytes, align);\n"),
 ("noavail", "bad", A, "  free_avail_ -= alignment_bytes;\n", ""),
 ("noalloc", "bad", A, "  bytes_allocated_ += alignment_bytes;\n", ""),
 ("before", "bad", A, "  char* result = free_area_;\n  free_area_ += bytes;", "  free_area_ += bytes;\n  char* result = free_area_;"),
 ("stash-full", "bad", A, "b->size = free_avail_ - block_align_bytes;", "b->size = free_avail_;"),
 ("stash-pad", "bad", A, "    bytes_unavailable_ += block_align_bytes;\n", ""),
 ("stash-chain", "bad", A, "    b->next = freelist_;", "    b->next = nullptr;"),
 ("stash-cap", "bad", A, "  if (freelist_blocks_ < kMaxFreelistBlocks &&\n      free_avail_ >=", "  if (free_avail_ >="),
 ("stash-cap256", "bad", H, "kMaxFreelistBlocks = 100", "kMaxFreelistBlocks = 256"),
 ("stash-unavail", "bad", A, "    bytes_unavailable_ += free_avail_;\n", ""),
 ("stash-keep", "bad", A, "  free_area_ = nullptr;\n  free_avail_ = 0;\n", "  free_area_ = nullptr;\n"),
 ("pop-nopad", "bad", A, "if (avail < align_bytes + bytes) {", "if (avail < bytes) {"),
 ("pop-nounlink", "bad", A, "      prev->next = cur->next;\n", ""),
 ("pop-headalways", "bad", A, "    if (prev == nullptr) {\n      freelist_ = cur->next;\n    } else {\n      prev->next = cur->next;\n    }", "    freelist_ = cur->next;"),
 ("pop-noprev", "bad", A, "      prev = cur;\n      cur = cur->next;", "      if (prev == nullptr) prev = cur;\n      cur = cur->next;"),
 ("pop-count", "bad", A, "    freelist_blocks_--;\n", ""),
 ("pop-bytes", "bad", A, "freelist_bytes_unallocated_ -= cur->size;", "freelist_bytes_unallocated_ -= bytes;"),
 ("ask", "bad", A, "size_t ask = bytes > kAllocIncrement ? bytes : kAllocIncrement;", "size_t ask = kAllocIncrement;"),
 ("sysalign", "bad", A, "ask, std::max(kPageSize, align), MemoryTag", "ask, kPageSize, MemoryTag"),
 ("systag", "bad", A, "MemoryTag::kMetadata", "MemoryTag::kNormal"),
 ("noblocks", "bad", A, "  blocks_++;\n", ""),
 ("availask", "bad", A, "  free_avail_ = actual_size;", "  free_avail_ = ask + kAllocIncrement;"),
 ("nostash", "bad", A, "  StashRemainingFreeArea();\n\n", ""),
 ("popsize", "bad", A, "    free_avail_ = b->size;\n", "    free_avail_ = kAllocIncrement;\n"),
 ("stats", "bad", H, "s.bytes_unallocated = free_avail_ + freelist_bytes_unallocated_;", "s.bytes_unallocated = free_avail_;"),
 ("update", "bad", H, "bytes_nonresident_ += nonresident;", "bytes_nonresident_ += allocated;"),
 ("unlocked-alloc", "bad", A, "  AllocationGuardSpinLockHolder l(arena_lock_);\n\n  size_t alignment_bytes", "  size_t alignment_bytes"),
 ("obj-noinuse", "bad", O, "    stats_.in_use++;\n    if (ABSL_PREDICT_FALSE(result == nullptr)) {", "    if (ABSL_PREDICT_FALSE(result == nullptr)) {\n      stats_.in_use++;"),
 ("obj-nopop", "bad", O, "    free_list_ = *(reinterpret_cast<T**>(free_list_));\n", ""),
 ("obj-nolink", "bad", O, "    *(reinterpret_cast<void**>(p)) = free_list_;\n", ""),
 ("obj-del-count", "bad", O, "    stats_.in_use--;\n", "    stats_.total--;\n"),
 ("obj-unlocked", "bad", O, "  void LockAndDeleteMemory(T* p) ABSL_ATTRIBUTE_NONNULL() {\n    AllocationGuardSpinLockHolder l(metadata_lock_);\n", "  void LockAndDeleteMemory(T* p) ABSL_ATTRIBUTE_NONNULL() ABSL_NO_THREAD_SAFETY_ANALYSIS {\n"),
 ("obj-size", "bad", O, "return NewWithSize(sizeof(T),", "return NewWithSize(sizeof(T) - 8,"),
 ("ok-align", "ok", A, "  const size_t misalignment = reinterpret_cast<uintptr_t>(area) % align;\n  return misalignment != 0 ? align - misalignment : 0;", "  const size_t extra = reinterpret_cast<uintptr_t>(area) % align;\n  if (extra == 0) return 0;\n  return align - extra;"),
 ("ok-once", "ok", A, "  free_area_ += alignment_bytes;\n  free_avail_ -= alignment_bytes;\n", "  const size_t total = alignment_bytes + bytes;\n  free_area_ += alignment_bytes;\n  free_avail_ -= total - bytes;\n"),
 ("ok-order", "ok", A, "    freelist_blocks_--;\n    freelist_bytes_unallocated_ -= cur->size;", "    freelist_bytes_unallocated_ -= cur->size;\n    --freelist_blocks_;"),
 ("ok-stash", "ok", A, "    freelist_bytes_unallocated_ += b->size;", "    freelist_bytes_unallocated_ += free_avail_ - block_align_bytes;"),
 ("ok-ask", "ok", A, "size_t ask = bytes > kAllocIncrement ? bytes : kAllocIncrement;", "size_t ask = std::max<size_t>(bytes, kAllocIncrement);"),
 ("ok-pop", "ok", A, "    if (avail < align_bytes + bytes) {\n      prev = cur;\n      cur = cur->next;\n      continue;\n    }", "    const bool fits = avail >= align_bytes + bytes;\n    if (!fits) {\n      prev = cur;\n      cur = cur->next;\n      continue;\n    }"),
 ("ok-obj", "ok", O, "    T* result = free_list_;\n    stats_.in_use++;\n    if (ABSL_PREDICT_FALSE(result == nullptr)) {", "    ++stats_.in_use;\n    T* result = free_list_;\n    if (ABSL_PREDICT_FALSE(!result)) {"),
]
