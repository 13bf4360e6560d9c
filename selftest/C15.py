R = "tcmalloc/guarded_page_allocator.cc"
M = [
 ("fail-nofree", "bad", R, "      successful_allocations_.LossyAdd(-1);\n      FreeSlot(free_slot);", "      successful_allocations_.LossyAdd(-1);"),
 ("fail-nolock", "bad", R, "      AllocationGuardSpinLockHolder h(guarded_page_lock_);\n      failed_allocations_.LossyAdd(1);", "      failed_allocations_.LossyAdd(1);"),
 ("prot-two", "bad", R, "mprotect(result, page_size_, PROT_READ | PROT_WRITE)", "mprotect(result, 2 * page_size_, PROT_READ | PROT_WRITE)"),
 ("prot-exec", "bad", R, "mprotect(result, page_size_, PROT_READ | PROT_WRITE)", "mprotect(result, page_size_, PROT_READ)"),
 ("prot-size1", "bad", R, "  if (size > 0) {\n    if (mprotect(result", "  if (size > 1) {\n    if (mprotect(result"),
 ("prot-fail-neq", "ok", R, "PROT_READ | PROT_WRITE) == -1) {", "PROT_READ | PROT_WRITE) != 0) {"),
 ("align-before", "bad", R, "    MaybeRightAlign(free_slot, size, alignment, &result);\n  }", "    MaybeRightAlign(free_slot, size, std::align_val_t{0}, &result);\n  }"),
 ("meta-depth", "bad", R, "  d.dealloc_trace.depth = 0;\n", ""),
 ("meta-count", "bad", R, "  d.dealloc_count.store(0, std::memory_order_relaxed);\n", ""),
 ("meta-count-cond", "bad", R, "  d.dealloc_count.store(0, std::memory_order_relaxed);\n", "  if (size > 0) d.dealloc_count.store(0, std::memory_order_relaxed);\n"),
 ("meta-start", "bad", R, "  d.allocation_start = reinterpret_cast<uintptr_t>(result);", "  d.allocation_start = SlotToAddr(free_slot);"),
 ("meta-size", "bad", R, "  d.requested_size = size;\n", "  d.requested_size = std::max<size_t>(size, 1);\n"),
 ("meta-copy", "bad", R, "         stack_trace.depth * sizeof(stack_trace.stack[0]));", "         stack_trace.depth);"),
 ("meta-order", "ok", R, "  d.dealloc_trace.depth = 0;\n  d.requested_size = size;\n", "  d.requested_size = size;\n  d.dealloc_trace.depth = 0;\n"),
 ("filter-twice", "bad", R, "  stacktrace_filter_.Add({stack_trace.stack, stack_trace.depth}, 1);", "  if (size > 0) stacktrace_filter_.Add({stack_trace.stack, stack_trace.depth}, 1);"),
 ("free-order", "bad", R, "  AllocationGuardSpinLockHolder h(guarded_page_lock_);\n  FreeSlot(slot);\n}", "}"),
 ("free-early", "bad", R, "  // Record stack trace. Unwinding the stack is expensive, and holding the\n", "  { AllocationGuardSpinLockHolder h(guarded_page_lock_); FreeSlot(slot); }\n"),
 ("free-nolock", "bad", R, "  AllocationGuardSpinLockHolder h(guarded_page_lock_);\n  FreeSlot(slot);\n}", "  FreeSlot(slot);\n}"),
 ("count-load", "bad", R, "  if (d.dealloc_count.fetch_add(1, std::memory_order_relaxed) != 0) {", "  if (d.dealloc_count.fetch_add(1, std::memory_order_relaxed) > 1) {"),
 ("count-late", "bad", R, "  // On double-free, do not overwrite the original deallocation metadata, so", "  d.dealloc_trace.depth = 0;\n  //"),
 ("close-ask", "bad", R, "    TC_CHECK_EQ(\n        0, mprotect(reinterpret_cast<void*>(page_addr), page_size_, PROT_NONE));", "    mprotect(reinterpret_cast<void*>(page_addr), page_size_, PROT_NONE);"),
 ("close-read", "bad", R, "page_size_, PROT_NONE));", "page_size_, PROT_READ));"),
 ("close-ptr", "bad", R, "0, mprotect(reinterpret_cast<void*>(page_addr), page_size_, PROT_NONE));", "0, mprotect(ptr, page_size_, PROT_NONE));"),
 ("check-late", "bad", R, "    if (WriteOverflowOccurred(slot)) {\n      d.write_overflow_detected = true;\n    }\n", ""),
 ("check-noreturn", "bad", R, "    if (d.write_overflow_detected) {\n      ForceTouchPage(ptr);\n    }", ""),
 ("match-none", "bad", R, "absl::bit_cast<void*>(d.allocation_start) != ptr)) {", "absl::bit_cast<void*>(d.allocation_start) > ptr)) {"),
 ("filter-minus", "bad", R, "  stacktrace_filter_.Add({d.alloc_trace.stack, d.alloc_trace.depth}, -1);", "  stacktrace_filter_.Add({d.dealloc_trace.stack, d.dealloc_trace.depth}, -1);"),
 ("reserve-full", "bad", R, "  if (GetNumAvailablePages() == 0) {", "  if (GetNumAvailablePages() + 1 == 0) {"),
 ("reserve-allow", "bad", R, "  if (!initialized_ || !allow_allocations_) return -1;", "  if (!initialized_) return -1;"),
 ("reserve-mark", "bad", R, "  used_pages_.SetBit(slot);\n\n", ""),
 ("reserve-high", "bad", R, "  if (nalloced > high_allocated_pages_", "  if (nalloced > 1 + high_allocated_pages_"),
 ("free-count", "bad", R, "  allocated_pages_.store(allocated_pages_.load(std::memory_order_relaxed) - 1,\n                         std::memory_order_relaxed);", ""),
 ("find-off", "bad", R, "  if (slot >= 0) return slot;\n", "  if (slot > 0) return slot;\n"),
 ("find-range", "bad", R, "  const size_t idx = rand_.Next() % total_pages_;", "  const size_t idx = rand_.Next() % kGpaMaxPages;"),
 ("find-next", "bad", R, "  slot = used_pages_.FindClear(idx);", "  slot = used_pages_.FindClear(idx + 1 < total_pages_ ? idx + 1 : 0);"),
 ("addr-odd", "bad", R, "  return first_page_addr_ + 2 * slot * page_size_;", "  return first_page_addr_ + (2 * slot + 1) * page_size_;"),
 ("addr-form", "ok", R, "  return first_page_addr_ + 2 * slot * page_size_;", "  const size_t stride = page_size_ * 2;\n  return first_page_addr_ + slot * stride;"),
 ("slot-form", "ok", R, "  int slot = offset / page_size_ / 2;", "  int slot = offset / (2 * page_size_);"),
 ("right-mask", "bad", R, "      std::max(static_cast<size_t>(alignment), default_alignment) - 1;", "      std::min(static_cast<size_t>(alignment), default_alignment) - 1;"),
 ("right-default", "bad", R, "  size_t default_alignment =\n      std::min(absl::bit_ceil(size),", "  size_t default_alignment =\n      std::min<size_t>(std::min<size_t>(absl::bit_ceil(size), 8),"),
 ("right-fill", "bad", R, "  memset(reinterpret_cast<void*>(adjusted_ptr + size),\n         GetWriteOverflowMagic(slot), magic_size);", "  if (alignment_padding > 1) memset(reinterpret_cast<void*>(adjusted_ptr + size),\n         GetWriteOverflowMagic(slot), magic_size);"),
 ("right-fill16", "bad", R, "  size_t magic_size = std::min(alignment_padding, kMagicSize);", "  size_t magic_size = std::min<size_t>(alignment_padding, 16);"),
 ("right-fill-if", "ok", R, "  size_t magic_size = std::min(alignment_padding, kMagicSize);", "  size_t magic_size = alignment_padding;\n  if (magic_size > kMagicSize) magic_size = kMagicSize;"),
 ("right-round", "ok", R, "  uintptr_t alignment_padding = adjusted_ptr & mask;\n  adjusted_ptr -= alignment_padding;", "  const uintptr_t raw = adjusted_ptr;\n  adjusted_ptr &= ~mask;\n  uintptr_t alignment_padding = raw - adjusted_ptr;"),
 ("over-magic", "bad", R, "  uint8_t magic = GetWriteOverflowMagic(slot);", "  uint8_t magic = GetWriteOverflowMagic(slot + 2);"),
 ("over-from", "bad", R, "  for (uintptr_t p = alloc_end; p < magic_end; ++p) {", "  for (uintptr_t p = alloc_end + 1; p < magic_end; ++p) {"),
 ("over-to", "bad", R, "  uintptr_t magic_end = std::min(page_end, alloc_end + kMagicSize);", "  uintptr_t magic_end = std::min(page_end, alloc_end + kMagicSize / 2);"),
 ("over-step", "bad", R, "p < magic_end; ++p) {", "p < magic_end; p += 2) {"),
 ("over-odd", "bad", R, "  if (!ShouldRightAlign(slot)) return false;\n", "  if (ShouldRightAlign(slot)) return false;\n"),
 ("err-order", "bad", R, "  if (dealloc_count == 1) {\n    return GuardedAllocationsErrorType::kUseAfterFree;\n  }\n  if (addr < d.allocation_start) {\n    return GuardedAllocationsErrorType::kBufferUnderflow;\n  }", "  if (addr < d.allocation_start) {\n    return GuardedAllocationsErrorType::kBufferUnderflow;\n  }\n  if (dealloc_count == 1) {\n    return GuardedAllocationsErrorType::kUseAfterFree;\n  }"),
 ("err-end", "bad", R, "  if (addr >= d.allocation_start + d.requested_size) {", "  if (addr > d.allocation_start + d.requested_size) {"),
 ("err-ge", "ok", R, "  if (dealloc_count == 1) {\n    return GuardedAllocationsErrorType::kUseAfterFree;", "  if (dealloc_count != 0) {\n    return GuardedAllocationsErrorType::kUseAfterFree;"),
 ("near-half", "bad", R, "  if ((offset / kHalfPageSize) % 2 == 0) {", "  if ((offset / kHalfPageSize) % 2 != 0) {"),
 ("near-last", "bad", R, "      first_page_addr_ + 2 * (total_pages_ - 1) * page_size_;", "      first_page_addr_ + 2 * total_pages_ * page_size_;"),
 ("map-len", "bad", R, "  size_t len = (2 * total_pages_ + 1) * page_size_;", "  size_t len = 2 * total_pages_ * page_size_;"),
 ("map-first", "bad", R, "  first_page_addr_ = GetPageAddr(pages_base_addr_ + page_size_);", "  first_page_addr_ = GetPageAddr(pages_base_addr_);"),
 ("map-records", "bad", R, "  for (size_t i = 0; i < total_pages_; ++i) {\n    new", "  for (size_t i = 1; i < total_pages_; ++i) {\n    new"),
 ("map-ensure", "bad", R, "Ensure(Range(page, page_len))", "Ensure(Range(page, Length(1)))"),
 ("try-page", "bad", R, "  if (num_pages > Length(1)) {", "  if (num_pages > Length(2)) {"),
 ("try-off", "bad", R, "  if (guarded_sampling_interval < 0) {", "  if (guarded_sampling_interval < -1) {"),
 ("try-eq", "ok", R, "  if (num_pages > Length(1)) {", "  if (num_pages >= Length(2)) {"),
]
