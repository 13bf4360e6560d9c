R = "tcmalloc/internal/system_allocator.h"
M = [
 ("carve-free", "bad", R, "  free_size_ -= actual_size;\n", "  free_size_ -= size;\n"),
 ("carve-low", "bad", R, "  if (result < start_) return {nullptr, 0};  // Out of memory in region.\n", ""),
 ("carve-under", "bad", R, "  if (result > end) return {nullptr, 0};  // Underflow.\n", ""),
 ("carve-align", "bad", R, "  alignment = std::max(alignment, kHugePageSize);\n\n  // Tries", "  alignment = kHugePageSize;\n\n  // Tries"),
 ("carve-size", "bad", R, "  return {result_ptr, actual_size};", "  return {result_ptr, size};"),
 ("carve-prot", "bad", R, "mprotect(result_ptr, actual_size, PROT_READ | PROT_WRITE)", "mprotect(result_ptr, size, PROT_READ | PROT_WRITE)"),
 ("carve-early", "bad", R, ["  TC_ASSERT_EQ(result % GetPageSize(), 0);\n", "  free_size_ -= actual_size;\n"], ["  free_size_ = free_size_ - actual_size;\n", ""]),
 ("carve-order", "ok", R, "  size_t actual_size = end - result;\n", "  const size_t actual_size = end - result;\n  (void)hint_;\n"),
 ("carve-set", "ok", R, "  free_size_ -= actual_size;\n", "  free_size_ = result - start_;\n"),
 ("res-munmap", "bad", R, "    if (!region) {\n      munmap(ptr, size);\n", "    if (!region) {\n"),
 ("res-part", "bad", R, "    munmap(ptr, min_mmap_size_);\n", "    munmap(ptr, request_size);\n"),
 ("res-slot", "bad", R, "            return &sampled_region_[1];", "            return &sampled_region_[0];"),
 ("res-cold", "bad", R, "            return &cold_region_;", "            return &normal_region_[0];"),
 ("res-small", "bad", R, "if (request_size > min_mmap_size_ || alignment > min_mmap_size_) {", "if (request_size > min_mmap_size_) {"),
 ("res-size", "bad", R, "region = region_factory_->Create(ptr, min_mmap_size_, region_type);", "region = region_factory_->Create(ptr, min_mmap_size_ << 1, region_type);"),
 ("res-bound", "bad", R, "  if (request_size > kTagFree || alignment > kTagFree) return {nullptr, 0};\n", "  if (request_size > kTagFree) return {nullptr, 0};\n"),
 ("res-align", "bad", R, "void* ptr = MmapAlignedLocked(size, alignment, tag);", "void* ptr = MmapAlignedLocked(size, kHugePageSize, tag);"),
 ("res-replace", "bad", R, "    if (result.first) return result;\n", "    if (result.first && result.second == request_size) return result;\n"),
 ("res-tmp", "ok", R, "  return region->Alloc(request_size, alignment);\n", "  AddressRegion* const fresh = region;\n  return fresh->Alloc(request_size, alignment);\n"),
 ("map-tag", "bad", R, "      GetMemoryTag(reinterpret_cast<void*>(next_addr + size - 1)) != tag) {", "      false) {"),
 ("map-al", "bad", R, "  if (!next_addr || !IsAlignedTo(next_addr, alignment) ||", "  if (!next_addr ||"),
 ("map-next", "bad", R, "      next_addr += size;\n", "      next_addr += alignment;\n"),
 ("map-hint", "bad", R, "    if (result == hint) {", "    if (result != MAP_FAILED) {"),
 ("map-keep", "bad", R, "      if (int err = munmap(result, size)) {", "      if (int err = munmap(result, alignment)) {"),
 ("map-share", "bad", R, "            return &next_cold_addr_;", "            return &next_metadata_addr_;"),
 ("map-fixed", "bad", R, "    int flags = MAP_PRIVATE | MAP_ANONYMOUS | map_fixed_noreplace_flag;", "    int flags = MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | map_fixed_noreplace_flag;"),
 ("map-helper", "ok", R, "    if (result == hint) {", "    const bool placed = result == hint;\n    if (placed) {"),
 ("hint-size", "bad", R, "  alignment = absl::bit_ceil(std::max(alignment, size));", "  alignment = absl::bit_ceil(alignment);"),
 ("hint-bits", "bad", R, "    addr = rnd_ & kAddrMask & ~(alignment - 1) & ~kTagMask;\n    addr |= static_cast<uintptr_t>(tag) << kTagShift;\n  } while (addr == 0);", "    addr = rnd_ & kAddrMask & ~(alignment - 1);\n    addr |= static_cast<uintptr_t>(tag) << kTagShift;\n  } while (addr == 0);"),
 ("hint-expr", "ok", R, "    addr = rnd_ & kAddrMask & ~(alignment - 1) & ~kTagMask;\n    addr |= static_cast<uintptr_t>(tag) << kTagShift;\n  } while (addr == 0);", "    const uintptr_t where = rnd_ & ~kTagMask & kAddrMask;\n    addr = (static_cast<uintptr_t>(tag) << kTagShift) | (where & ~(alignment - 1));\n  } while (!addr);"),
 ("rel-up", "bad", R, "  new_start = (new_start + GetPageSize() - 1) & ~pagemask;", "  new_start = new_start & ~pagemask;"),
 ("rel-end", "bad", R, "  new_end = new_end & ~pagemask;", "  new_end = (new_end + pagemask) & ~pagemask;"),
 ("rel-empty", "bad", R, "  if (new_end <= new_start) {", "  if (new_end < new_start) {"),
 ("rel-second", "bad", R, "    if (ret == 0 &&\n        ReleasePages(new_ptr, new_length) == ReleaseStatus::kSuccess) {", "    if (ret == 0 &&\n        ReleasePages(new_ptr, new_length) != ReleaseStatus::kFailure) {"),
 ("rel-count", "bad", R, "  release_errors_.fetch_add(1, std::memory_order_relaxed);\n", ""),
 ("rel-len", "ok", R, "  size_t new_length = new_end - new_start;\n", "  const size_t new_length = new_end - reinterpret_cast<size_t>(new_ptr);\n"),
 ("pg-ret", "bad", R, "  if (ret == 0) {\n    return ReleaseStatus::kSuccess;\n  }\n\n  return status;", "  if (ret == 0 || errno == EINVAL) {\n    return ReleaseStatus::kSuccess;\n  }\n\n  return status;"),
 ("pg-again", "bad", R, "      ret = madvise(start, length, advice);\n    } while (ret == -1 && errno == EAGAIN);", "      ret = madvise(start, length, advice);\n    } while (ret == -1);"),
 ("pg-part", "bad", R, "  if ((s & mask) != 0 || (e & mask) != 0) {", "  if ((s & mask) != 0) {"),
 ("col-ret", "bad", R, "  return {ret == 0, errno};", "  return {ret <= 0, errno};"),
 ("col-max", "bad", R, "           attempts < kMaxAttempts);", "           attempts < kMaxAttempts * 100);"),
 ("make-hint", "bad", R, "      MmapRegion(reinterpret_cast<uintptr_t>(start), size, hint);", "      MmapRegion(reinterpret_cast<uintptr_t>(start), size + kHugePageSize, hint);"),
 ("fac-keep", "bad", R, "  DiscardMappedRegions();\n  region_factory_ = factory;", "  region_factory_ = factory;"),
 ("al-wrap", "bad", R, "  if (bytes + alignment < bytes) return {nullptr, 0};\n", ""),
 ("al-page", "bad", R, "  alignment = std::max(alignment, GetPageSize());\n", "  if (alignment == 0) alignment = GetPageSize() / 2;\n"),
]
