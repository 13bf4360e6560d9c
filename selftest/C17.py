R = "tcmalloc/huge_page_tracker.h"
M = [
 ("get-count-order", "bad", R, "    unbacked = released_by_page_.CountBits(index, n.raw_num());\n    released_by_page_.ClearRange(index, n.raw_num());", "    released_by_page_.ClearRange(index, n.raw_num());\n    unbacked = released_by_page_.CountBits(index, n.raw_num());"),
 ("get-clear-len", "bad", R, "    released_by_page_.ClearRange(index, n.raw_num());", "    released_by_page_.ClearRange(index, unbacked);"),
 ("get-nocount", "bad", R, "    released_count_ -= unbacked;\n", ""),
 ("get-gate", "bad", R, "if (ABSL_PREDICT_FALSE(released_count_ > 0)) {\n    unbacked", "if (ABSL_PREDICT_FALSE(released_count_ > 1)) {\n    unbacked"),
 ("get-nogate", "ok", R, "if (ABSL_PREDICT_FALSE(released_count_ > 0)) {\n    unbacked", "{\n    unbacked"),
 ("get-page", "bad", R, "  return PageAllocation{location_.first_page() + Length(index),\n                        Length(unbacked)};", "  return PageAllocation{location_.first_page() + Length(unbacked),\n                        Length(index)};"),
 ("get-unbacked", "bad", R, "                        Length(unbacked)};", "                        Length(released_count_)};"),
 ("get-objects", "bad", R, "  num_objects_ += span_alloc_info.objects_per_span;\n", "  num_objects_ += 1;\n"),
 ("get-late", "ok", R, "  num_objects_ += span_alloc_info.objects_per_span;\n\n  TC_ASSERT_EQ(released_by_page_.CountBits(), released_count_);\n\n  size_t unbacked = 0;", "  size_t unbacked = 0;\n  num_objects_ += span_alloc_info.objects_per_span;"),
 ("put-index", "bad", R, "  free_.Unmark(index.raw_num(), r.n.raw_num());", "  free_.Unmark(index.raw_num() + 1, r.n.raw_num());"),
 ("put-len", "bad", R, "  free_.Unmark(index.raw_num(), r.n.raw_num());", "  free_.Unmark(index.raw_num(), 1);"),
 ("put-objects", "bad", R, "  num_objects_ -= span_alloc_info.objects_per_span;\n", ""),
 ("put-clear", "bad", R, "  free_.Unmark(index.raw_num(), r.n.raw_num());", "  free_.Unmark(index.raw_num(), r.n.raw_num());\n  released_by_page_.ClearRange(index.raw_num(), r.n.raw_num());"),
 ("rel-success", "bad", R, "    if (ABSL_PREDICT_TRUE(success)) {\n      unbroken_ = false;\n    }\n    return success;", "    unbroken_ = false;\n    return true;"),
 ("rel-broken", "bad", R, "    if (ABSL_PREDICT_TRUE(success)) {\n      unbroken_ = false;\n    }\n    return success;", "    return success;"),
 ("rel-end", "bad", R, "size_t end = std::min(free_index + free_n, index + n);", "size_t end = free_index + free_n;"),
 ("rel-end2", "bad", R, "size_t end = std::min(free_index + free_n, index + n);", "size_t end = index + n;"),
 ("rel-end-if", "ok", R, "size_t end = std::min(free_index + free_n, index + n);", "size_t end = free_index + free_n;\n      if (end > index + n) end = index + n;"),
 ("rel-from", "bad", R, "      PageId p = location_.first_page() + Length(free_index);", "      PageId p = location_.first_page() + Length(index);"),
 ("rel-mark-always", "bad", R, "        released_by_page_.SetRange(free_index, length);\n        count += length;\n      }", "        count += length;\n      }\n      released_by_page_.SetRange(free_index, length);"),
 ("rel-count-always", "bad", R, "        released_by_page_.SetRange(free_index, length);\n        count += length;\n      }", "        released_by_page_.SetRange(free_index, length);\n      }\n      count += length;"),
 ("rel-mark-n", "bad", R, "        released_by_page_.SetRange(free_index, length);", "        released_by_page_.SetRange(free_index, free_n);"),
 ("rel-skip-n", "bad", R, "      index = end;\n    } else {", "      index += n;\n    } else {"),
 ("rel-step", "bad", R, "      index += n;\n    }\n  }\n\n  released_count_ += count;", "      index += n + 1;\n    }\n  }\n\n  released_count_ += count;"),
 ("rel-over", "bad", R, "        free_index < index + n) {", "        free_index <= index + n) {"),
 ("rel-under", "bad", R, "        free_index < index + n) {", "        free_index + 1 < index + n) {"),
 ("rel-backed", "bad", R, "  if (count > 0) {\n    hugepage_residency_state_.maybe_hugepage_backed = false;\n  }", ""),
 ("rel-backed-1", "bad", R, "  if (count > 0) {\n    hugepage_residency_state_", "  if (count > 1) {\n    hugepage_residency_state_"),
 ("rel-set", "bad", R, "  released_count_ += count;\n  if", "  released_count_ = count;\n  if"),
 ("rel-break", "bad", R, "        count += length;\n      }\n\n      index = end;", "        count += length;\n      } else {\n        break;\n      }\n\n      index = end;"),
 ("mark-used", "bad", R, "auto to_release = (~free) & (~released_by_page_) & unbacked;", "auto to_release = (~released_by_page_) & unbacked;"),
 ("mark-again", "bad", R, "auto to_release = (~free) & (~released_by_page_) & unbacked;", "auto to_release = (~free) & unbacked;"),
 ("mark-demorgan", "ok", R, "auto to_release = (~free) & (~released_by_page_) & unbacked;", "auto to_release = unbacked & ~(free | released_by_page_);"),
 ("mark-overwrite", "bad", R, "released_by_page_ = released_by_page_ | to_release;", "released_by_page_ = to_release;"),
 ("mark-early", "ok", R, "  released_by_page_ = released_by_page_ | to_release;\n\n  released_count_ += to_release.CountBits();", "  const size_t k = to_release.CountBits();\n  released_count_ += k;\n  released_by_page_ = to_release | released_by_page_;"),
 ("mark-count", "bad", R, "  released_count_ += to_release.CountBits();", "  released_count_ += unbacked.CountBits();"),
 ("mark-ret", "bad", R, "  return Length(to_release.CountBits());", "  return Length(released_count_);"),
 ("mark-broken", "bad", R, "  unbroken_ = false;\n  TC_ASSERT_LE(Length(released_count_), kPagesPerHugePage);", "  TC_ASSERT_LE(Length(released_count_), kPagesPerHugePage);"),
 ("col-look", "bad", R, "  {\n    PageHeapSpinLockHolder l;\n    // If the tracker is in the released state, we do no want to collapse it.\n    if (released()) return {.success = false, .error_number = 0};", "  if (released()) return {.success = false, .error_number = 0};\n  {\n    PageHeapSpinLockHolder l;"),
 ("col-nolook", "bad", R, "    if (released()) return {.success = false, .error_number = 0};\n", ""),
 ("col-left", "bad", R, "    TC_ASSERT(!released());\n    SetBeingCollapsed(/*value=*/false);", "    if (success.success) SetBeingCollapsed(/*value=*/false);"),
 ("col-noset", "bad", R, "    SetBeingCollapsed(/*value=*/true);\n  }", "  }"),
 ("col-range", "bad", R, "      collapse(Range(location_.first_page(), kPagesPerHugePage));", "      collapse(Range(location_.first_page(), used_pages()));"),
 ("col-locked", "bad", R, "    SetBeingCollapsed(/*value=*/true);\n  }\n\n  MemoryModifyStatus success =\n      collapse(Range(location_.first_page(), kPagesPerHugePage));\n\n  {\n    PageHeapSpinLockHolder l;", "    SetBeingCollapsed(/*value=*/true);\n  }\n\n  MemoryModifyStatus success;\n  {\n    PageHeapSpinLockHolder l;\n    success = collapse(Range(location_.first_page(), kPagesPerHugePage));"),
 ("span-state", "bad", R, "      end = is_released ? released_by_page_.FindClear(index + 1)\n                        : released_by_page_.FindSet(index + 1);", "      end = released_by_page_.FindSet(index + 1);"),
 ("span-last", "bad", R, "if (index >= kPagesPerHugePage.raw_num() - 1) {", "if (index >= kPagesPerHugePage.raw_num() - 2) {"),
 ("span-min", "bad", R, "    n = std::min(end - index, n);\n    TC_ASSERT_GT", "    n = end - index;\n    TC_ASSERT_GT"),
 ("span-swap", "bad", R, "          small->returned_length[n]++;\n        } else {\n          small->normal_length[n]++;", "          small->normal_length[n]++;\n        } else {\n          small->returned_length[n]++;"),
 ("span-idx", "bad", R, "          small->normal_length[n]++;", "          small->normal_length[n - 1]++;"),
 ("span-large", "bad", R, "          large->normal_pages += Length(n);", "          large->normal_pages += Length(1);"),
 ("span-count", "bad", R, "        large->spans++;\n        if (is_released)", "        if (is_released)"),
 ("span-walk", "bad", R, "    index += n;\n  }\n}", "    index = end;\n  }\n}"),
 ("span-bit", "bad", R, "bool is_released = released_by_page_.GetBit(index);", "bool is_released = released_by_page_.GetBit(index + n - 1);"),
 ("new-unbroken", "bad", R, "        unbroken_(true),", "        unbroken_(false),"),
]
