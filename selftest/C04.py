SM, SC, TC = "tcmalloc/sizemap.h", "tcmalloc/sizemap.cc", "tcmalloc/tcmalloc.cc"
M = [
 ("bigalign", "bad", SM, "if (ABSL_PREDICT_FALSE(align > kPageSize)) {", "if (ABSL_PREDICT_FALSE(align > 2 * kPageSize)) {"),
 ("floor", "bad", SM, "      idx = (s + 7) >> 3;\n", "      idx = (s + 3) >> 3;\n"),
 ("jump", "bad", SM, "idx = ((s + 127 + 120 * 128) >> 7);", "idx = ((s + 127 + 119 * 128) >> 7);"),
 ("maxsize", "bad", SM, "    } else if (s <= kMaxSize) {\n", "    } else if (s <= kMaxSize + 64) {\n"),
 ("hold", "bad", SC, "    for (int s = next_size; s <= max_size_in_class;\n         s += static_cast<size_t>(kAlignment)) {\n      class_array_[ClassIndex(s)] = c;\n", "    for (int s = next_size; s <= max_size_in_class + 8;\n         s += static_cast<size_t>(kAlignment)) {\n      class_array_[ClassIndex(s)] = c;\n"),
 ("gap", "bad", SC, "      class_array_[ClassIndex(s)] = c;\n    }\n    next_size = max_size_in_class + static_cast<size_t>(kAlignment);\n", "      class_array_[ClassIndex(s)] = c;\n    }\n    next_size = max_size_in_class + 2 * static_cast<size_t>(kAlignment);\n"),
 ("halfalign", "bad", SM, "    if (ABSL_PREDICT_FALSE(!IsAlignedTo(class_to_size(size_class), align))) {\n", "    if (ABSL_PREDICT_FALSE(!IsAlignedTo(class_to_size(size_class), align / 2))) {\n"),
 ("constalign", "bad", SM, "        align <= static_cast<size_t>(kAlignment)) {\n", "        align <= 2 * static_cast<size_t>(kAlignment)) {\n"),
 ("pagealign", "bad", TC, "      num_pages, BytesToLengthCeil(policy.align()),\n", "      num_pages, Length(1),\n"),
 ("valloc", "bad", TC, "  return fast_alloc(size, MallocPolicy().AlignAs(GetPageSize()));\n", "  return fast_alloc(size, MallocPolicy().AlignAs(sizeof(void*)));\n"),
 ("capsmall", "bad", TC, "    ptr.n = tc_globals.sizemap().class_to_size(size_class);\n", "    ptr.n = size;\n"),
 ("caplarge", "bad", TC, "  sized_ptr_t res{span->start_address(), num_pages.in_bytes()};\n", "  sized_ptr_t res{span->start_address(), size + kPageSize};\n"),
 ("nallocx", "bad", TC, "  if (ABSL_PREDICT_FALSE(!tc_globals.IsInited() || flags != 0)) {\n", "  if (ABSL_PREDICT_FALSE(!tc_globals.IsInited())) {\n"),
 ("zeroclass", "bad", TC, "    size_class = ret.size_class;\n", "    size_class = ret.size_class + 1;\n"),
 ("deadret", "ok", TC, "  const auto [is_small, size_class] =\n      tc_globals.sizemap().GetSizeClass(policy, size);\n  if (ABSL_PREDICT_FALSE(!is_small)) {\n    SLOW_PATH_BARRIER();\n    TCMALLOC_MUSTTAIL return slow_alloc_large(size, policy);\n  }\n", "  const auto found = tc_globals.sizemap().GetSizeClass(policy, size);\n  const size_t size_class = found.size_class;\n  if (!found.is_small) {\n    SLOW_PATH_BARRIER();\n    TCMALLOC_MUSTTAIL return slow_alloc_large(size, policy);\n  }\n"),
 ("idxform", "ok", SM, "      idx = (s + 7) >> 3;\n", "      idx = (s + 7) / 8;\n"),
 ("alignfor", "ok", SM, "    if (ABSL_PREDICT_FALSE(!IsAlignedTo(class_to_size(size_class), align))) {\n      do {\n        ++size_class;\n      } while (\n          ABSL_PREDICT_FALSE(!IsAlignedTo(class_to_size(size_class), align)));\n    }\n", "    while (!IsAlignedTo(class_to_size(size_class), align)) {\n      size_class++;\n    }\n"),
 ("fill", "ok", SC, "    for (int s = next_size; s <= max_size_in_class;\n         s += static_cast<size_t>(kAlignment)) {\n      class_array_[ClassIndex(s)] = c;\n    }\n", "    int s = next_size;\n    while (!(s > max_size_in_class)) {\n      class_array_[ClassIndex(s)] = c;\n      s += static_cast<int>(kAlignment);\n    }\n"),
 ("nallocx2", "ok", TC, "  const auto [is_small, size_class] =\n      tc_globals.sizemap().GetSizeClass(CppPolicy().AlignAs(align), size);\n  if (ABSL_PREDICT_TRUE(is_small)) {\n    TC_ASSERT_NE(size_class, 0);\n    return tc_globals.sizemap().class_to_size(size_class);\n  } else {\n    return BytesToLengthCeil(size).in_bytes();\n  }\n", "  const auto r =\n      tc_globals.sizemap().GetSizeClass(CppPolicy().AlignAs(align), size);\n  if (!r.is_small) return BytesToLengthCeil(size).in_bytes();\n  return tc_globals.sizemap().class_to_size(r.size_class);\n"),
]
