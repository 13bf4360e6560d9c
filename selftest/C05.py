TC = "tcmalloc/tcmalloc.cc"
M = [
    ("sdallocx", "bad", TC, "    return do_free_with_size(ptr, size, MallocPolicy());\n", "    return do_free_with_size(ptr, size, MallocPolicy().AlignAs(sizeof(void*)));\n"),
    ("aligned-sized", "bad", TC, "  return do_free_with_size(p, t, CppPolicy().AlignAs(alignment));\n", "  return do_free_with_size(p, t, CppPolicy());\n"),
    ("swap", "bad", TC, "  do_free_with_size(ptr, size, MallocPolicy().AlignAs(align));\n", "  do_free_with_size(ptr, static_cast<size_t>(align), MallocPolicy().AlignAs(static_cast<std::align_val_t>(size)));\n"),
    ("partition", "bad", TC, "        policy.template InPartition<1>(), size);\n", "        policy.template InPartition<0>(), size);\n"),
    ("coldmask", "bad", TC, "    bool is_cold = ((uptr & kTagOrBadDeallocationMask) == kColdMask);\n", "    bool is_cold = ((uptr & kColdMask) == kColdMask);\n"),
    ("accesshot", "bad", TC, "      return fast_free_with_size(ptr, size, policy.AccessAsCold());\n", "      return fast_free_with_size(ptr, size, policy.AccessAsHot());\n"),
    ("noclass", "bad", TC, "  if (ABSL_PREDICT_FALSE(!is_small)) {\n", "  if (ABSL_PREDICT_FALSE(!is_small || size > kMaxSize / 2)) {\n"),
    ("double", "bad", TC, "  } else if (ABSL_PREDICT_FALSE(span == &tc_globals.invalid_span())) {\n    ReportDoubleFree(tc_globals, ptr);\n  }\n", "  }\n"),
    ("interior", "bad", TC, "    if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {\n      ReportCorruptedFree(tc_globals, static_cast<std::align_val_t>(kPageSize),\n                          ptr);\n    }\n", ""),
    ("useafter", "bad", TC, "        Range(p, span->num_pages()),\n        span->donated(),\n    };\n    Span::Delete(span);\n    PageHeapSpinLockHolder l;\n", "        Range(p, span->num_pages()),\n        false,\n    };\n    Span::Delete(span);\n    PageHeapSpinLockHolder l;\n    a.donated = span->donated();\n"),
    ("leakspan", "bad", TC, "    Span::Delete(span);\n  } else {\n    if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {\n", "  } else {\n    if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {\n"),
    ("smallspan", "bad", TC, "  if (ABSL_PREDICT_FALSE(size_class != 0)) {\n    // Single object spans are given size class 0.\n    //\n    // TODO(b/478294698): Decide whether to retain this check.\n    ReportCorruptedFree(tc_globals, ptr);\n  } else if", "  if"),
    ("threadcache", "bad", TC, "    cache->Deallocate(ptr, size_class);\n  } else {\n", "    cache->Deallocate(ptr, size_class);\n  }\n  {\n"),
    ("misaligned", "bad", TC, "  if (ABSL_PREDICT_FALSE(uptr & kBadAlignmentMask) && !IsSampledMemory(ptr)) {\n", "  if (ABSL_PREDICT_FALSE(uptr & kBadAlignmentMask) && IsSampledMemory(ptr)) {\n"),
    ("highbits", "bad", TC, "  if (ABSL_PREDICT_FALSE(uptr & kBadDeallocationHighMask)) {\n", "  if (ABSL_PREDICT_FALSE(uptr & kBadAlignmentMask & kBadDeallocationHighMask)) {\n"),
    ("slowtwice", "bad", TC, "    return FreeWithHooksOrPerThread(ptr, size, size_class);\n", "    FreeWithHooksOrPerThread(ptr, size, size_class);\n"),
    ("nodealloc", "bad", TC, "    gwp_asan.Deallocate(ptr);\n", "    if (valid_ptr) gwp_asan.Deallocate(ptr);\n"),
    ("r-switch", "ok", TC, "  } else if (ABSL_PREDICT_FALSE(span == &tc_globals.invalid_span())) {\n    ReportDoubleFree(tc_globals, ptr);\n  }\n", "  }\n  const Span* const dead = &tc_globals.invalid_span();\n  if (ABSL_PREDICT_FALSE(dead == span)) {\n    ReportDoubleFree(tc_globals, ptr);\n  }\n"),
    ("r-order", "ok", TC, "  if (ABSL_PREDICT_TRUE(size_class != 0)) {\n    FreeSmall(ptr, std::nullopt, size_class);\n  } else {\n    SLOW_PATH_BARRIER();\n    InvokeHooksAndFreePages(ptr, std::nullopt, policy);\n  }\n", "  if (ABSL_PREDICT_FALSE(size_class == 0)) {\n    SLOW_PATH_BARRIER();\n    InvokeHooksAndFreePages(ptr, std::nullopt, policy);\n    return;\n  }\n  FreeSmall(ptr, std::nullopt, size_class);\n"),
    ("r-helper", "ok", TC, ["ABSL_ATTRIBUTE_NOINLINE static void FreeWithHooksOrPerThread(\n", "    tc_globals.transfer_cache().InsertRange(size_class,\n                                            absl::Span<void*>(&ptr, 1));\n"], ["static void FreeToCentral(void* ptr, size_t size_class) {\n  void* batch[1] = {ptr};\n  tc_globals.transfer_cache().InsertRange(size_class, absl::MakeSpan(batch));\n}\nABSL_ATTRIBUTE_NOINLINE static void FreeWithHooksOrPerThread(\n", "    FreeToCentral(ptr, size_class);\n"]),
    ("r-range", "ok", TC, "    PageAllocatorInterface::AllocationState a{\n        Range(p, span->num_pages()),\n        span->donated(),\n    };\n    Span::Delete(span);\n    PageHeapSpinLockHolder l;\n", "    const bool donated = span->donated();\n    const Length n = span->num_pages();\n    Span::Delete(span);\n    PageAllocatorInterface::AllocationState a{Range(PageIdContaining(ptr), n), donated};\n    PageHeapSpinLockHolder l;\n"),
    ("r-cold", "ok", TC, "    if (ABSL_PREDICT_FALSE(!is_cold)) {\n", "    if (is_cold) {\n      fast_free_with_size(ptr, size, policy.AccessAsCold());\n      return;\n    }\n    if (true) {\n"),
]
