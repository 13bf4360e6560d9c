ME = "tcmalloc/malloc_extension.cc"
L = "tcmalloc/internal/logging.cc"
PS = "tcmalloc/internal/page_allocation_status.cc"
HC = "tcmalloc/huge_page_aware_allocator.cc"
PA = "tcmalloc/parameters.cc"
M = [
 ("wrong-guard", "bad", ME, "  if (MallocExtension_Internal_GetOwnership != nullptr) {", "  if (MallocExtension_Internal_GetAllocatedSize != nullptr) {"),
 ("no-guard", "bad", L, "    if (&TCMalloc_Internal_GetStats != nullptr) {", "    if (stats_buffer != nullptr) {"),
 ("no-guard2", "bad", HC, "  if (default_subrelease != nullptr) {", "  if (e == nullptr) {"),
 ("default-limit", "bad", ME, "    return MallocExtension_Internal_GetMemoryLimit(limit_kind);\n  }\n#endif\n  return 0;", "    return MallocExtension_Internal_GetMemoryLimit(limit_kind);\n  }\n#endif\n  return std::numeric_limits<size_t>::max();"),
 ("default-owner", "bad", ME, "  return MallocExtension::Ownership::kUnknown;", "  return MallocExtension::Ownership::kNotOwned;"),
 ("default-long", "bad", ME, "  if (MallocExtension_Internal_GetSkipSubreleaseLongInterval == nullptr) {\n    return absl::ZeroDuration();", "  if (MallocExtension_Internal_GetSkipSubreleaseLongInterval == nullptr) {\n    return absl::InfiniteDuration();"),
 ("cross", "bad", ME, "  absl::Duration value;\n  MallocExtension_Internal_GetSkipSubreleaseLongInterval(&value);", "  absl::Duration value;\n  if (MallocExtension_Internal_GetSkipSubreleaseShortInterval)\n  MallocExtension_Internal_GetSkipSubreleaseShortInterval(&value);"),
 ("drop-set", "bad", ME, "  MallocExtension_Internal_SetMaxTotalThreadCacheBytes(value);", "  if (value > 0) MallocExtension_Internal_SetMaxTotalThreadCacheBytes(value);"),
 ("kind", "bad", ME, "    MallocExtension_Internal_SetMemoryLimit(new_limit, limit_kind);", "    MallocExtension_Internal_SetMemoryLimit(new_limit, LimitKind::kSoft);"),
 ("numeric", "bad", ME, "                                                    property.size(), &value)) {\n      return value;\n    }", "                                                    property.size(), &value)) {\n      return value;\n    }\n    return 0;"),
 ("nallocx", "bad", ME, "  return size;\n}\n\n// Default implementation just frees", "  return size + 1;\n}\n\n// Default implementation just frees"),
 ("fs", "bad", ME, "void free_sized(void* ptr, size_t)\n    TCMALLOC_FREE_SIZED_NOEXCEPT {\n  free(ptr);", "void free_sized(void* ptr, size_t n)\n    TCMALLOC_FREE_SIZED_NOEXCEPT {\n  if (n) free(ptr);"),
 ("srn", "bad", ME, "  void* p = ::operator new(size, std::nothrow);\n  return {p, p ? size : 0};", "  void* p = ::operator new(size, std::nothrow);\n  return {p, size};"),
 ("hc", "bad", ME, "  return ::operator new(size, alignment, std::nothrow);\n}\n\nABSL_ATTRIBUTE_WEAK void* operator new[](size_t size,\n                                         std::align_val_t alignment,\n                                         tcmalloc::hot_cold_t)", "  return ::operator new(size, std::nothrow);\n}\n\nABSL_ATTRIBUTE_WEAK void* operator new[](size_t size,\n                                         std::align_val_t alignment,\n                                         tcmalloc::hot_cold_t)"),
 ("status", "bad", PS, "  if (&TCMalloc_Internal_GetPageAllocationStatus == nullptr) {", "  if (ptr == nullptr) {"),
 ("ok-invert", "ok", ME, "  if (&MallocExtension_Internal_GetMemoryLimit != nullptr) {\n    return MallocExtension_Internal_GetMemoryLimit(limit_kind);\n  }\n#endif\n  return 0;", "  auto* fn = &MallocExtension_Internal_GetMemoryLimit;\n  return fn == nullptr ? 0 : fn(limit_kind);\n#endif\n"),
 ("ok-helper", "ok", ME, ["std::string MallocExtension::GetStats() {\n", "  if (MallocExtension_Internal_GetOwnership != nullptr) {"], ["static bool HaveOwnership() { return MallocExtension_Internal_GetOwnership != nullptr; }\nstd::string MallocExtension::GetStats() {\n", "  if (HaveOwnership()) {"]),
 ("ok-limit", "ok", ME, "    const size_t new_limit =\n        (limit > 0) ? limit : std::numeric_limits<size_t>::max();\n", "    size_t new_limit = limit;\n    if (new_limit == 0) new_limit = std::numeric_limits<size_t>::max();\n"),
 ("ok-optional", "ok", ME, "    if (MallocExtension_Internal_GetNumericProperty(property.data(),\n                                                    property.size(), &value)) {\n      return value;\n    }", "    if (!MallocExtension_Internal_GetNumericProperty(property.data(),\n                                                    property.size(), &value)) {\n      return std::nullopt;\n    }\n    return value;"),
]
