T = "tcmalloc/tcmalloc.cc"
P = "tcmalloc/tcmalloc_policy.h"
M = [
 ("errno", "bad", P, "    errno = ENOMEM;\n", "    if (size < (size_t{1} << 40)) errno = ENOMEM;\n"),
 ("errno2", "bad", P, "    errno = ENOMEM;\n", "    errno = EINVAL;\n"),
 ("nothrow-throws", "bad", T, "  return fast_alloc(size, CppPolicy().AlignAs(alignment).Nothrow().AccessAs(hot_cold));".replace("        ", ""), ""),
 ("nothrow-hot", "bad", T, "      size, CppPolicy().AlignAs(alignment).Nothrow().AccessAs(hot_cold));", "      size, CppPolicy().AlignAs(alignment).AccessAs(hot_cold));"),
 ("new-nothrow", "bad", T, "extern \"C\" ABSL_CACHELINE_ALIGNED void* TCMallocInternalNew(size_t size) {\n  return fast_alloc(size, CppPolicy());", "extern \"C\" ABSL_CACHELINE_ALIGNED void* TCMallocInternalNew(size_t size) {\n  return fast_alloc(size, CppPolicy().Nothrow());"),
 ("posix-store", "bad", T, "  void* result = fast_alloc(size, MallocPolicy().AlignAs(align));\n  if (ABSL_PREDICT_FALSE(result == nullptr)) {\n    return ENOMEM;\n  }\n  *result_ptr = result;\n", "  void* result = fast_alloc(size, MallocPolicy().AlignAs(align));\n  *result_ptr = result;\n  if (ABSL_PREDICT_FALSE(result == nullptr)) {\n    return ENOMEM;\n  }\n"),
 ("posix-mod", "bad", T, "  if (ABSL_PREDICT_FALSE(((align % sizeof(void*)) != 0) ||\n                         !absl::has_single_bit(align))) {\n    return EINVAL;\n  }\n  void* result = fast_alloc(size, MallocPolicy().AlignAs(align));\n  if", "  if (ABSL_PREDICT_FALSE(!absl::has_single_bit(align))) {\n    return EINVAL;\n  }\n  void* result = fast_alloc(size, MallocPolicy().AlignAs(align));\n  if"),
 ("posix-p2", "bad", T, "!absl::has_single_bit(align))) {\n    return EINVAL;", "align == 0)) {\n    return EINVAL;"),
 ("posix-ok", "ok", T, "  if (ABSL_PREDICT_FALSE(((align % sizeof(void*)) != 0) ||\n                         !absl::has_single_bit(align))) {\n    return EINVAL;", "  const bool multiple = align % sizeof(void*) == 0;\n  if (ABSL_PREDICT_FALSE(!(absl::has_single_bit(align) && multiple))) {\n    return EINVAL;"),
 ("posix-code", "bad", T, "    return ENOMEM;\n  }\n  *result_ptr = result;", "    return EINVAL;\n  }\n  *result_ptr = result;"),
 ("aa-errno", "bad", T, "    errno = EINVAL;\n    return alloc_result_t{nullptr, 0};", "    return alloc_result_t{nullptr, 0};"),
 ("aa-zero", "bad", T, "  if (ABSL_PREDICT_FALSE(!absl::has_single_bit(align))) {\n    // glibc", "  if (ABSL_PREDICT_FALSE((align & (align - 1)) != 0)) {\n    // glibc"),
 ("slow-null", "bad", T, "  if (ABSL_PREDICT_FALSE(res == nullptr)) return policy.handle_oom(size);\n  return Policy::to_pointer(res, size_class);", "  return Policy::to_pointer(res, size_class);"),
 ("slow-large-null", "bad", T, "  if (ABSL_PREDICT_FALSE(res.p == nullptr)) return policy.handle_oom(size);\n", "  if (ABSL_PREDICT_FALSE(res.p == nullptr)) return Policy::as_pointer(nullptr, 0);\n"),
 ("sampled-null", "bad", T, "  if (ABSL_PREDICT_FALSE(ptr.p == nullptr)) {\n    return policy.handle_oom(size);\n  }", "  if (ABSL_PREDICT_FALSE(ptr.p == nullptr && weight == 0)) {\n    return policy.handle_oom(size);\n  }"),
 ("ok-large", "ok", T, "  if (ABSL_PREDICT_FALSE(res.p == nullptr)) return policy.handle_oom(size);\n\n  if (Policy::invoke_hooks()) {", "  const bool failed = res.p == nullptr;\n  if (ABSL_PREDICT_FALSE(failed)) {\n    return Policy::handle_oom(size);\n  }\n  if (Policy::invoke_hooks()) {"),
 ("cpp-return", "bad", P, "    CrashWithOOM(size);\n", "    if (size > 1 << 20) CrashWithOOM(size);\n    return Policy::as_pointer(nullptr, 0);\n"),
]
M = [m for m in M if m[0] not in ("nothrow-throws", "cpp-return")]
