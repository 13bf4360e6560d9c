T = "tcmalloc/tcmalloc.cc"
O = "tcmalloc/internal/overflow.h"
C = "tcmalloc/common.h"
M = [
 ("mul-noov", "bad", O, "  return __builtin_mul_overflow(a, b, out);", "  *out = a * b;\n  return a > SIZE_MAX / 2 || b > SIZE_MAX / 2;"),
 ("mul-half", "bad", O, "  return __builtin_mul_overflow(a, b, out);", "  *out = a * b;\n  return (a | b) >= (size_t{1} << 32) && a != 0 && b > SIZE_MAX / a + 1;"),
 ("mul-ok-div", "ok", O, "  return __builtin_mul_overflow(a, b, out);", "  *out = a * b;\n  return b != 0 && *out / b != a;"),
 ("calloc-short", "bad", T, "    memset(result, 0, size);\n  }\n  return result;\n}", "    memset(result, 0, n);\n  }\n  return result;\n}"),
 ("calloc-skip-large", "bad", T, "  if (ABSL_PREDICT_TRUE(result != nullptr)) {\n    memset(result, 0, size);", "  if (ABSL_PREDICT_TRUE(result != nullptr && size <= (size_t{1} << 30))) {\n    memset(result, 0, size);"),
 ("calloc-mul", "bad", T, "  size_t size;\n  if (ABSL_PREDICT_FALSE(MultiplyOverflow(n, elem_size, &size))) {\n    return MallocPolicy::handle_oom(std::numeric_limits<size_t>::max());\n  }\n  void* result", "  size_t size = n * elem_size;\n  void* result"),
 ("ra-free-first", "bad", T, "  size_t size;\n  if (ABSL_PREDICT_FALSE(MultiplyOverflow(n, elem_size, &size))) {\n    return MallocPolicy::handle_oom(std::numeric_limits<size_t>::max());\n  }\n  if (ptr == nullptr) {", "  size_t size;\n  if (ABSL_PREDICT_FALSE(MultiplyOverflow(n, elem_size, &size))) {\n    do_free(ptr, MallocPolicy());\n    return MallocPolicy::handle_oom(std::numeric_limits<size_t>::max());\n  }\n  if (ptr == nullptr) {"),
 ("pv-nocheck", "bad", T, "  if (ABSL_PREDICT_FALSE(rounded < size)) {  // overflow\n    return MallocPolicy::handle_oom(size);\n  }\n", ""),
 ("pv-trunc", "bad", T, "  const size_t rounded = (size + page_size - 1) & ~(page_size - 1);\n", "  const size_t rounded = (size + page_size) & ~(page_size - 1);\n"),
 ("pv-ok", "ok", T, "  const size_t rounded = (size + page_size - 1) & ~(page_size - 1);\n  if (ABSL_PREDICT_FALSE(rounded < size)) {  // overflow", "  if (ABSL_PREDICT_FALSE(size > std::numeric_limits<size_t>::max() - page_size + 1)) {\n    return MallocPolicy::handle_oom(size);\n  }\n  const size_t rounded = (size + page_size - 1) & ~(page_size - 1);\n  if (false) {"),
 ("pages-floor", "bad", T, "std::max<Length>(BytesToLengthCeil(size), Length(1))", "std::max<Length>(BytesToLengthFloor(size), Length(1))"),
 ("pages-wrap", "bad", T, "std::max<Length>(BytesToLengthCeil(size), Length(1))", "std::max<Length>(BytesToLengthFloor(size + kPageSize - 1), Length(1))"),
 ("cap", "bad", T, "sized_ptr_t res{span->start_address(), num_pages.in_bytes()};", "sized_ptr_t res{span->start_address(), (num_pages + Length(1)).in_bytes()};"),
 ("ok-helper", "ok", T, "  Length num_pages = std::max<Length>(BytesToLengthCeil(size), Length(1));", "  Length num_pages = BytesToLengthCeil(size);\n  if (num_pages < Length(1)) num_pages = Length(1);"),
 ("memalign-swap", "bad", T, "  return fast_alloc(size, MallocPolicy().AlignAs(align));\n}\n\nextern \"C\" ABSL_CACHELINE_ALIGNED void* TCMallocInternalNewAligned(", "  return fast_alloc(size > 64 ? size : align, MallocPolicy().AlignAs(align));\n}\n\nextern \"C\" ABSL_CACHELINE_ALIGNED void* TCMallocInternalNewAligned("),
 ("calloc-ok", "ok", T, "  if (ABSL_PREDICT_TRUE(result != nullptr)) {\n    memset(result, 0, size);\n  }\n  return result;\n}", "  if (result == nullptr) return nullptr;\n  return memset(result, 0, size);\n}"),
]
