P = "tcmalloc/parameters.cc"
PH = "tcmalloc/parameters.h"
PAH = "tcmalloc/page_allocator.h"
T = "tcmalloc/tcmalloc.cc"
TCC = "tcmalloc/thread_cache.cc"
CC = "tcmalloc/cpu_cache.h"
M = [
 ("cross-interval", "bad", P, "void TCMalloc_Internal_SetHugePageFillerSkipSubreleaseLongInterval(\n    absl::Duration v) {\n  tcmalloc::tcmalloc_internal::skip_subrelease_long_interval_ns()", "void TCMalloc_Internal_SetHugePageFillerSkipSubreleaseLongInterval(\n    absl::Duration v) {\n  tcmalloc::tcmalloc_internal::skip_subrelease_short_interval_ns()"),
 ("cross-get", "bad", P, "*v = Parameters::filler_skip_subrelease_long_interval();", "*v = Parameters::filler_skip_subrelease_short_interval();"),
 ("units", "bad", P, "  tcmalloc::tcmalloc_internal::background_process_sleep_interval_ns().store(\n      absl::ToInt64Nanoseconds(value)", "  tcmalloc::tcmalloc_internal::background_process_sleep_interval_ns().store(\n      absl::ToInt64Microseconds(value)"),
 ("dropneg", "bad", P, "void TCMalloc_Internal_SetProfileSamplingInterval(int64_t v) {\n", "void TCMalloc_Internal_SetProfileSamplingInterval(int64_t v) {\n  if (v < 0) return;\n"),
 ("invert", "bad", P, "      v ? tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage::kEnabled\n        : tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage::kDisabled", "      v ? tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage::kDisabled\n        : tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage::kEnabled"),
 ("shared", "bad", P, "  Parameters::release_max_cold_pages_.store(v,", "  Parameters::release_partial_alloc_pages_.store(v,"),
 ("dynslab", "bad", P, "  if (!v && !tcmalloc", "  if (v || !tcmalloc"),
 ("limit-order", "bad", PAH, "  if (limits_[kHard] < limits_[kSoft]) {", "  if (limit_kind == kHard && limits_[kHard] < limits_[kSoft] && limits_[kSoft] != std::numeric_limits<size_t>::max()) {"),
 ("limit-raise", "bad", PAH, "    limits_[kSoft] = limits_[kHard];", "    limits_[kHard] = limits_[kSoft];"),
 ("limit-apply", "bad", PAH, "  ShrinkToUsageLimit(Length(0));\n}", "  if (limit_kind == kSoft) ShrinkToUsageLimit(Length(0));\n}"),
 ("limit-zero", "bad", P, "  value = value > 0 ? value : std::numeric_limits<size_t>::max();", "  value = value > 1 ? value : std::numeric_limits<size_t>::max();"),
 ("limit-kind", "bad", T, "      limit, static_cast<PageAllocator::LimitKind>(limit_kind));", "      limit, PageAllocator::kSoft);"),
 ("thread-cache", "bad", TCC, "  RecomputePerThreadCacheSize();\n}\n\n}  // namespace", "}\n\n}  // namespace"),
 ("total", "bad", TCC, "  if (new_size < kMinThreadCacheSize) new_size = kMinThreadCacheSize;", "  if (new_size < kMinThreadCacheSize) return;"),
 ("ok-helper", "ok", P, "void TCMalloc_Internal_SetProfileSamplingInterval(int64_t v) {\n", "static void Put(std::atomic<int64_t>& a, int64_t v) { a.store(v, std::memory_order_relaxed); }\nvoid TCMalloc_Internal_SetEventTraceMemoryLimit(int64_t v);\nvoid TCMalloc_Internal_SetProfileSamplingInterval(int64_t v) {\n  if (v == 7) { Put(Parameters::profile_sampling_interval_, v); return; }\n"),
 ("ok-if", "ok", P, "      v ? tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage::kEnabled\n        : tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage::kDisabled", "      static_cast<tcmalloc::tcmalloc_internal::MadviseRegionsNoHugepage>(v)"),
 ("ok-min", "ok", PAH, "  if (limits_[kHard] < limits_[kSoft]) {\n    // Soft limit can not be higher than hard limit.\n    limits_[kSoft] = limits_[kHard];\n  }", "  limits_[kSoft] = std::min(limits_[kSoft], limits_[kHard]);"),
 ("ok-max", "ok", TCC, "  if (new_size < kMinThreadCacheSize) new_size = kMinThreadCacheSize;", "  new_size = std::max<size_t>(new_size, kMinThreadCacheSize);"),
 ("ok-zero", "ok", P, "  value = value > 0 ? value : std::numeric_limits<size_t>::max();", "  if (value == 0) value = std::numeric_limits<size_t>::max();"),
]
