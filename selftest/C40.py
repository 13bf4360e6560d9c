HC = "tcmalloc/huge_page_aware_allocator.cc"
EX = "tcmalloc/experiment.cc"
CC = "tcmalloc/cpu_cache.h"
HF = "tcmalloc/huge_page_filler.h"
CT = "tcmalloc/internal/cache_topology.cc"
TI = "tcmalloc/transfer_cache_internals.h"
M = [
 ("string", "bad", EX, "    absl::string_view hostname = LookupHostname();\n", "    std::string hostname(LookupHostname());\n    hostname += active_experiments ? active_experiments : \"\";\n"),
 ("guard-static", "bad", HC, "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n", "  static const char* const e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n"),
 ("start-static", "bad", HC, ["bool decide_subrelease() {\n", "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n"], ["static const char* const hpaa_env = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\nbool decide_subrelease() {\n", "  const char* e = hpaa_env;\n"]),
 ("stable-sort", "bad", HF, "  absl::c_sort(candidates, CompareForSubrelease);", "  absl::c_stable_sort(candidates, CompareForSubrelease);"),
 ("vector", "bad", HF, "  absl::c_sort(candidates, CompareForSubrelease);", "  std::vector<TrackerType*> cs(candidates.begin(), candidates.end());\n  absl::c_sort(cs, CompareForSubrelease);\n  absl::c_copy(cs, candidates.begin());"),
 ("fopen", "bad", HC, "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n", "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n  if (FILE* f = fopen(\"/etc/tcmalloc.conf\", \"r\")) fclose(f);\n"),
 ("ok-strchr", "ok", HC, "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n", "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n  if (e && strchr(e, 'x')) return false;\n"),
 ("ok-static", "ok", HC, "  const char* e = thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\");\n", "  static std::atomic<const char*> c;\n  c.store(thread_safe_getenv(\"TCMALLOC_HPAA_CONTROL\"));\n  const char* e = c.load();\n"),
 ("ok-rotate", "ok", CC, "  std::sort(miss_stats.begin(), miss_stats.end(),", "  std::partial_sort(miss_stats.begin(), miss_stats.end(), miss_stats.end(),"),
]
