F = "tcmalloc/tcmalloc.cc"
S = "tcmalloc/static_vars.h"
CC = "tcmalloc/cpu_cache.h"
M = [
 ("small-oom-order", "bad", F, "  if (ABSL_PREDICT_FALSE(ptr.p == nullptr)) {\n    return policy.handle_oom(size);\n  }\n  if (Policy::invoke_hooks()) {\n    // Size returning tcmallocs call NewHooks with capacity as requested_size.\n    // The callee of the hook has no other way of knowing that writes to [size,\n    // ptr.n) are valid.\n    MallocHook::InvokeNewHook({ptr.p, Policy::size_returning() ? ptr.n : size,\n                               ptr.n, HookMemoryMutable::kMutable});\n  }\n", "  if (Policy::invoke_hooks()) {\n    MallocHook::InvokeNewHook({ptr.p, Policy::size_returning() ? ptr.n : size,\n                               ptr.n, HookMemoryMutable::kMutable});\n  }\n  if (ABSL_PREDICT_FALSE(ptr.p == nullptr)) {\n    return policy.handle_oom(size);\n  }\n"),
 ("large-oom-hook", "bad", F, "  if (ABSL_PREDICT_FALSE(res.p == nullptr)) return policy.handle_oom(size);\n\n  if (Policy::invoke_hooks()) {", "  if (Policy::invoke_hooks()) {"),
 ("small-req", "bad", F, "Policy::size_returning() ? ptr.n : size,", "size,"),
 ("large-req", "bad", F, "Policy::size_returning() ? res.n : size,", "res.n,"),
 ("large-cap", "bad", F, "                               res.n, HookMemory", "                               size, HookMemory"),
 ("sampled-nohook", "bad", F, "  if (Policy::invoke_hooks()) {\n    // Size returning tcmallocs call NewHooks with capacity as requested_size.\n    // The callee of the hook has no other way of knowing that writes to [size,\n    // ptr.n) are valid.\n    MallocHook::InvokeNewHook({ptr.p", "  if (Policy::invoke_hooks() && weight == 0) {\n    MallocHook::InvokeNewHook({ptr.p"),
 ("neg-policy", "bad", F, "  if (Policy::invoke_hooks()) {\n    // Size returning tcmallocs call NewHooks with capacity as requested_size.\n    // The callee of the hook has no other way of knowing that writes to [size,\n    // ptr.n) are valid.\n    MallocHook::InvokeNewHook({res.p", "  if (!Policy::size_returning()) {\n    MallocHook::InvokeNewHook({res.p"),
 ("slow-nohooks", "bad", F, "      ABSL_PREDICT_FALSE(tcmalloc::tcmalloc_internal::Static::HaveHooks()) ||\n      ABSL_PREDICT_FALSE(!UsePerCpuCache", "      ABSL_PREDICT_FALSE(!UsePerCpuCache"),
 ("slow-weight", "bad", F, "policy,\n                                                  weight);", "policy,\n                                                  0);"),
 ("free-nohooks", "bad", F, "  if (ABSL_PREDICT_FALSE(Static::HaveHooks()) ||\n      ABSL_PREDICT_FALSE(!UsePerCpuCache(tc_globals))) {", "  if (ABSL_PREDICT_FALSE(!UsePerCpuCache(tc_globals))) {"),
 ("free-and", "bad", F, "  if (ABSL_PREDICT_FALSE(Static::HaveHooks()) ||\n      ABSL_PREDICT_FALSE(!UsePerCpuCache(tc_globals))) {", "  if (ABSL_PREDICT_FALSE(Static::HaveHooks()) &&\n      ABSL_PREDICT_FALSE(!UsePerCpuCache(tc_globals))) {"),
 ("delete-after", "bad", F, "  MallocHook::InvokeDeleteHook({ptr, size,\n                                tc_globals.sizemap().class_to_size(size_class),\n                                HookMemoryMutable::kMutable});\n  if (ABSL_PREDICT_TRUE(UsePerCpuCache(tc_globals))) {\n    tc_globals.cpu_cache().DeallocateSlow(ptr, size_class);", "  if (ABSL_PREDICT_TRUE(UsePerCpuCache(tc_globals))) {\n    tc_globals.cpu_cache().DeallocateSlow(ptr, size_class);\n  MallocHook::InvokeDeleteHook({ptr, size,\n                                tc_globals.sizemap().class_to_size(size_class),\n                                HookMemoryMutable::kMutable});\n"),
 ("delete-size", "bad", F, "                                tc_globals.sizemap().class_to_size(size_class),\n                                HookMemoryMutable::kMutable});\n  if", "                                size.value_or(tc_globals.sizemap().class_to_size(size_class)),\n                                HookMemoryMutable::kMutable});\n  if"),
 ("pages-after", "bad", F, ["  if (ABSL_PREDICT_TRUE(valid_ptr)) {\n    MallocHook::InvokeDeleteHook(\n        {ptr, size, GetLargeSize(ptr, *span), HookMemoryMutable::kMutable});\n  }\n", "    gwp_asan.Deallocate(ptr);\n"], ["", "    gwp_asan.Deallocate(ptr);\n  if (valid_ptr) {\n    MallocHook::InvokeDeleteHook(\n        {ptr, size, GetLargeSize(ptr, *span), HookMemoryMutable::kMutable});\n  }\n"]),
 ("pages-gwp", "bad", F, "  if (ABSL_PREDICT_TRUE(valid_ptr)) {", "  if (ABSL_PREDICT_TRUE(valid_ptr && !is_gwp_asan_ptr)) {"),
 ("pages-size", "bad", F, "{ptr, size, GetLargeSize(ptr, *span), HookMem", "{ptr, size, size.value_or(0), HookMem"),
 ("realloc-nodel", "bad", F, "    tcmalloc::MallocHook::InvokeDeleteHook(\n        {const_cast<void*>(old_ptr), std::nullopt, old_size,\n         tcmalloc::HookMemoryMutable::kImmutable});\n", ""),
 ("realloc-new-size", "bad", F, "{const_cast<void*>(old_ptr), new_size, old_size,", "{const_cast<void*>(old_ptr), old_size, old_size,"),
 ("realloc-del-size", "bad", F, "std::nullopt, old_size,\n         tcmalloc::Hook", "std::nullopt, new_size,\n         tcmalloc::Hook"),
 ("have-and", "bad", S, "static_cast<int>(!new_hooks_.empty()) |", "static_cast<int>(!new_hooks_.empty()) &"),
 ("have-one", "bad", S, "static_cast<int>(!new_hooks_.empty()) |", "static_cast<int>(!delete_hooks_.empty()) |"),
 ("force-alloc", "bad", CC, "  void* ret = AllocateSlowNoHooks(size_class);\n  MaybeForceSlowPath();", "  void* ret = AllocateSlowNoHooks(size_class);"),
 ("force-alloc-order", "bad", CC, "  void* ret = AllocateSlowNoHooks(size_class);\n  MaybeForceSlowPath();", "  MaybeForceSlowPath();\n  void* ret = AllocateSlowNoHooks(size_class);"),
 ("force-free", "bad", CC, "  DeallocateSlowNoHooks(ptr, size_class);\n  MaybeForceSlowPath();", "  DeallocateSlowNoHooks(ptr, size_class);"),
 ("force-neg", "bad", CC, "if (ABSL_PREDICT_FALSE(forwarder_.HaveHooks())) {\n    freelist_", "if (ABSL_PREDICT_FALSE(!forwarder_.HaveHooks())) {\n    freelist_"),
 ("ok-have-or", "ok", S, "static_cast<int>(!new_hooks_.empty()) |", "!new_hooks_.empty() ||"),
 ("ok-info", "ok", F, "    MallocHook::InvokeNewHook({res.p, Policy::size_returning() ? res.n : size,\n                               res.n, HookMemoryMutable::kMutable});", "    const size_t req = Policy::size_returning() ? res.n : size;\n    const MallocHook::NewInfo info{res.p, req, res.n, HookMemoryMutable::kMutable};\n    MallocHook::InvokeNewHook(info);"),
 ("ok-pages-flip", "ok", F, "  bool valid_ptr = true;\n  if (ABSL_PREDICT_FALSE(is_gwp_asan_ptr)) {\n    valid_ptr = gwp_asan.PointerIsCorrectlyAligned(ptr);\n  } else if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {\n    valid_ptr = false;\n  }\n", "  const bool valid_ptr = is_gwp_asan_ptr ? gwp_asan.PointerIsCorrectlyAligned(ptr) : span->start_address() == ptr;\n"),
 ("ok-force-early", "ok", CC, "  if (ABSL_PREDICT_FALSE(forwarder_.HaveHooks())) {\n    freelist_.UncacheCpuSlab();\n  }", "  if (!forwarder_.HaveHooks()) return;\n  freelist_.UncacheCpuSlab();"),
 ("ok-slow-split", "ok", F, "  if (ABSL_PREDICT_FALSE(Static::HaveHooks()) ||\n      ABSL_PREDICT_FALSE(!UsePerCpuCache(tc_globals))) {\n    return FreeWithHooksOrPerThread(ptr, size, size_class);\n  }", "  const bool hooked = Static::HaveHooks();\n  if (hooked) {\n    FreeWithHooksOrPerThread(ptr, size, size_class);\n    return;\n  }\n  if (!UsePerCpuCache(tc_globals)) return FreeWithHooksOrPerThread(ptr, size, size_class);"),
 ("ok-realloc-var", "ok", F, "  } else {\n    // We still need to call hooks to report the updated size:\n", "  } else {\n    tcmalloc::MallocHook::NewInfo ni{const_cast<void*>(old_ptr), new_size, old_size, tcmalloc::HookMemoryMutable::kImmutable};\n    (void)ni;\n"),
]
