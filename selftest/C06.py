F = "tcmalloc/internal/hook_list.h"
M = [
 ("no-null-check", "bad", F, "  if (value_as_t == T()) {\n    return false;\n  }\n  absl::base_internal::SpinLockHolder l(hooklist_spinlock_);\n  // Find", "  absl::base_internal::SpinLockHolder l(hooklist_spinlock_);\n  // Find"),
 ("add-nolock", "bad", F, "  absl::base_internal::SpinLockHolder l(hooklist_spinlock_);\n  // Find", "  // Find"),
 ("cap-off-by-one", "bad", F, "if (index == kHookListMaxValues) {", "if (index == kHookListMaxValues + 1) {"),
 ("cap-scan", "bad", F, "(index < kHookListMaxValues) &&", "(index < kHookListMaxValues - 1) &&"),
 ("relaxed-store", "bad", F, "priv_data[index].store(value_as_t, std::memory_order_release);", "priv_data[index].store(value_as_t, std::memory_order_relaxed);"),
 ("end-first", "bad", F, "  priv_data[index].store(value_as_t, std::memory_order_release);\n  if (prev_num_hooks <= index) {\n    priv_end.store(index + 1, std::memory_order_release);\n  }", "  if (prev_num_hooks <= index) {\n    priv_end.store(index + 1, std::memory_order_release);\n  }\n  priv_data[index].store(value_as_t, std::memory_order_release);"),
 ("end-lt", "bad", F, "if (prev_num_hooks <= index) {", "if (prev_num_hooks < index) {"),
 ("end-always", "bad", F, "if (prev_num_hooks <= index) {", "{"),
 ("rm-shrink-any", "bad", F, "if (hooks_end == index + 1) {", "if (hooks_end >= index + 1) {"),
 ("rm-shrink-noscan", "bad", F, "(priv_data[hooks_end - 1].load(std::memory_order_acquire) == 0)", "(priv_data[hooks_end - 1].load(std::memory_order_acquire) != value_as_t)"),
 ("rm-nolock", "bad", F, "  absl::base_internal::SpinLockHolder l(hooklist_spinlock_);\n  int hooks_end", "  int hooks_end"),
 ("rm-start1", "bad", F, "  int index = 0;\n  while (index < hooks_end", "  int index = 1;\n  while (index < hooks_end"),
 ("rm-noshrink", "ok", F, "if (hooks_end == index + 1) {", "if (false) {"),
 ("tr-relaxed", "bad", F, "T data = priv_data[i].load(std::memory_order_acquire);", "T data = priv_data[i].load(std::memory_order_relaxed);"),
 ("tr-end-relaxed", "bad", F, "  int hooks_end = priv_end.load(std::memory_order_acquire);\n  int actual", "  int hooks_end = priv_end.load(std::memory_order_relaxed);\n  int actual"),
 ("tr-nobound", "bad", F, "i < hooks_end && n > 0; ++i", "i < hooks_end && n >= 0; ++i"),
 ("tr-stopnull", "bad", F, "    if (data != T()) {\n      *output_array++ = data;\n      ++actual_hooks_end;\n      --n;\n    }", "    if (data == T()) break;\n      *output_array++ = data;\n      ++actual_hooks_end;\n      --n;\n"),
 ("tr-dec-n-always", "bad", F, "      --n;\n    }", "    }\n    --n;"),
 ("tr-null", "bad", F, "if (data != T()) {", "{"),
 ("inv-skip-first", "bad", F, "for (int i = 0; i < num_hooks; ++i) {\n    (*hooks", "for (int i = 1; i < num_hooks; ++i) {\n    (*hooks"),
 ("inv-cap", "bad", F, "Traverse(hooks, kHookListMaxValues)", "Traverse(hooks, kHookListMaxValues + 1)"),
 ("route", "bad", "tcmalloc/malloc_hook.cc", "return tcmalloc_internal::sampled_delete_hooks_.Remove(hook);", "return tcmalloc_internal::sampled_new_hooks_.Remove(hook);"),
 ("route-ret", "bad", "tcmalloc/malloc_hook.cc", "return tcmalloc_internal::sampled_delete_hooks_.Remove(hook);", "tcmalloc_internal::sampled_delete_hooks_.Remove(hook); return true;"),
 ("no-redeliver", "bad", "tcmalloc/malloc_hook.cc", "  MallocHook::InvokeNewHook(info);\n}", "}"),
 ("ref-tr-idx", "ok", F, "  for (int i = 0; i < hooks_end && n > 0; ++i) {\n    T data = priv_data[i].load(std::memory_order_acquire);\n    if (data != T()) {\n      *output_array++ = data;\n      ++actual_hooks_end;\n      --n;\n    }\n  }", "  int i = 0;\n  while (i != hooks_end) {\n    if (actual_hooks_end >= n) break;\n    T data = priv_data[i++].load(std::memory_order_acquire);\n    if (data == T()) continue;\n    output_array[actual_hooks_end++] = data;\n  }"),
 ("ref-add-for", "ok", F, "  int index = 0;\n  while ((index < kHookListMaxValues) &&\n         (priv_data[index].load(std::memory_order_relaxed) != 0)) {\n    ++index;\n  }\n  if (index == kHookListMaxValues) {\n    return false;\n  }\n", "  int index;\n  for (index = 0; index != kHookListMaxValues; ++index) {\n    if (priv_data[index].load(std::memory_order_relaxed) == 0) break;\n  }\n  if (index >= kHookListMaxValues) return false;\n"),
 ("ref-add-inloop", "ok", F, "  int index = 0;\n  while ((index < kHookListMaxValues) &&\n         (priv_data[index].load(std::memory_order_relaxed) != 0)) {\n    ++index;\n  }\n  if (index == kHookListMaxValues) {\n    return false;\n  }\n  int prev_num_hooks = priv_end.load(std::memory_order_acquire);\n  priv_data[index].store(value_as_t, std::memory_order_release);\n  if (prev_num_hooks <= index) {\n    priv_end.store(index + 1, std::memory_order_release);\n  }\n  return true;", "  for (int index = 0; index < kHookListMaxValues; ++index) {\n    if (priv_data[index].load(std::memory_order_relaxed) != 0) continue;\n  int prev_num_hooks = priv_end.load(std::memory_order_acquire);\n  priv_data[index].store(value_as_t, std::memory_order_release);\n  if (index >= prev_num_hooks) {\n    priv_end.store(index + 1, std::memory_order_release);\n  }\n  return true;\n  }\n  return false;"),
 ("ref-rm-inloop", "ok", F, "  int index = 0;\n  while (index < hooks_end &&\n         value_as_t != priv_data[index].load(std::memory_order_acquire)) {\n    ++index;\n  }\n  if (index == hooks_end) {\n    return false;\n  }\n", "  int index = -1;\n  for (int i = 0; i < hooks_end; ++i) {\n    if (priv_data[i].load(std::memory_order_acquire) == value_as_t) { index = i; break; }\n  }\n  if (index < 0) return false;\n"),
 ("ref-inv-ptr", "ok", F, "  for (int i = 0; i < num_hooks; ++i) {\n    (*hooks[i])(args...);\n  }", "  int i = 0;\n  while (i < num_hooks) {\n    T h = hooks[i];\n    ++i;\n    h(args...);\n  }"),
]
