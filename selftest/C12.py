H = "tcmalloc/cpu_cache.h"
M = [
 ("fetch-class", "bad", H, "    return forwarder_.sharded_transfer_cache().RemoveRange(size_class, batch);", "    return forwarder_.sharded_transfer_cache().RemoveRange(size_class, batch.subspan(1));"),
 ("put-plain", "bad", H, "    forwarder_.sharded_transfer_cache().InsertRange(size_class, batch);\n", "    forwarder_.transfer_cache().InsertRange(size_class, batch);\n"),
 ("refill-i", "bad", H, "    i = got;\n    if (result == nullptr) {\n      i--;\n", "    i = got;\n    if (result == nullptr) {\n"),
 ("refill-every", "bad", H, "    if (result == nullptr) {\n      i--;\n      result = batch[i];\n    }", "    i--;\n    result = batch[i];"),
 ("refill-first", "bad", H, "      i--;\n      result = batch[i];", "      i--;\n      result = batch[0];"),
 ("refill-leak", "bad", H, "      if (i != 0) {\n        ReleaseToBackingCache(size_class, {batch, i});\n      }", "      if (i > 1) {\n        ReleaseToBackingCache(size_class, {batch, i});\n      }"),
 ("refill-want", "bad", H, "    const size_t want = std::min(kMaxObjectsToMove, target - total);\n    got", "    const size_t want = target - total;\n    got"),
 ("refill-want2", "bad", H, "    const size_t want = std::min(kMaxObjectsToMove, target - total);\n    got", "    const size_t want = std::min(2 * kMaxObjectsToMove, target - total);\n    got"),
 ("refill-push", "bad", H, "      i -= freelist_.PushBatch(size_class, batch, i);", "      i -= freelist_.PushBatch(size_class, batch, got);"),
 ("refill-nul", "bad", H, "  return result;\n}\n\ntemplate <class Forwarder>\ninline bool CpuCache<Forwarder>::BypassCpuCache", "  return total < target ? nullptr : result;\n}\n\ntemplate <class Forwarder>\ninline bool CpuCache<Forwarder>::BypassCpuCache"),
 ("refill-if", "ok", H, "    if (i) {\n      i -= freelist_.PushBatch(size_class, batch, i);\n      if (i != 0) {\n        ReleaseToBackingCache(size_class, {batch, i});\n      }\n    }", "    if (i == 0) continue;\n    const size_t pushed = freelist_.PushBatch(size_class, batch, i);\n    i = i - pushed;\n    if (i > 0) {\n      ReleaseToBackingCache(size_class, absl::Span<void*>(batch, i));\n    }"),
 ("refill-for", "ok", H, "  do {\n    const size_t want = std::min(kMaxObjectsToMove, target - total);\n    got = FetchFromBackingCache(size_class, absl::MakeSpan(batch, want));\n    if (got == 0) {\n      break;\n    }", "  do {\n    got = FetchFromBackingCache(\n        size_class,\n        absl::MakeSpan(batch, target - total < kMaxObjectsToMove\n                                  ? target - total\n                                  : kMaxObjectsToMove));\n    if (!got) return result;\n"),
 ("refill-rel0", "ok", H, "      if (i != 0) {\n        ReleaseToBackingCache(size_class, {batch, i});\n      }\n    }\n  } while", "      ReleaseToBackingCache(size_class, {batch, i});\n    }\n  } while"),
 ("free-count0", "bad", H, "  size_t total = 0;\n  size_t count = 1;", "  size_t total = 0;\n  size_t count = 0;"),
 ("free-again", "bad", H, "    count = 0;\n  } while (total < target);", "    count = 1;\n  } while (total < target);"),
 ("free-at", "bad", H, "      count += freelist_.PopBatch(size_class, batch + count, want - count);", "      count += freelist_.PopBatch(size_class, batch, want - count);"),
 ("free-many", "bad", H, "      count += freelist_.PopBatch(size_class, batch + count, want - count);", "      count += freelist_.PopBatch(size_class, batch + count, want);"),
 ("free-set", "bad", H, "      count += freelist_.PopBatch(size_class, batch + count, want - count);", "      count = freelist_.PopBatch(size_class, batch + count, want - count);"),
 ("free-want", "bad", H, "    size_t want = std::min(kMaxObjectsToMove, target - total);\n    if (count", "    size_t want = target - total;\n    if (count"),
 ("free-drop", "bad", H, "    total += count;\n    ReleaseToBackingCache(size_class, absl::Span<void*>(batch, count));", "    total += count;\n    if (count > 1) ReleaseToBackingCache(size_class, absl::Span<void*>(batch, count));"),
 ("free-less", "bad", H, "    ReleaseToBackingCache(size_class, absl::Span<void*>(batch, count));", "    ReleaseToBackingCache(size_class, absl::Span<void*>(batch, std::min(count, total)));"),
 ("free-both", "bad", H, "    if (DeallocateFast(ptr, size_class)) {\n      return;\n    }\n  }\n  RecordCacheMissStat(cpu, false);", "    (void)DeallocateFast(ptr, size_class);\n  }\n  RecordCacheMissStat(cpu, false);"),
 ("free-stop", "bad", H, "      return ReleaseToBackingCache(size_class, {&ptr, 1});", "      ReleaseToBackingCache(size_class, {&ptr, 1});"),
 ("free-stopped", "bad", H, "    if (ABSL_PREDICT_FALSE(cpu < 0)) {\n      // The cpu is stopped.\n      return ReleaseToBackingCache(size_class, {&ptr, 1});\n    }\n", ""),
 ("free-init", "ok", H, "  void* batch[kMaxObjectsToMove];\n  batch[0] = ptr;\n  do {", "  void* batch[kMaxObjectsToMove];\n  *batch = ptr;\n  do {"),
 ("free-local", "ok", H, "      count += freelist_.PopBatch(size_class, batch + count, want - count);", "      const size_t popped =\n          freelist_.PopBatch(size_class, &batch[count], want - count);\n      count = popped + count;"),
 ("free-while", "ok", H, "    total += count;\n    ReleaseToBackingCache(size_class, absl::Span<void*>(batch, count));\n    if (count != kMaxObjectsToMove) break;\n    count = 0;\n  } while (total < target);", "    ReleaseToBackingCache(size_class, {batch, count});\n    total += count;\n    if (count < kMaxObjectsToMove || total >= target) return;\n    count = 0;\n  } while (true);"),
 ("alloc-uninit", "bad", H, "      void* ptr = nullptr;\n      int r = FetchFromBackingCache", "      void* ptr;\n      int r = FetchFromBackingCache"),
 ("alloc-two", "bad", H, "absl::MakeSpan(&ptr, 1));\n#ifndef", "absl::MakeSpan(&ptr, 2));\n#ifndef"),
 ("alloc-drop", "bad", H, "    if (void* ret = AllocateFast(size_class)) {\n      return ret;\n    }", "    (void)AllocateFast(size_class);"),
 ("alloc-stopped", "bad", H, "    if (ABSL_PREDICT_FALSE(cpu < 0)) {\n      // The cpu is stopped.\n      void* ptr = nullptr;", "    if (ABSL_PREDICT_FALSE(cpu < -1)) {\n      // The cpu is stopped.\n      void* ptr = nullptr;"),
 ("alloc-ok", "ok", H, "    if (void* ret = AllocateFast(size_class)) {\n      return ret;\n    }", "    void* ret = AllocateFast(size_class);\n    if (ret != nullptr) return ret;"),
 ("sub-load", "bad", H, "    size_t got = std::min(cmp, max);\n", "    size_t got = max;\n"),
 ("sub-whole", "bad", H, "compare_exchange_weak(cmp, cmp - got, std::memory_order_relaxed)) {\n      return got;", "compare_exchange_weak(cmp, 0, std::memory_order_relaxed)) {\n      return got;"),
 ("sub-min", "bad", H, "    if (cmp < min) {\n      return 0;\n    }\n    size_t got", "    if (cmp == 0) {\n      return 0;\n    }\n    size_t got"),
 ("sub-once", "bad", H, "    if (a->compare_exchange_weak(cmp, cmp - got, std::memory_order_relaxed)) {\n      return got;\n    }", "    a->compare_exchange_weak(cmp, cmp - got, std::memory_order_relaxed);\n    return got;"),
 ("sub-while", "ok", H, "  for (;;) {\n    if (cmp < min) {\n      return 0;\n    }\n    size_t got = std::min(cmp, max);\n    if (a->compare_exchange_weak(cmp, cmp - got, std::memory_order_relaxed)) {\n      return got;\n    }\n  }", "  while (cmp >= min) {\n    const size_t got = cmp > max ? max : cmp;\n    if (a->compare_exchange_weak(cmp, cmp - got, std::memory_order_relaxed)) {\n      return got;\n    }\n  }\n  return 0;"),
 ("grow-rest", "bad", H, "acquired_bytes - increase * size) {", "desired_bytes - increase * size) {"),
 ("grow-mod", "bad", H, "acquired_bytes - increase * size) {", "acquired_bytes % size) {"),
 ("grow-none", "bad", H, "    resize_[cpu].available.fetch_add(unused, std::memory_order_relaxed);\n  }\n}\n\ntemplate <class Forwarder>\ninline void CpuCache<Forwarder>::TryDraining", "    if (increase) resize_[cpu].available.fetch_add(unused, std::memory_order_relaxed);\n  }\n}\n\ntemplate <class Forwarder>\ninline void CpuCache<Forwarder>::TryDraining"),
 ("grow-want", "bad", H, "      cpu, size_class, actual_increase,\n", "      cpu, size_class, desired_increase,\n"),
 ("grow-any", "bad", H, "subtract_at_least(&resize_[cpu].available, size, desired_bytes);", "subtract_at_least(&resize_[cpu].available, 1, desired_bytes);"),
 ("grow-store", "ok", H, "  if (size_t unused = acquired_bytes - increase * size) {\n    // return whatever we didn't use to the slack.\n    resize_[cpu].available.fetch_add(unused, std::memory_order_relaxed);\n  }", "  const size_t used = size * increase;\n  if (used != acquired_bytes) {\n    resize_[cpu].available.fetch_add(acquired_bytes - used,\n                                     std::memory_order_relaxed);\n  }"),
 ("grow-always", "ok", H, "  if (size_t unused = acquired_bytes - increase * size) {\n    // return whatever we didn't use to the slack.\n    resize_[cpu].available.fetch_add(unused, std::memory_order_relaxed);\n  }", "  resize_[cpu].available.fetch_add(acquired_bytes - increase * size,\n                                   std::memory_order_relaxed);"),
 ("drain-cap", "bad", H, "fetch_add(cap * size,", "fetch_add(count * size,"),
 ("drain-step", "bad", H, "    for (size_t i = 0; i < count; i += batch_length) {\n      size_t n = std::min(batch_length, count - i);", "    for (size_t i = 0; i + batch_length <= count; i += batch_length) {\n      size_t n = std::min(batch_length, count - i);"),
 ("drain-n", "bad", H, "      size_t n = std::min(batch_length, count - i);\n", "      size_t n = std::min(batch_length, count);\n"),
 ("drain-at", "bad", H, "absl::Span<void*>(batch + i, n));\n    }\n  }\n\n  CpuCache& cache;", "absl::Span<void*>(batch, n));\n    }\n  }\n\n  CpuCache& cache;"),
 ("drain-bytes", "bad", H, "*bytes += count * size;", "*bytes += cap * size;"),
 ("drain-while", "ok", H, "    for (size_t i = 0; i < count; i += batch_length) {\n      size_t n = std::min(batch_length, count - i);\n      cache.ReleaseToBackingCache(size_class, absl::Span<void*>(batch + i, n));\n    }", "    size_t i = 0;\n    while (i < count) {\n      const size_t left = count - i;\n      const size_t n = left < batch_length ? left : batch_length;\n      cache.ReleaseToBackingCache(size_class, absl::Span<void*>(batch + i, n));\n      i += n;\n    }"),
 ("drain-all", "ok", H, "    if (bytes != nullptr) *bytes += count * size;\n", "    if (bytes) {\n      *bytes = *bytes + size * count;\n    }\n"),
 ("oth-debit", "bad", H, "    if (stolen != 0) {\n      resize_[src_cpu].capacity.fetch_sub(stolen, std::memory_order_relaxed);\n", "    if (stolen != 0) {\n"),
 ("oth-debit2", "bad", H, "        resize_[src_cpu].capacity.fetch_sub(stolen, std::memory_order_relaxed);\n        acquired += stolen;", "        resize_[src_cpu].capacity.fetch_sub(acquired, std::memory_order_relaxed);\n        acquired += stolen;"),
 ("oth-lost", "bad", H, "      acquired += stolen;\n      if (acquired >= bytes) {\n        continue;\n      }", "      if (acquired + stolen >= bytes) {\n        acquired += stolen;\n        continue;\n      }"),
 ("oth-dst", "bad", H, "capacity.fetch_sub(stolen, std::memory_order_relaxed);\n      acquired += stolen;\n      if (acquired >= bytes) {\n        continue", "capacity.fetch_sub(bytes, std::memory_order_relaxed);\n      acquired += stolen;\n      if (acquired >= bytes) {\n        continue"),
 ("oth-ge", "ok", H, "      acquired += stolen;\n      if (acquired >= bytes) {\n        continue;\n      }\n    }", "      acquired += stolen;\n      if (!(acquired < bytes)) continue;\n    }"),
 ("oth-always", "ok", H, "    if (stolen != 0) {\n      resize_[src_cpu].capacity.fetch_sub(stolen, std::memory_order_relaxed);\n      acquired += stolen;\n      if (acquired >= bytes) {\n        continue;\n      }\n    }", "    resize_[src_cpu].capacity.fetch_sub(stolen, std::memory_order_relaxed);\n    acquired += stolen;\n    if (acquired >= bytes) {\n      continue;\n    }"),
 ("shr-two", "bad", H, "          cpu, size_class, /*len=*/1,\n", "          cpu, size_class, /*len=*/2,\n"),
 ("shr-ret", "bad", H, "          })) {\n    return 0;\n  }\n  return size;", "          })) {\n    return 0;\n  }\n  return size * batch_length;"),
 ("shr-always", "bad", H, "  if (!freelist_.ShrinkOtherCache(\n          cpu, size_class, /*len=*/1,", "  if (length && !freelist_.ShrinkOtherCache(\n          cpu, size_class, /*len=*/1,"),
 ("shr-tern", "ok", H, ["  if (!freelist_.ShrinkOtherCache(\n", "          })) {\n    return 0;\n  }\n  return size;"], ["  const size_t shrunk = (freelist_.ShrinkOtherCache(\n", "          }));\n  return shrunk != 0 ? size : 0;"]),
 ("oth-end", "bad", H, "    resize_[cpu].capacity.fetch_add(acquired, std::memory_order_relaxed);\n  }\n}", "    resize_[cpu].capacity.fetch_add(bytes, std::memory_order_relaxed);\n  }\n}"),
 ("oth-end2", "bad", H, "  if (acquired) {\n    resize_[cpu].available", "  if (acquired >= bytes) {\n    resize_[cpu].available"),
 ("oth-end3", "ok", H, "  if (acquired) {\n    resize_[cpu].available.fetch_add(acquired, std::memory_order_relaxed);\n    resize_[cpu].capacity.fetch_add(acquired, std::memory_order_relaxed);\n  }", "  if (acquired == 0) return;\n  auto& info = resize_[cpu];\n  info.capacity.fetch_add(acquired, std::memory_order_relaxed);\n  info.available.fetch_add(acquired, std::memory_order_relaxed);"),
 ("rs-lost", "bad", H, "  resize_[cpu].available.fetch_add(available, std::memory_order_relaxed);\n  resize_[cpu].num_size", "  if (num_resizes) resize_[cpu].available.fetch_add(available, std::memory_order_relaxed);\n  resize_[cpu].num_size"),
 ("rs-store", "bad", H, "  resize_[cpu].available.fetch_add(available, std::memory_order_relaxed);\n  resize_[cpu].num_size", "  resize_[cpu].available.store(available, std::memory_order_relaxed);\n  resize_[cpu].num_size"),
 ("rs-load", "bad", H, "      resize_[cpu].available.exchange(0, std::memory_order_relaxed);\n  size_t num_resizes", "      resize_[cpu].available.load(std::memory_order_relaxed);\n  size_t num_resizes"),
 ("rs-got", "bad", H, "        available -= got * size;", "        available -= capacity_acquired * size;"),
 ("rs-set", "bad", H, "        available += StealCapacityForSizeClassWithinCpu(", "        available = StealCapacityForSizeClassWithinCpu("),
 ("rs-afford", "bad", H, "std::min<size_t>(can_grow, available / size);", "std::min<size_t>(can_grow, need_bytes / size);"),
 ("rs-ok", "ok", H, "      size_t capacity_acquired = std::min<size_t>(can_grow, available / size);\n      if (capacity_acquired != 0) {\n        size_t got", "      const size_t affordable = available / size;\n      size_t capacity_acquired = affordable;\n      if (static_cast<size_t>(can_grow) < affordable) capacity_acquired = can_grow;\n      if (capacity_acquired > 0) {\n        const size_t got"),
 ("rs-loop", "ok", H, "      if (miss_stats[i].misses == 0) break;\n      const size_t size_class_to_grow = miss_stats[i].size_class;", "      const SizeClassMissStat stat = miss_stats[i];\n      if (stat.misses == 0) break;\n      const size_t size_class_to_grow = stat.size_class;"),
]
