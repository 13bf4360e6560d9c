H = "tcmalloc/transfer_cache_internals.h"
M = [
 ("got not limited by room", "bad", H, "      int got = std::min(N, info.capacity - info.used);", "      int got = std::min(N, info.capacity);"),
 ("insert slot off", "bad", H, "        void** entry = GetSlot(info.used - got);\n        memcpy(entry, batch", "        void** entry = GetSlot(info.used);\n        memcpy(entry, batch"),
 ("insert copies tail", "bad", H, "memcpy(entry, batch.data(), sizeof(void*) * got);\n        insert", "memcpy(entry, batch.data() + (N - got), sizeof(void*) * got);\n        insert"),
 ("insert rest dropped", "bad", H, "        if (got == N) {\n          return;", "        if (got > 0) {\n          return;"),
 ("insert rest head", "bad", H, "batch = {batch.data() + got, batch.size() - got};", "batch = {batch.data(), batch.size() - got};"),
 ("insert rest twice", "bad", H, "batch = {batch.data() + got, batch.size() - got};", "batch = {batch.data() + got, batch.size()};"),
 ("insert stale", "bad", H, "      // them here. Instead, we just check if they have spare free capacity.\n      info = slot_info_.load(std::memory_order_relaxed);\n", ""),
 ("remove stale", "bad", H, "      // Refetch with the lock\n      info = slot_info_.load(std::memory_order_relaxed);\n", ""),
 ("remove slot", "bad", H, "        void** entry = GetSlot(info.used);\n        memcpy(batch", "        void** entry = GetSlot(0);\n        memcpy(batch"),
 ("remove count", "bad", H, "        low_water_mark_ = std::min(low_water_mark_, info.used);\n        return got;", "        low_water_mark_ = std::min(low_water_mark_, info.used);\n        return batch.size();"),
 ("remove mark", "bad", H, "        low_water_mark_ = std::min(low_water_mark_, info.used);\n        return got;", "        return got;"),
 ("plunder unbounded", "bad", H, "std::min({B, info.used, to_return})", "std::min({B, to_return})"),
 ("plunder stale count", "bad", H, "    while (true) {\n      info = GetSlotInfo();\n      const int B", "    while (true) {\n      const int B"),
 ("plunder slot", "bad", H, "void** const entry = GetSlot(info.used - num_to_move);", "void** const entry = GetSlot(info.used - B);"),
 ("plunder not counted", "bad", H, "      low_water_mark_ = info.used;\n      SetSlotInfo(info);\n      lock_.unlock();", "      low_water_mark_ = info.used;\n      lock_.unlock();"),
 ("plunder mark", "bad", H, "      low_water_mark_ = info.used;\n      SetSlotInfo(info);\n      lock_.unlock();", "      SetSlotInfo(info);\n      lock_.unlock();"),
 ("grow past", "bad", H, "if (info.capacity + n > max_capacity_) return false;", "if (info.capacity >= max_capacity_) return false;"),
 ("grow two", "bad", H, "    info.capacity += n;\n", "    info.capacity += 2 * n;\n"),
 ("can grow", "bad", H, "return max_capacity_ - info.capacity >= n;", "return max_capacity_ - info.capacity > 0;"),
 ("shrink lies", "bad", H, "        info.capacity -= N;\n        SetSlotInfo(info);\n        return true;", "        info.capacity -= N;\n        SetSlotInfo(info);\n        return false;"),
 ("shrink evicts too few", "bad", H, "      num_to_free = N - unused;", "      num_to_free = N - unused - 1;"),
 ("shrink slot", "bad", H, "memcpy(to_free, GetSlot(info.used), sizeof(void*) * num_to_free);", "memcpy(to_free, GetSlot(0), sizeof(void*) * num_to_free);"),
 ("shrink drops", "bad", H, "    freelist().InsertRange({to_free, static_cast<uint64_t>(num_to_free)});\n    return true;", "    if (num_to_free > 1) freelist().InsertRange({to_free, static_cast<uint64_t>(num_to_free)});\n    return true;"),
 ("shrink mark", "bad", H, "      low_water_mark_ = std::min(low_water_mark_, info.used);\n      // Our", "      // Our"),
 ("slots alloc", "bad", H, "max_capacity_ * sizeof(void*)))", "capacity.capacity * sizeof(void*)))"),
 ("start capacity", "bad", H, "    capacity = std::min(capacity, max_capacity);\n", ""),
 ("resize early stop", "bad", H, "while (ABSL_PREDICT_FALSE(total_grown < total_shrunk)) {", "while (ABSL_PREDICT_FALSE(total_grown + 1 < total_shrunk)) {"),
 ("resize uncounted", "bad", H, "      if (manager.ShrinkCache(shrink_size_class)) {\n        ++total_shrunk;\n        break;", "      if (manager.ShrinkCache(shrink_size_class)) {\n        total_shrunk += to_grow < 20;\n        break;"),
 ("resize free growth", "bad", H, "    for (; to_grow < to_shrink; ++to_grow) {\n      int grow", "    for (; to_grow <= to_shrink; ++to_grow) {\n      int grow"),
 ("resize grown counted anyway", "bad", H, "      if (manager.IncreaseCacheCapacity(grow_size_class)) {\n        ++total_grown;\n        break;\n      }\n    }\n  }\n}", "      ++total_grown;\n      if (manager.IncreaseCacheCapacity(grow_size_class)) {\n        break;\n      }\n    }\n  }\n}"),
 ("min by hand", "ok", H, "      int got = std::min(N, info.capacity - info.used);", "      int got = info.capacity - info.used;\n      if (N < got) got = N;"),
 ("slot before count", "ok", H, "        info.used += got;\n        SetSlotInfo(info);\n        void** entry = GetSlot(info.used - got);\n        memcpy(entry, batch.data(), sizeof(void*) * got);", "        void** entry = GetSlot(info.used);\n        memcpy(entry, batch.data(), sizeof(void*) * got);\n        info.used += got;\n        SetSlotInfo(info);"),
 ("copy in a loop helper", "ok", H, "        info.used -= got;\n        SetSlotInfo(info);\n        void** entry = GetSlot(info.used);\n        memcpy(batch.data(), entry, sizeof(void*) * got);", "        memcpy(batch.data(), GetSlot(info.used - got), got * sizeof(void*));\n        info.used -= got;\n        SetSlotInfo(info);"),
 ("subspan", "ok", H, "batch = {batch.data() + got, batch.size() - got};", "batch = batch.subspan(got);"),
 ("shrink test merged", "ok", H, "      if (info.capacity == 0) return false;\n      if (info.capacity <= N) return false;", "      if (info.capacity <= N || info.capacity == 0) return false;"),
 ("grow test turned", "ok", H, "    if (info.capacity + n > max_capacity_) return false;\n    // Increase capacity of the cache.\n    info.capacity += n;\n    SetSlotInfo(info);\n    return true;", "    const bool fits = info.capacity + n <= max_capacity_;\n    if (fits) {\n      info.capacity += n;\n      SetSlotInfo(info);\n    }\n    return fits;"),
 ("plunder loop turned", "ok", H, "      if (num_to_move == 0) break;\n\n      void* buf", "      if (num_to_move == 0) {\n        lock_.unlock();\n        return;\n      }\n\n      void* buf"),
 ("resize loop turned", "ok", H, "  while (ABSL_PREDICT_FALSE(total_grown < total_shrunk)) {", "  for (;;) {\n    if (total_shrunk <= total_grown) break;"),
 ("resize while", "ok", H, "    for (; to_grow < to_shrink; --to_shrink) {\n      int shrink_size_class = misses[to_shrink].size_class;\n      if (manager.ShrinkCache(shrink_size_class)) {\n        ++total_shrunk;\n        break;\n      }\n    }", "    while (to_grow < to_shrink) {\n      if (manager.ShrinkCache(misses[to_shrink].size_class)) {\n        ++total_shrunk;\n        break;\n      }\n      --to_shrink;\n    }"),
 ("ctor body", "ok", H, "    slots_ = max_capacity_ != 0 ? reinterpret_cast<void**>(owner_->Alloc(\n                                      max_capacity_ * sizeof(void*)))\n                                : nullptr;", "    if (max_capacity_ > 0) {\n      slots_ = static_cast<void**>(owner_->Alloc(sizeof(void*) * max_capacity_));\n    }"),
]
