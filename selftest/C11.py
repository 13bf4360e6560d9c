T = "tcmalloc/thread_cache.cc"
H = "tcmalloc/thread_cache.h"
M = [
 ("alloc-nosize", "bad", H, "    size_ -= allocated_size;\n    return ret;", "    return ret;"),
 ("alloc-addsize", "bad", H, "    size_ -= allocated_size;\n    return ret;", "    size_ += allocated_size;\n    return ret;"),
 ("alloc-fetch0", "bad", H, "return FetchFromTransferCache(size_class, allocated_size);", "return FetchFromTransferCache(size_class, size_class);"),
 ("dealloc-nosize", "bad", H, "  size_ += tc_globals.sizemap().class_to_size(size_class);\n  ssize_t", "  ssize_t"),
 ("dealloc-list", "bad", H, "  if ((list_headroom | size_headroom) < 0) {", "  if (size_headroom < 0) {"),
 ("dealloc-size", "bad", H, "  if ((list_headroom | size_headroom) < 0) {", "  if (list_headroom < 0) {"),
 ("dealloc-and", "bad", H, "  if ((list_headroom | size_headroom) < 0) {", "  if ((list_headroom & size_headroom) < 0) {"),
 ("dealloc-head", "bad", H, "max_size_ - size_ - 1;", "max_size_ - size_;"),
 ("dealloc-two", "ok", H, "  if ((list_headroom | size_headroom) < 0) {", "  if (list_headroom < 0 || size_headroom < 0) {"),
 ("dealloc-cmp", "ok", H, "  if ((list_headroom | size_headroom) < 0) {", "  if (list->length() > list->max_length() || size_ >= max_size_) {"),
 ("low-pop", "bad", H, "      if (ABSL_PREDICT_TRUE(out) && ABSL_PREDICT_FALSE(length() < lowater_)) {\n        lowater_ = length();\n      }\n", ""),
 ("low-popbatch", "bad", H, "      if (length() < lowater_) lowater_ = length();", ""),
 ("low-popbatch-gt", "bad", H, "      if (length() < lowater_) lowater_ = length();", "      if (length() > lowater_) lowater_ = length();"),
 ("low-min", "ok", H, "      if (length() < lowater_) lowater_ = length();", "      lowater_ = length() < lowater_ ? length() : lowater_;"),
 ("low-clear", "bad", H, "void clear_lowwatermark() { lowater_ = length(); }", "void clear_lowwatermark() { lowater_ = max_length_; }"),
 ("max0", "bad", H, "      max_length_ = 1;\n", "      max_length_ = 0;\n"),
 ("fetch-first", "bad", T, "    list->PushBatch(fetch_count, batch + 1);", "    list->PushBatch(fetch_count, batch);"),
 ("fetch-nodec", "bad", T, "  if (--fetch_count > 0) {", "  if (fetch_count-- > 0) {"),
 ("fetch-drop", "bad", T, "  if (--fetch_count > 0) {", "  if (--fetch_count > 1) {"),
 ("fetch-size", "bad", T, "    size_ += byte_size * fetch_count;\n", "    size_ += byte_size * (fetch_count + 1);\n"),
 ("fetch-nosize", "bad", T, "    size_ += byte_size * fetch_count;\n", ""),
 ("fetch-max", "bad", T, "std::min<int>(list->max_length(), batch_size);", "std::max<int>(list->max_length(), batch_size);"),
 ("fetch-ret", "bad", T, "  return batch[0];\n", "  return batch[fetch_count];\n"),
 ("fetch-limit", "bad", T, "    new_length -= new_length % batch_size;", "    new_length = new_length % batch_size;"),
 ("fetch-helper", "ok", T, "    new_length -= new_length % batch_size;", "    new_length = new_length / batch_size * batch_size;"),
 ("fetch-early", "ok", T, "  if (--fetch_count > 0) {\n    size_ += byte_size * fetch_count;\n    list->PushBatch(fetch_count, batch + 1);", "  const int rest = fetch_count - 1;\n  if (rest != 0) {\n    list->PushBatch(rest, &batch[1]);\n    size_ += rest * byte_size;"),
 ("too-class", "bad", T, "  ReleaseToTransferCache(list, size_class, batch_size);\n\n  // If the list", "  ReleaseToTransferCache(list, size_class, 1);\n\n  // If the list"),
 ("too-shrink", "bad", T, "  } else if (list->max_length() > batch_size) {", "  } else {"),
 ("too-zero", "bad", T, "      list->set_max_length(list->max_length() - batch_size);", "      list->set_max_length(list->max_length() - 2 * batch_size);"),
 ("rel-nomin", "bad", T, "  if (N > src->length()) N = src->length();\n", ""),
 ("rel-max", "bad", T, "  if (N > src->length()) N = src->length();\n", "  if (N < src->length()) N = src->length();\n"),
 ("rel-min", "ok", T, "  if (N > src->length()) N = src->length();\n", "  N = std::min<int>(N, src->length());\n"),
 ("rel-delta", "bad", T, ["  if (N > src->length()) N = src->length();\n  size_t delta_bytes = N * tc_globals.sizemap().class_to_size(size_class);\n"], ["  size_t delta_bytes = N * tc_globals.sizemap().class_to_size(size_class);\n  if (N > src->length()) N = src->length();\n"]),
 ("rel-nosize", "bad", T, "  size_ -= delta_bytes;\n", ""),
 ("rel-sub", "bad", T, "    N -= batch_size;\n", "    N -= batch_size + 1;\n"),
 ("rel-ins", "bad", T, "  tc_globals.transfer_cache().InsertRange(size_class,\n                                          absl::Span<void*>(batch, N));", "  tc_globals.transfer_cache().InsertRange(size_class,\n                                          absl::Span<void*>(batch, batch_size));"),
 ("rel-ge", "ok", T, "  while (N > batch_size) {", "  while (N >= batch_size + 1) {"),
 ("rel-unbounded", "bad", T, "  while (N > batch_size) {", "  while (N > 2 * batch_size) {"),
 ("rel-lost", "bad", T, "  src->PopBatch(N, batch);\n", "  src->PopBatch(N, batch);\n  if (N == batch_size) src->PopBatch(N, batch);\n"),
 ("rel-loop", "ok", T, "    N -= batch_size;\n", "    N = N - batch_size;\n"),
 ("rel-late", "ok", T, ["  size_t delta_bytes = N * tc_globals.sizemap().class_to_size(size_class);\n", "  size_ -= delta_bytes;\n"], ["  size_ -= N * tc_globals.sizemap().class_to_size(size_class);\n", ""]),
 ("clean-one", "bad", T, "void ThreadCache::Cleanup() {\n  // Put unused memory back into transfer cache\n  for (int size_class = 0; size_class < kNumClasses; ++size_class) {", "void ThreadCache::Cleanup() {\n  for (int size_class = 0; size_class < kNumClasses - 1; ++size_class) {"),
 ("clean-half", "bad", T, "                             list_[size_class].length());\n    }", "                             list_[size_class].length() / 2);\n    }"),
 ("clean-skip", "bad", T, "    if (!list_[size_class].empty()) {\n      Rel", "    if (list_[size_class].length() > 1) {\n      Rel"),
 ("clean-ref", "ok", T, "    if (!list_[size_class].empty()) {\n      ReleaseToTransferCache(&list_[size_class], size_class,\n                             list_[size_class].length());\n    }", "    FreeList& l = list_[size_class];\n    if (l.empty()) continue;\n    ReleaseToTransferCache(&l, size_class, l.length());"),
 ("scav-drop", "bad", T, "const int drop = (lowmark > 1) ? lowmark / 2 : 1;", "const int drop = lowmark * 2;"),
 ("scav-all", "ok", T, "const int drop = (lowmark > 1) ? lowmark / 2 : 1;", "const int drop = lowmark;"),
 ("scav-noclear", "bad", T, "    list->clear_lowwatermark();\n", ""),
 ("scav-from1", "bad", T, "  for (int size_class = 0; size_class < kNumClasses; size_class++) {\n    FreeList* list", "  for (int size_class = 0; size_class < kNumClasses - 1; size_class++) {\n    FreeList* list"),
 ("scav-zero", "bad", T, "            std::max<int>(list->max_length() - batch_size, batch_size));", "            std::min<int>(list->max_length() - batch_size, batch_size) - 1);"),
 ("slow-len", "bad", T, "  if (ABSL_PREDICT_FALSE(list->length() > list->max_length())) {", "  if (ABSL_PREDICT_FALSE(list->length() > 2 * list->max_length())) {"),
 ("slow-size", "bad", T, "  if (size_ >= max_size_) {\n    Scavenge", "  if (size_ >= 2 * max_size_) {\n    Scavenge"),
 ("inc-noun", "bad", T, "    unclaimed_cache_space_ -= kStealAmount;\n", ""),
 ("inc-more", "bad", T, "    unclaimed_cache_space_ -= kStealAmount;\n    max_size_ += kStealAmount;", "    unclaimed_cache_space_ -= kStealAmount;\n    max_size_ += 2 * kStealAmount;"),
 ("inc-self", "bad", T, "    if (next_memory_steal_ == this ||\n        next_memory_steal_->max_size_ <= kMinThreadCacheSize) {", "    if (next_memory_steal_->max_size_ <= kMinThreadCacheSize) {"),
 ("inc-min", "bad", T, "    if (next_memory_steal_ == this ||\n        next_memory_steal_->max_size_ <= kMinThreadCacheSize) {", "    if (next_memory_steal_ == this) {"),
 ("inc-nosteal", "bad", T, "    next_memory_steal_->max_size_ -= kStealAmount;\n", ""),
 ("inc-local", "ok", T, "    next_memory_steal_->max_size_ -= kStealAmount;\n    max_size_ += kStealAmount;\n\n    next_memory_steal_ = next_memory_steal_->next_;", "    ThreadCache* from = next_memory_steal_;\n    max_size_ += kStealAmount;\n    from->max_size_ -= kStealAmount;\n    next_memory_steal_ = from->next_;"),
 ("ctor-un", "bad", T, "    unclaimed_cache_space_ -= kMinThreadCacheSize;\n", ""),
 ("ctor-size", "bad", T, "  size_ = 0;\n\n  max_size_ = 0;", "  max_size_ = 0;"),
 ("new-back", "bad", T, "    thread_heaps_->prev_ = heap;\n", ""),
 ("new-next", "bad", T, "  heap->next_ = thread_heaps_;\n", "  heap->next_ = nullptr;\n"),
 ("new-top", "bad", T, "  thread_heaps_ = heap;\n  thread_heap_count_++;", "  thread_heap_count_++;"),
 ("new-count", "bad", T, "  thread_heap_count_++;\n", ""),
 ("idle-tls", "bad", T, "  // Also update the copy in __thread\n  thread_local_data_ = nullptr;\n", ""),
 ("idle-reg", "bad", T, "  PerCpuState::state().RegisterThreadCache(nullptr);\n", ""),
 ("destroy-tls", "bad", T, "  thread_local_data_ = nullptr;\n  DeleteCache(ptr);", "  DeleteCache(ptr);"),
 ("del-clean", "bad", T, "  heap->Cleanup();\n", ""),
 ("del-prev", "bad", T, "    if (heap->next_ != nullptr) heap->next_->prev_ = heap->prev_;\n", ""),
 ("del-next", "bad", T, "    if (heap->prev_ != nullptr) heap->prev_->next_ = heap->next_;\n", ""),
 ("del-top", "bad", T, "    if (thread_heaps_ == heap) thread_heaps_ = heap->next_;\n", ""),
 ("del-steal", "bad", T, "    if (next_memory_steal_ == heap) next_memory_steal_ = heap->next_;\n", ""),
 ("del-steal-null", "ok", T, "    if (next_memory_steal_ == nullptr) next_memory_steal_ = thread_heaps_;\n", ""),
 ("del-space", "bad", T, "    unclaimed_cache_space_ += heap->max_size_;\n", "    unclaimed_cache_space_ += heap->size_;\n"),
 ("del-nospace", "bad", T, "    unclaimed_cache_space_ += heap->max_size_;\n", ""),
 ("del-order", "ok", T, "    if (heap->next_ != nullptr) heap->next_->prev_ = heap->prev_;\n    if (heap->prev_ != nullptr) heap->prev_->next_ = heap->next_;\n", "    if (heap->prev_ != nullptr) heap->prev_->next_ = heap->next_;\n    if (heap->next_ != nullptr) heap->next_->prev_ = heap->prev_;\n"),
 ("del-else", "ok", T, "    if (heap->prev_ != nullptr) heap->prev_->next_ = heap->next_;\n    if (thread_heaps_ == heap) thread_heaps_ = heap->next_;\n", "    if (thread_heaps_ == heap) {\n      thread_heaps_ = heap->next_;\n    }\n    ThreadCache* before = heap->prev_;\n    if (before != nullptr) before->next_ = heap->next_;\n"),
 ("rec-ratio", "bad", T, "    if (ratio < 1.0) {\n      h->max_size_ *= ratio;\n    }\n    claimed += h->max_size_;", "    claimed += h->max_size_;\n    if (ratio < 1.0) {\n      h->max_size_ *= ratio;\n    }"),
 ("rec-skip", "bad", T, "    claimed += h->max_size_;", "    if (h->max_size_ > kMinThreadCacheSize) claimed += h->max_size_;"),
 ("rec-noclaim", "bad", T, "overall_thread_cache_size_.load(std::memory_order_relaxed) - claimed;", "overall_thread_cache_size_.load(std::memory_order_relaxed);"),
 ("stat-size", "bad", T, "    *total_bytes += h->size_;", "    *total_bytes += h->max_size_;"),
 ("stat-set", "bad", T, "    *total_bytes += h->size_;", "    *total_bytes = h->size_;"),
 ("create-tls", "bad", T, "    thread_local_data_ = heap;\n    PerCpuState", "    PerCpuState"),
 ("create-while", "ok", T, "      for (ThreadCache* h = thread_heaps_; h != nullptr; h = h->next_) {\n        if (pthread_equal(h->tid_, me) != 0) {\n          heap = h;\n          break;\n        }\n      }", "      heap = thread_heaps_;\n      while (heap != nullptr && pthread_equal(heap->tid_, me) == 0) heap = heap->next_;"),
]
