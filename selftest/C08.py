H = "tcmalloc/span.h"
C = "tcmalloc/span.cc"
R = "tcmalloc/internal/range_tracker.h"
M = [
 ("embed limit off by one", "bad", H, "  const size_t limit = size / sizeof(ObjIdx) - 1;", "  const size_t limit = size / sizeof(ObjIdx);"),
 ("first head not ended", "bad", H, "    *host = kListEnd;\n    freelist = idx;\n    embed_count = 0;\n  }\n\n  TC_ASSERT_NE", "    freelist = idx;\n    embed_count = 0;\n  }\n\n  TC_ASSERT_NE"),
 ("cache size kept", "bad", H, "    cache_size_ += cache_writes;\n    batch.remove_prefix(cache_writes);\n  }\n\n  if (batch.empty()) {\n    return true;\n  }\n\n  const", "    cache_size_ += cache_writes;\n    batch.remove_prefix(cache_writes - (cache_writes > 3));\n  }\n\n  if (batch.empty()) {\n    return true;\n  }\n\n  const"),
 ("first head kept in batch", "bad", H, "    ObjIdx idx = batch[0];\n    batch.remove_prefix(1);", "    ObjIdx idx = batch[0];"),
 ("embed count not stored", "bad", H, "  freelist_ = freelist;\n  embed_count_ = embed_count;\n  return true;", "  freelist_ = freelist;\n  if (embed_count > 1) embed_count_ = embed_count;\n  return true;"),
 ("pop index", "bad", H, "      batch[result + i] = IdxToPtr(host[embed_count - i], size, span_start);", "      batch[result + i] = IdxToPtr(host[iter - i], size, span_start);"),
 ("pop head full", "bad", H, "    embed_count_ = size / sizeof(ObjIdx) - 1;\n  }\n  allocated_", "    embed_count_ = size / sizeof(ObjIdx) - 2;\n  }\n  allocated_"),
 ("pop iter", "bad", H, "    if (result + embed_count > N) {", "    if (result + embed_count > N + 1) {"),
 ("pop cache size", "bad", H, "  cache_size_ = csize - result;", "  cache_size_ = csize > N ? csize - N : 1;"),
 ("pop allocated", "bad", H, "  allocated_.store(allocated_.load(std::memory_order_relaxed) + result,\n                   std::memory_order_relaxed);\n  return result;", "  allocated_.store(allocated_.load(std::memory_order_relaxed) + N,\n                   std::memory_order_relaxed);\n  return result;"),
 ("pop end check", "bad", H, "    if (freelist_ == kListEnd) {\n      break;\n    }", "    if (freelist_ == kListEnd && result > 0) {\n      break;\n    }"),
 ("pop skips store on full", "bad", H, "    if (result == N) {\n      embed_count_ = embed_count;\n      break;", "    if (result == N) {\n      if (embed_count > 0) embed_count_ = embed_count;\n      break;"),
 ("round", "bad", H, "      (offset * reciprocal + kBitmapScalingDenominator / 2) /", "      (offset * reciprocal + kBitmapScalingDenominator / 4) /"),
 ("valid", "bad", H, "    return objects <= kBitmapSize;", "    return objects <= kBitmapSize + 1;"),
 ("set pages flag", "bad", H, "  small_num_pages_ = len.raw_num();\n  is_large_span_ = 0;", "  small_num_pages_ = len.raw_num();"),
 ("set pages limit", "bad", H, "    is_large_span_ = len > kLargeSpanLength;\n    return;", "    is_large_span_ = len > kLargeSpanLength + Length(1);\n    return;"),
 ("last page", "bad", H, "  return first_page() + Length(small_num_pages_) - Length(1);", "  return first_page() + Length(small_num_pages_);"),
 ("given up late", "bad", H, "  if (ABSL_PREDICT_FALSE(allocated == batch.size())) {\n    return false;", "  if (ABSL_PREDICT_FALSE(allocated == batch.size() && batch.size() > 1)) {\n    return false;"),
 ("bitmap push starts at 1", "bad", H, "  for (const ObjIdx idx : batch) {\n    // Check that the object", "  for (const ObjIdx idx : batch.size() > 60 ? batch.subspan(1) : batch) {\n    // Check that the object"),
 ("build end", "bad", C, "  ObjIdx idxEnd = count * idxStep;", "  ObjIdx idxEnd = (count - 1) * idxStep;"),
 ("build start", "bad", C, "  ObjIdx idx = idxStep * result;", "  ObjIdx idx = idxStep * (result + 1);"),
 ("build cache size", "bad", C, "  for (; idx < idxEnd && cache_size < kCacheSize; idx += idxStep) {", "  for (; idx < idxEnd && cache_size < kCacheSize + 1; idx += idxStep) {"),
 ("build host", "bad", C, "      host[embed_count] = idxEnd;", "      host[embed_count] = idxEnd - idxStep;"),
 ("build embed", "bad", C, "    if (host && embed_count != max_embed) {", "    if (host && embed_count <= max_embed) {"),
 ("build count", "bad", C, "  embed_count_ = embed_count;\n  return result;", "  return result;"),
 ("build range", "bad", C, "  bitmap_.SetRange(0, count);", "  bitmap_.SetRange(0, count > 1 ? count - 1 : count);"),
 ("build no clear", "bad", C, "  bitmap_.Clear();  // bitmap can be non-zero from a previous use.\n", ""),
 ("sample pages", "bad", C, "  sampled_ = 1;\n  large_or_sampled_state_.num_pages = pages_per_span.raw_num();", "  sampled_ = 1;\n  large_or_sampled_state_.num_pages = small_num_pages_;"),
 ("popbatch write back", "bad", R, "      bits_[i] = word;\n    }", "      if (word) bits_[i] = word;\n    }"),
 ("popbatch order", "ok", H, "    embed_count -= iter;\n    result += iter;", "    result += iter;\n    embed_count -= iter;"),
 ("min", "ok", H, "  auto cache_reads = csize < N ? csize : N;", "  auto cache_reads = std::min<size_t>(csize, N);"),
 ("build ptr mul", "ok", C, "    batch[i] = ptr;\n    ptr += size;", "    batch[i] = ptr + i * size;"),
 ("build while", "ok", C, "  for (; idx < idxEnd && cache_size < kCacheSize; idx += idxStep) {\n    list_.cache[cache_size] = idx;\n    cache_size++;\n  }", "  while (cache_size < kCacheSize) {\n    if (idx >= idxEnd) break;\n    list_.cache[cache_size++] = idx;\n    idx += idxStep;\n  }"),
 ("push loop index", "ok", H, "  for (const ObjIdx idx : batch) {\n    if (ABSL_PREDICT_TRUE(embed_count != limit)) {", "  for (size_t i = 0; i < batch.size(); ++i) {\n    const ObjIdx idx = batch[i];\n    if (ABSL_PREDICT_TRUE(embed_count != limit)) {"),
 ("swap branches", "ok", C, "    if (host && embed_count != max_embed) {\n      // Push onto first object on the freelist.\n      embed_count++;\n      idxEnd -= idxStep;\n      host[embed_count] = idxEnd;\n    } else {\n      // The first object is full, push new object onto freelist.\n      host = IdxToPtr(idx, size, start);\n      host[0] = freelist_;\n      freelist_ = idx;\n      embed_count = 0;\n      idx += idxStep;\n    }", "    if (host == nullptr || embed_count == max_embed) {\n      host = IdxToPtr(idx, size, start);\n      *host = freelist_;\n      freelist_ = idx;\n      idx += idxStep;\n      embed_count = 0;\n    } else {\n      idxEnd -= idxStep;\n      host[++embed_count] = idxEnd;\n    }"),
 ("limit check early", "ok", H, "    if (ABSL_PREDICT_TRUE(embed_count != limit)) {\n      // Push onto the first object on freelist.\n      embed_count++;\n      host[embed_count] = idx;\n    } else {\n      // Push onto freelist.\n      ObjIdx* __restrict new_host = IdxToPtr(idx, size, start);\n      *new_host = freelist;\n      freelist = idx;\n      embed_count = 0;\n      host = new_host;\n    }", "    if (ABSL_PREDICT_FALSE(embed_count == limit)) {\n      host = IdxToPtr(idx, size, start);\n      *host = freelist;\n      freelist = idx;\n      embed_count = 0;\n      continue;\n    }\n    host[++embed_count] = idx;"),
 ("pages via helper", "ok", H, "inline Length Span::num_pages() const {\n  if (is_large_or_sampled()) {\n    return Length(large_or_sampled_state_.num_pages);\n  }\n  return Length(small_num_pages_);", "inline Length Span::num_pages() const {\n  return Length(is_large_or_sampled() ? large_or_sampled_state_.num_pages\n                                      : small_num_pages_);"),
 ("last page via num", "ok", H, "  if (is_large_or_sampled()) {\n    return first_page() + Length(large_or_sampled_state_.num_pages) - Length(1);\n  }\n  return first_page() + Length(small_num_pages_) - Length(1);", "  return first_page() + num_pages() - Length(1);"),
 ("pop remaining", "ok", H, "    size_t iter = embed_count;\n    if (result + embed_count > N) {\n      iter = N - result;\n    }", "    const size_t room = N - result;\n    const size_t iter = std::min<size_t>(embed_count, room);"),
]
