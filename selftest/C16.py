A = "tcmalloc/huge_allocator.cc"
H = "tcmalloc/huge_cache.cc"
M = [
 ("get-start", "bad", A, "HugeRange::Make(r.start() + n, before - n);", "HugeRange::Make(r.start() + n, before - n - NHugePages(1));"),
 ("get-lose", "bad", A, "    in_use_ += extra.len();\n    Release(extra);", "    in_use_ += extra.len();\n    if (extra.len() > NHugePages(1)) Release(extra);"),
 ("get-whole", "bad", A, "    r = HugeRange::Make(r.start(), n);\n", ""),
 ("get-used", "bad", A, "    in_use_ += extra.len();\n    Release(extra);", "    Release(extra);"),
 ("get-twice", "bad", A, "  in_use_ += n;\n\n  HugeRange r", "  in_use_ += NHugePages(1);\n\n  HugeRange r"),
 ("get-fail", "bad", A, "    HugeRange r = AllocateRange(n);\n    if (!r.valid()) return r;\n    in_use_ += r.len();", "    HugeRange r = AllocateRange(n);\n    in_use_ += n;\n    if (!r.valid()) return r;\n    in_use_ += r.len() - n;"),
 ("get-end", "bad", A, "    HugeRange extra = HugeRange::Make(r.start() + n, before - n);\n    r = HugeRange::Make(r.start(), n);", "    HugeRange extra = HugeRange::Make(r.start(), before - n);\n    r = HugeRange::Make(r.start(), n);"),
 ("get-tail", "ok", A, "    HugeRange extra = HugeRange::Make(r.start() + n, before - n);\n    r = HugeRange::Make(r.start(), n);\n    TC_ASSERT(r.precedes(extra));", "    HugeRange extra = HugeRange::Make(r.start(), before - n);\n    r = HugeRange::Make(r.start() + (before - n), n);"),
 ("get-insert", "ok", A, "    in_use_ += extra.len();\n    Release(extra);", "    free_.Insert(extra);"),
 ("get-noremove", "bad", A, "  free_.Remove(node);\n  if", "  if (r.len() > n) free_.Remove(node);\n  if"),
 ("get-after", "ok", A, "  in_use_ += n;\n\n  HugeRange r = node->range();\n  free_.Remove(node);", "  HugeRange r = node->range();\n  free_.Remove(node);\n  in_use_ += n;"),
 ("rel-used", "bad", A, "  in_use_ -= r.len();", "  in_use_ -= std::min(in_use_, NHugePages(1));"),
 ("rel-swap", "ok", A, "  in_use_ -= r.len();\n\n  free_.Insert(r);", "  free_.Insert(r);\n  in_use_ -= r.len();"),
 ("more-align", "bad", A, "size_t align = kHugePageSize;", "size_t align = kPageSize;"),
 ("more-over", "bad", A, "  if (n.overflows()) return HugeRange::Nil();\n", ""),
 ("more-n", "bad", A, "  n = HLFromBytes(actual);\n", ""),
 ("more-sys", "bad", A, "  from_system_ += n;\n", ""),
 ("more-sys-n", "bad", A, "  n = HLFromBytes(actual);\n  from_system_ += n;", "  from_system_ += n;\n  n = HLFromBytes(actual);"),
 ("find-fit", "bad", A, "    if (curr->range().len() >= n) {\n      if (!best ||", "    if (curr->longest() >= n) {\n      if (!best ||"),
 ("find-way", "bad", A, "    if (!right || right->longest() < n) {", "    if (!right || right->range().len() < n) {"),
 ("find-left", "bad", A, "    if (!left || left->longest() < n) {\n      curr = right;", "    if (!left || left->range().len() < n) {\n      curr = right;"),
 ("find-best", "bad", A, "      if (!best || best->range().len() > curr->range().len()) {", "      if (best && best->range().len() > curr->range().len()) {"),
 ("find-stop", "bad", A, "  while (curr && curr->longest() >= n) {", "  while (curr && curr->range().len() >= n) {"),
 ("find-order", "ok", A, "    if (!left || left->longest() < n) {\n      curr = right;\n      continue;\n    }\n\n    if (!right || right->longest() < n) {\n      curr = left;\n      continue;\n    }", "    if (!right || right->longest() < n) {\n      curr = left;\n      continue;\n    }\n    if (!left || left->longest() < n) {\n      curr = right;\n      continue;\n    }"),
 ("find-policy", "ok", A, "      if (left->longest() <= right->longest()) {", "      if (left->longest() < right->longest()) {"),
 ("find-first", "ok", A, "best->range().len() > curr->range().len()", "best->range().len() >= curr->range().len()"),
 ("stats-a", "bad", A, "      large->returned_pages += n.in_pages();", "      large->normal_pages += n.in_pages();"),
 ("cfind-fit", "bad", H, "    if (curr->range().len() >= n) {", "    if (curr->range().len() + NHugePages(1) >= n) {"),
 ("doget-size", "bad", H, "  size_ -= n;\n  UpdateSize", "  UpdateSize"),
 ("doget-flag", "bad", H, "  *from_released = false;\n  size_ -= n;", "  *from_released = weighted_hits_ == 1;\n  size_ -= n;"),
 ("doget-miss", "bad", H, "    if (res.valid()) {\n      *from_released = true;", "    if (res.valid() && res.len() > n) {\n      *from_released = true;"),
 ("doget-left", "bad", H, "  if (leftover.valid()) {\n    cache_.Insert(leftover);\n  }\n  return result;", "  if (leftover.valid() && leftover.len() < n) {\n    cache_.Insert(leftover);\n  }\n  return result;"),
 ("doget-order", "ok", H, "  cache_.Remove(node);\n  if (leftover.valid()) {", "  cache_.Remove(node);\n  UpdateSize(size());\n  if (leftover.valid()) {"),
 ("doget-manual", "ok", H, "  std::tie(result, leftover) = Split(node->range(), n);\n  cache_.Remove(node);\n  if (leftover.valid()) {\n    cache_.Insert(leftover);\n  }\n  return result;", "  result = node->range();\n  cache_.Remove(node);\n  if (result.len() > n) {\n    leftover = HugeRange::Make(result.start() + n, result.len() - n);\n    cache_.Insert(leftover);\n    result = HugeRange::Make(result.start(), n);\n  }\n  return result;"),
 ("doget-direct", "bad", H, "    HugeRange res = allocator_->Get(n);\n", "    HugeRange res = allocator_->Get(n + NHugePages(1));\n"),
 ("get-usage", "bad", H, "  IncUsage(r.len());\n\n", "  if (*from_released) IncUsage(r.len());\n\n"),
 ("get-usage-n", "bad", H, "  IncUsage(r.len());\n\n", "  IncUsage(n);\n\n"),
 ("crel-size", "bad", H, "  size_ += r.len();\n  if (size_ <= limit()) {\n    fills_++;\n  } else {", "  if (size_ + r.len() <= limit()) {\n    size_ += r.len();\n    fills_++;\n  } else {"),
 ("crel-shrink", "bad", H, "  total_fast_unbacked_ += ShrinkCache(limit());\n  UpdateSize", "  if (size_ > limit() * 2) total_fast_unbacked_ += ShrinkCache(limit());\n  UpdateSize"),
 ("crel-total", "bad", H, "    total_fast_unbacked_ += MaybeShrinkCacheLimit();", "    MaybeShrinkCacheLimit();"),
 ("crel-order", "ok", H, "  DecUsage(r.len());\n\n  cache_.Insert(r);\n  size_ += r.len();", "  cache_.Insert(r);\n  size_ += r.len();\n  DecUsage(r.len());"),
 ("unb-usage", "bad", H, "  DecUsage(r.len());\n  // No point", "  // No point"),
 ("unb-insert", "bad", H, "  allocator_->Release(r);\n}\n\nHugeLength HugeCache::Maybe", "  cache_.Insert(r);\n}\n\nHugeLength HugeCache::Maybe"),
 ("shr-left", "bad", H, "      cache_.Insert(leftover);\n      r = to_remove;", "      r = to_remove;"),
 ("shr-r", "bad", H, "      cache_.Insert(leftover);\n      r = to_remove;", "      cache_.Insert(leftover);"),
 ("shr-size", "bad", H, "      // to the HugeAllocator.\n      size_ += r.len();\n", "      // to the HugeAllocator.\n"),
 ("shr-keep", "bad", H, "      size_ += r.len();\n      cache_.Insert(r);\n      break;", "      size_ += r.len();\n      break;"),
 ("shr-ignore", "bad", H, "    if (ABSL_PREDICT_FALSE(!unback_(r).success)) {", "    unback_(r);\n    if (false) {"),
 ("shr-order", "bad", H, "    // Note, actual unback implementation is temporarily dropping and", "    allocator_->Release(r);"),
 ("shr-count", "bad", H, "      cache_.Insert(r);\n      break;\n    }\n    allocator_->Release(r);\n    removed += r.len();", "      cache_.Insert(r);\n      removed += r.len();\n      break;\n    }\n    allocator_->Release(r);\n    removed += r.len();"),
 ("shr-stale", "bad", H, ["    size_ -= r.len();\n    // Note", "      size_ += r.len();\n      cache_.Insert(r);\n      break;"], ["    const HugeLength before = size_;\n    size_ -= r.len();\n    // Note", "      size_ = before;\n      cache_.Insert(r);\n      break;"]),
 ("shr-late", "bad", H, ["    size_ -= r.len();\n    // Note", "      size_ += r.len();\n      cache_.Insert(r);\n      break;\n    }\n"], ["    // Note", "      cache_.Insert(r);\n      break;\n    }\n    size_ -= r.len();\n"]),
 ("shr-split", "ok", H, "      HugeRange to_remove, leftover;\n      std::tie(to_remove, leftover) = Split(r, delta);\n      TC_ASSERT(leftover.valid());\n      cache_.Insert(leftover);\n      r = to_remove;", "      cache_.Insert(HugeRange::Make(r.start() + delta, r.len() - delta));\n      r = HugeRange::Make(r.start(), delta);"),
 ("shr-success", "ok", H, "    if (ABSL_PREDICT_FALSE(!unback_(r).success)) {\n      // We failed to release r.  Retain it in the cache instead of returning it\n      // to the HugeAllocator.\n      size_ += r.len();\n      cache_.Insert(r);\n      break;\n    }\n    allocator_->Release(r);\n    removed += r.len();", "    if (unback_(r).success) {\n      removed += r.len();\n      allocator_->Release(r);\n      continue;\n    }\n    cache_.Insert(r);\n    size_ += r.len();\n    break;"),
 ("per-left", "bad", H, "    n -= released;\n", ""),
 ("per-ret", "bad", H, "    released += ShrinkCache(target);", "    ShrinkCache(target);"),
 ("per-total", "bad", H, "  total_periodic_unbacked_ += released;", "  total_periodic_unbacked_ += n;"),
 ("per-min", "ok", H, "n > size() ? NHugePages(0) : size() - n;", "size() - std::min(n, size());"),
 ("per-ge", "ok", H, "n > size() ? NHugePages(0) : size() - n;", "n >= size() ? NHugePages(0) : size() - n;"),
 ("inc", "bad", H, "  usage_ += n;\n", "  usage_ += std::max(n, NHugePages(1));\n"),
 ("lim-ret", "bad", H, "  return ShrinkCache(limit());\n}", "  ShrinkCache(limit());\n  return drop;\n}"),
 ("stats-c", "bad", H, "    if (large != nullptr) {\n      large->spans++;", "    if (large != nullptr && n > NHugePages(1)) {\n      large->spans++;"),
]
