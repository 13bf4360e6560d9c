R = "tcmalloc/huge_page_filler.h"
M = [
 ("add-used", "bad", R, "    regular_alloc_released_[type].Add(pt, i);\n    n_used_released_[type] += pt->used_pages();", "    regular_alloc_released_[type].Add(pt, i);\n    n_used_partial_released_[type] += pt->used_pages();"),
 ("add-broken", "bad", R, "      (pt->unbroken() ||\n       subrelease_unbacked_mode_ == SubreleaseUnbackedMode::kDisabled)) {\n    regular_alloc_[type].Add(pt, i);", "      true) {\n    regular_alloc_[type].Add(pt, i);"),
 ("add-lt", "bad", R, "  } else if (pt->free_pages() <= pt->released_pages()) {\n    regular_alloc_released_[type].Add(pt, i);", "  } else if (pt->free_pages() < pt->released_pages()) {\n    regular_alloc_released_[type].Add(pt, i);"),
 ("add-donated", "bad", R, "  pt->set_donated(false);\n\n  const AccessDensityPrediction type", "  const AccessDensityPrediction type"),
 ("add-swap", "ok", R, "    regular_alloc_released_[type].Add(pt, i);\n    n_used_released_[type] += pt->used_pages();", "    n_used_released_[type] += pt->used_pages();\n    regular_alloc_released_[type].Add(pt, i);"),
 ("add-neg", "ok", R, "  } else if (pt->free_pages() <= pt->released_pages()) {\n    regular_alloc_released_[type].Add(pt, i);\n    n_used_released_[type] += pt->used_pages();\n  } else {\n    regular_alloc_partial_released_[type].Add(pt, i);\n    n_used_partial_released_[type] += pt->used_pages();\n  }", "  } else if (pt->free_pages() > pt->released_pages()) {\n    regular_alloc_partial_released_[type].Add(pt, i);\n    n_used_partial_released_[type] += pt->used_pages();\n  } else {\n    regular_alloc_released_[type].Add(pt, i);\n    n_used_released_[type] += pt->used_pages();\n  }"),
 ("rem-index", "bad", R, "  size_t i = ListFor(longest, IndexFor(*pt), type, pt->nallocs());\n\n  if (!pt->released() &&\n      (pt->unbroken() ||\n       subrelease_unbacked_mode_ == SubreleaseUnbackedMode::kDisabled)) {\n    regular_alloc_[type].Remove(pt, i);", "  size_t i = ListFor(longest, 0, type, pt->nallocs());\n\n  if (!pt->released() &&\n      (pt->unbroken() ||\n       subrelease_unbacked_mode_ == SubreleaseUnbackedMode::kDisabled)) {\n    regular_alloc_[type].Remove(pt, i);"),
 ("rem-used", "bad", R, "    n_used_partial_released_[type] -= pt->used_pages();\n  }\n}", "  }\n}"),
 ("rem-free", "bad", R, "    n_used_partial_released_[type] -= pt->used_pages();\n  }\n}", "    n_used_partial_released_[type] -= pt->free_pages();\n  }\n}"),
 ("rem-donated", "bad", R, "    donated_alloc_.Remove(pt, longest.raw_num());", "    donated_alloc_.Remove(pt, pt->free_pages().raw_num());"),
 ("donate-mark", "bad", R, "  pt->set_donated(true);\n\n  donated", "  donated"),
 ("donate-index", "bad", R, "  donated_alloc_.Add(pt, longest.raw_num());", "  donated_alloc_.Add(pt, pt->free_pages().raw_num());"),
 ("get-least", "bad", R, "        ListFor(n, 0, type, kPagesPerHugePage.raw_num() - 1);", "        ListFor(n - Length(1), kChunks - 1, type, kPagesPerHugePage.raw_num() - 1);"),
 ("get-donated-any", "bad", R, "    if (ABSL_PREDICT_TRUE(type == AccessDensityPrediction::kSparse)) {\n      pt = donated", "    {\n      pt = donated"),
 ("get-donated-n", "bad", R, "pt = donated_alloc_.GetLeast(n.raw_num());", "pt = donated_alloc_.GetLeast(n.raw_num() - 1);"),
 ("get-partial-used", "bad", R, "      n_used_partial_released_[type] -= pt->used_pages();\n      break;", "      break;"),
 ("get-late-used", "bad", R, "      n_used_released_[type] -= pt->used_pages();\n      break;\n    }\n\n    return {nullptr, PageId{0}, false};", "      n_used_released_[type] -= pt->used_pages() + n;\n      break;\n    }\n\n    return {nullptr, PageId{0}, false};"),
 ("get-flag", "bad", R, "      was_released = true;\n      TC_ASSERT_GE(n_used_released_", "      TC_ASSERT_GE(n_used_released_"),
 ("get-other", "bad", R, "    pt = regular_alloc_released_[type].GetLeast(listindex);", "    pt = regular_alloc_released_[AccessDensityPrediction::kSparse].GetLeast(listindex);"),
 ("get-noadd", "bad", R, "  const auto page_allocation = pt->Get(n, span_alloc_info);\n  AddToFillerList(pt);", "  AddToFillerList(pt);\n  const auto page_allocation = pt->Get(n, span_alloc_info);"),
 ("get-pages", "bad", R, "  pages_allocated_[type] += n;\n", "  pages_allocated_[type] += Length(1);\n"),
 ("get-unmapped", "bad", R, "  unmapped_ -= page_allocation.previously_unbacked;\n", "  if (was_released) unmapped_ -= n;\n"),
 ("get-pages-early", "ok", R, "  const auto page_allocation = pt->Get(n, span_alloc_info);\n  AddToFillerList(pt);\n  pages_allocated_[type] += n;\n", "  pages_allocated_[type] += n;\n  const auto page_allocation = pt->Get(n, span_alloc_info);\n  AddToFillerList(pt);\n"),
 ("get-was", "bad", R, "  if (was_released && !pt->released() && !pt->was_released()) {", "  if (was_released && !pt->released()) {"),
 ("get-skip", "bad", R, "    pt = regular_alloc_partial_released_[type].GetLeast(listindex);\n    if (pt) {", "    pt = regular_alloc_partial_released_[type].GetLeast(listindex);\n    if (pt && pt->unbroken()) {"),
 ("put-order", "bad", R, "  RemoveFromFillerList(pt);\n  pt->Put(r, span_alloc_info);", "  pt->Put(r, span_alloc_info);\n  RemoveFromFillerList(pt);"),
 ("put-pages", "bad", R, "    pages_allocated_[AccessDensityPrediction::kDense] -= r.n;", "    pages_allocated_[AccessDensityPrediction::kSparse] -= r.n;"),
 ("put-size", "bad", R, "    --size_;\n    if (pt->released()) {", "    if (!pt->DontFreeTracker()) --size_;\n    if (pt->released()) {"),
 ("put-unmapped", "bad", R, "      unmapped_ -= released_pages;\n", "      unmapped_ -= free_pages;\n"),
 ("put-unaccounted", "bad", R, "        if (ABSL_PREDICT_TRUE(success)) {\n          unmapping_unaccounted_ += free_pages - released_pages;\n        }", "        unmapping_unaccounted_ += free_pages - released_pages;"),
 ("put-dontfree", "bad", R, "    if (!pt->DontFreeTracker()) {\n      RecordLifetime(pt);", "    {\n      RecordLifetime(pt);"),
 ("put-flag", "bad", R, "      pt->set_was_released(/*status=*/false);\n      if (pt->HasDenseSpans()) {\n        --n_was_released_[AccessDensityPrediction::kDense];\n      } else {\n        --n_was_released_[AccessDensityPrediction::kSparse];\n      }\n    }\n\n    if (!pt->Dont", "      pt->set_was_released(/*status=*/false);\n      --n_was_released_[AccessDensityPrediction::kDense];\n    }\n\n    if (!pt->Dont"),
 ("put-noadd", "bad", R, "  AddToFillerList(pt);\n  UpdateFillerStatsTracker();\n  return nullptr;", "  if (pt->empty()) return nullptr;\n  AddToFillerList(pt);\n  UpdateFillerStatsTracker();\n  return nullptr;"),
 ("put-ternary", "ok", R, "  if (pt->HasDenseSpans()) {\n    TC_ASSERT_GE(pages_allocated_[AccessDensityPrediction::kDense], r.n);\n    pages_allocated_[AccessDensityPrediction::kDense] -= r.n;\n  } else {\n    TC_ASSERT_GE(pages_allocated_[AccessDensityPrediction::kSparse], r.n);\n    pages_allocated_[AccessDensityPrediction::kSparse] -= r.n;\n  }", "  const AccessDensityPrediction d = pt->HasDenseSpans() ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse;\n  pages_allocated_[d] -= r.n;"),
 ("con-size", "bad", R, "  ++size_;\n  UpdateFiller", "  if (!donated) ++size_;\n  UpdateFiller"),
 ("con-dense", "bad", R, "    if (type == AccessDensityPrediction::kDense) {\n      pt->SetHasDenseSpans();\n    }\n    AddToFillerList(pt);", "    AddToFillerList(pt);\n    if (type == AccessDensityPrediction::kDense) {\n      pt->SetHasDenseSpans();\n    }"),
 ("con-used", "bad", R, "  pages_allocated_[type] += pt->used_pages();\n", "  pages_allocated_[type] += pt->free_pages();\n"),
 ("con-list", "bad", R, "    DonateToFillerList(pt);\n  } else {\n    if (type", "    AddToFillerList(pt);\n  } else {\n    if (type"),
 ("rc-bracket", "bad", R, "    RemoveFromFillerList(best);\n    Length ret = best->ReleaseFree(unback_);", "    Length ret = best->ReleaseFree(unback_);\n    RemoveFromFillerList(best);"),
 ("rc-unmapped", "bad", R, "    unmapped_ += ret;\n    TC_ASSERT_GE", "    unmapped_ += best->released_pages();\n    TC_ASSERT_GE"),
 ("rc-total", "bad", R, "    total_released += ret;\n    AddToFillerList(best);", "    total_released += best->free_pages();\n    AddToFillerList(best);"),
 ("rc-flag", "bad", R, "    if (best->was_released() && best->released()) {\n      best->set_was_released(/*status=*/false);", "    if (best->released()) {\n      best->set_was_released(/*status=*/false);"),
 ("hr-unmapped", "bad", R, "  Length released_length = tracker->ReleaseFree(unback_);\n  subrelease_stats_.total_pages_subreleased += released_length;\n  unmapped_ += released_length;", "  Length released_length = tracker->ReleaseFree(unback_);\n  subrelease_stats_.total_pages_subreleased += released_length;"),
 ("hu-noremove", "bad", R, "  RemoveFromFillerList(tracker);\n  Length unmapped_length", "  Length unmapped_length"),
 ("hu-unaccounted", "bad", R, "  unmapping_unaccounted_ += unmapped_length;\n", ""),
 ("oc-skip", "bad", R, "  if (pt->unbroken()) return;\n  RemoveFromFillerList(pt);", "  if (pt->unbroken() || pt->donated()) return;\n  RemoveFromFillerList(pt);"),
 ("oc-bracket", "bad", R, "  RemoveFromFillerList(pt);\n  pt->set_unbroken(/*status=*/true);", "  pt->set_unbroken(/*status=*/true);\n  RemoveFromFillerList(pt);"),
 ("fetch-keep", "bad", R, "  fully_freed_trackers_.remove(pt);\n", ""),
]
