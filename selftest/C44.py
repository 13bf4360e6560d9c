R = "tcmalloc/huge_page_aware_allocator.h"
M = [
 ("small-lost", "bad", R, "  page = RefillFiller(n, span_alloc_info, from_released);\n  if (ABSL_PREDICT_FALSE(page == PageId{0})) {", "  page = RefillFiller(n, span_alloc_info, from_released);\n  if (ABSL_PREDICT_FALSE(page == PageId{0} || *from_released)) {"),
 ("refill-donated", "bad", R, "  return AllocAndContribute(r.start(), n, span_alloc_info, /*donated=*/false);", "  return AllocAndContribute(r.start(), n, span_alloc_info, /*donated=*/true);"),
 ("refill-two", "bad", R, "  HugeRange r = cache_.Get(NHugePages(1), from_released);", "  HugeRange r = cache_.Get(NHugePages(2), from_released);"),
 ("contribute-order", "ok", R, "  SetTracker(p, pt);\n  filler_.Contribute(pt, donated, span_alloc_info);", "  filler_.Contribute(pt, donated, span_alloc_info);\n  SetTracker(p, pt);"),
 ("contribute-early", "bad", R, ["  filler_.Contribute(pt, donated, span_alloc_info);\n", "  PageId page = pt->Get(n, span_alloc_info).page;\n"], ["", "  filler_.Contribute(pt, donated, span_alloc_info);\n  PageId page = pt->Get(n, span_alloc_info).page;\n"]),
 ("contribute-map", "bad", R, "  SetTracker(p, pt);\n  filler_.Contribute", "  if (!donated) SetTracker(p, pt);\n  filler_.Contribute"),
 ("contribute-count", "bad", R, "    pt->set_abandoned_count(n);", "    pt->set_abandoned_count(kPagesPerHugePage - n);"),
 ("fin-n", "bad", R, "  auto span = Finalize(Range(r.start().first_page(), n));", "  auto span = Finalize(Range(r.start().first_page(), total));"),
 ("raw-first", "bad", R, "  SetTracker(first, nullptr);\n", ""),
 ("raw-last", "bad", R, "  if (slack == Length(0)) {\n    SetTracker(last, nullptr);\n", "  if (slack == Length(0)) {\n"),
 ("raw-lastpage", "bad", R, "  HugePage last = first + r.len() - NHugePages(1);", "  HugePage last = first + r.len();"),
 ("raw-here", "bad", R, "  Length here = kPagesPerHugePage - slack;\n  TC_ASSERT_GT(here", "  Length here = slack;\n  TC_ASSERT_GT(here"),
 ("raw-count", "bad", R, "  ++donated_huge_pages_;\n\n", "  if (n >= kPagesPerHugePage) ++donated_huge_pages_;\n\n"),
 ("raw-mark", "bad", R, "  span.donated = true;\n", "  span.donated = n >= kPagesPerHugePage;\n"),
 ("raw-kind", "bad", R, "  AllocAndContribute(last, here, span_alloc_info, /*donated=*/true);", "  AllocAndContribute(last, here, span_alloc_info, /*donated=*/false);"),
 ("raw-order", "bad", R, ["  SetTracker(first, nullptr);\n  HugePage last", "  AllocAndContribute(last, here, span_alloc_info, /*donated=*/true);\n"], ["  HugePage last", "  AllocAndContribute(last, here, span_alloc_info, /*donated=*/true);\n  SetTracker(first, nullptr);\n"]),
 ("raw-len", "ok", R, "  HugePage last = first + r.len() - NHugePages(1);", "  HugePage last = first + (hl - NHugePages(1));"),
 ("large-fit", "bad", R, "  // If we fit in a single hugepage, try the Filler.p.\n  if (n < kPagesPerHugePage) {", "  {"),
 ("large-region", "bad", R, "  if (regions_.MaybeGet(n, &page, from_released)) {\n    return Finalize(Range(page, n));", "  if (regions_.MaybeGet(n, &page, from_released) && !*from_released) {\n    return Finalize(Range(page, n));"),
 ("large-swap", "ok", R, "  if (slack < small && !regions_.UseHugeRegionMoreOften()) {", "  if (!regions_.UseHugeRegionMoreOften() && slack < small) {"),
 ("final-record", "bad", R, "  info_.RecordAlloc(r);\n  forwarder_.ShrinkToUsageLimit(r.n);\n", "  if (r.n < kPagesPerHugePage) info_.RecordAlloc(r);\n  forwarder_.ShrinkToUsageLimit(r.n);\n"),
 ("final-limit", "bad", R, "  info_.RecordAlloc(r);\n  forwarder_.ShrinkToUsageLimit(r.n);\n", "  info_.RecordAlloc(r);\n"),
 ("span-map", "bad", R, "  forwarder_.SetSpan(f.r.p, s);\n  TC_ASSERT", "  if (!f.donated) forwarder_.SetSpan(f.r.p, s);\n  TC_ASSERT"),
 ("span-don", "bad", R, "  s->set_donated(f.donated);\n", ""),
 ("al-align", "bad", R, "  TC_CHECK_LE(align, kPagesPerHugePage);\n", ""),
 ("al-new", "bad", R, "  if (align <= Length(1)) {\n    return New(", "  if (align <= Length(2)) {\n    return New("),
 ("al-hold", "ok", R, "  if (f && from_released) {\n    Range r = Unspanify(f);", "  if (from_released && f) {\n    const Range r = Unspanify(f);"),
 ("del-clear", "bad", R, "  forwarder_.ClearSpan(p);\n", "  if (!s.donated) forwarder_.ClearSpan(p);\n"),
 ("del-rec", "bad", R, "  info_.RecordFree(Range(p, n));\n", ""),
 ("del-abandon", "bad", R, "    if (ABSL_PREDICT_FALSE(might_abandon)) {\n", "    {\n"),
 ("del-noabandon", "bad", R, "      abandoned_pages_ += pt->abandoned_count();\n      pt->set_abandoned(true);\n    }\n    return;", "      abandoned_pages_ += pt->abandoned_count();\n    }\n    return;"),
 ("del-region", "bad", R, "  if (regions_.MaybePut(Range(p, n))) return;\n", "  if (n < kPagesPerHugePage && regions_.MaybePut(Range(p, n))) return;\n"),
 ("del-rfirst", "bad", R, "  if (regions_.MaybePut(Range(p, n))) return;\n", "  regions_.MaybePut(Range(p, n));\n"),
 ("del-virt", "bad", R, "    Length virt_len = kPagesPerHugePage - slack;\n    // We may", "    Length virt_len = slack;\n    // We may"),
 ("del-short", "bad", R, "      // Last page isn't empty -- pretend the range was shorter.\n      --hl;\n", ""),
 ("del-rel", "bad", R, "      if (pt->released()) {\n        --hl;\n        ReleaseHugepage(pt);", "      if (pt->released()) {\n        ReleaseHugepage(pt);"),
 ("del-norel", "bad", R, "      if (pt->released()) {\n        --hl;", "      if (false) {\n        --hl;"),
 ("del-don", "bad", R, "        --donated_huge_pages_;\n        SetTracker(pt->location(), nullptr);\n        tracker", "        SetTracker(pt->location(), nullptr);\n        tracker"),
 ("del-map", "bad", R, "        SetTracker(pt->location(), nullptr);\n        tracker_allocator_.Delete(pt);", "        tracker_allocator_.Delete(pt);"),
 ("del-double", "bad", R, "    if (ABSL_PREDICT_FALSE(pt == nullptr)) {\n      forwarder_.ReportDoubleFree(p.start_addr());\n    }\n", "    if (pt == nullptr) {\n      cache_.Release({hp, hl});\n      return;\n    }\n"),
 ("del-last", "bad", R, "  HugePage last = hp + hl - NHugePages(1);\n  Length slack = hl.in_pages() - n;", "  HugePage last = hp + hl;\n  Length slack = hl.in_pages() - n;"),
 ("del-lastloc", "ok", R, "        SetTracker(pt->location(), nullptr);\n        tracker_allocator_.Delete(pt);", "        SetTracker(last, nullptr);\n        tracker_allocator_.Delete(pt);"),
 ("rel-swap", "bad", R, "  if (pt->released()) {\n    cache_.ReleaseUnbacked(r);\n  } else {\n    cache_.Release(r);\n  }", "  cache_.Release(r);"),
 ("rel-inv", "ok", R, "  if (pt->released()) {\n    cache_.ReleaseUnbacked(r);\n  } else {\n    cache_.Release(r);\n  }", "  if (!pt->released()) {\n    cache_.Release(r);\n  } else {\n    cache_.ReleaseUnbacked(r);\n  }"),
 ("rel-free", "bad", R, "  HugeRange r = {pt->location(), NHugePages(1)};\n  SetTracker(pt->location(), nullptr);\n", "  tracker_allocator_.Delete(pt);\n  HugeRange r = {pt->location(), NHugePages(1)};\n  SetTracker(pt->location(), nullptr);\n"),
 ("rel-early", "bad", R, ["  HugeRange r = {pt->location(), NHugePages(1)};\n", "    cache_.Release(r);\n  }\n\n  tracker_allocator_.Delete(pt);\n"], ["  HugeRange r = {pt->location(), NHugePages(1)};\n  const bool donated = pt->was_donated();\n  tracker_allocator_.Delete(pt);\n  (void)donated;\n", "    cache_.Release(r);\n  }\n"]),
 ("rel-unab", "bad", R, "      abandoned_pages_ -= pt->abandoned_count();\n", ""),
 ("rel-tele", "bad", R, "    if (pt->abandoned()) {\n      abandoned_pages_ -=", "    {\n      abandoned_pages_ -="),
 ("rel-don", "bad", R, "  if (pt->was_donated()) {\n    --donated_huge_pages_;\n", "  if (pt->was_donated()) {\n"),
 ("treat-once", "bad", R, "  while ((pt = filler_.FetchFullyFreedTracker()) != nullptr) {\n", "  if ((pt = filler_.FetchFullyFreedTracker()) != nullptr) {\n"),
 ("ral-remain", "bad", R, "        num_pages > released ? num_pages - released : Length(0);\n    released += regions_", "        num_pages;\n    released += regions_"),
 ("ral-wrap", "bad", R, "        num_pages > released ? num_pages - released : Length(0);\n    released += regions_", "        num_pages - released;\n    released += regions_"),
 ("ral-sum", "bad", R, "      released += filler_.ReleasePages(\n          desired,", "      released = filler_.ReleasePages(\n          desired,"),
 ("ral-ask", "bad", R, "    if (released < num_pages || release_max_cold) {", "    {"),
 ("ral-rec", "bad", R, "  info_.RecordRelease(num_pages, released, reason);\n  return released;\n}\n\ntemplate <class Forwarder>\ninline void HugePageAwareAllocator<Forwarder>::TreatHugepageTrackers", "  info_.RecordRelease(num_pages, num_pages, reason);\n  return released;\n}\n\ntemplate <class Forwarder>\ninline void HugePageAwareAllocator<Forwarder>::TreatHugepageTrackers"),
 ("ralb-early", "bad", R, "  if (released >= n) {\n    info_.RecordRelease(n, released, reason);\n    return released;\n  }\n", "  if (released >= n) {\n    return released;\n  }\n"),
 ("ralb-rest", "bad", R, "  released += filler_.ReleasePages(n - released, SkipSubreleaseIntervals{},", "  released += filler_.ReleasePages(n, SkipSubreleaseIntervals{},"),
 ("ralb-max", "ok", R, "  Length from_huge_region = n > released ? n - released : Length(0);", "  Length from_huge_region = released < n ? n - released : Length(0);"),
 ("reg-lost", "bad", R, "  HugeRegion* region = region_allocator_.New(r, unback_, set_anon_vma_name_);\n  regions_.Contribute(region);\n", "  HugeRegion* region = region_allocator_.New(r, unback_, set_anon_vma_name_);\n  if (!regions_.UseHugeRegionMoreOften()) regions_.Contribute(region);\n"),
]
