R = "tcmalloc/page_allocator.cc"
H = "tcmalloc/page_allocator.h"
L1 = "  ++limit_hits_[kSoft];\n"
BR = """    for (int partition = 0; partition < active_partitions(); partition++) {
      ret += static_cast<HugePageAwareAllocator*>(normal_impl_[partition])
                 ->ReleaseAtLeastNPagesBreakingHugepages(pages - ret,
                                                         release_reason);
      if (ret >= pages) {
        return true;
      }
    }
"""
SA = """    for (int partition = 0;
         partition < (sampled_partition_active_ ? kSecurityPartitions : 1);
         partition++) {
"""
B1 = """  const size_t backed =
      s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
  // New high"""
B2 = """    const size_t backed =
        s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
    if (backed <= limits_[kHard]) {"""
M = [
 ("lim-free", "bad", R, B1, B1.replace("unmapped_bytes", "free_bytes")),
 ("lim-meta", "bad", R, B1, B1.replace(" + tc_globals.metadata_bytes()", "")),
 ("lim-soft", "bad", R, "  if (backed <= limits_[kSoft]) {", "  if (backed <= limits_[kHard]) {"),
 ("lim-strict", "bad", R, "  if (backed <= limits_[kSoft]) {", "  if (backed <= limits_[kSoft] + kHugePageSize) {"),
 ("lim-over", "bad", R, "  const size_t overage = backed - limits_[kSoft];\n  const Length pages = BytesToLengthCeil(overage);", "  const size_t overage = backed - limits_[kSoft];\n  const Length pages = BytesToLengthFloor(overage);"),
 ("lim-hits", "bad", R, "  if (limits_[kHard] < backed) ++limit_hits_[kHard];", "  if (limits_[kHard] <= backed) ++limit_hits_[kHard];"),
 ("lim-hits2", "bad", R, L1, L1 + "  if (limits_[kHard] == limits_[kSoft]) --limit_hits_[kSoft];\n"),
 ("lim-kind", "bad", R, "  if (ShrinkHardBy(pages, kSoft)) {", "  if (ShrinkHardBy(pages, limits_[kHard] < backed ? kHard : kSoft)) {"),
 ("lim-again", "bad", R, B2, "    (void)s;\n    if (backed <= limits_[kHard]) {"),
 ("lim-metah", "bad", R, B2, B2.replace(" + tc_globals.metadata_bytes()", "")),
 ("lim-hover", "bad", R, "    const size_t overage = backed - limits_[kHard];", "    const size_t overage = backed - limits_[kSoft];"),
 ("lim-fatal", "bad", R, "    const size_t hard_limit = limits_[kHard];", "    if (pages <= Length(1)) return;\n    const size_t hard_limit = limits_[kHard];"),
 ("lim-won", "bad", R, "      ++successful_shrinks_after_limit_hit_[kHard];\n      TC_ASSERT_EQ", "      ++successful_shrinks_after_limit_hit_[kSoft];\n      TC_ASSERT_EQ"),
 ("lim-sub", "bad", R, "  if (limits_[kHard] < std::numeric_limits<size_t>::max()) {", "  if (limits_[kHard] < std::numeric_limits<size_t>::max() &&\n      Parameters::hpaa_subrelease()) {"),
 ("lim-peak", "bad", R, "backed > peak_backed_bytes_)", "backed > peak_backed_bytes_ + kPageSize)"),
 ("lim-peak2", "bad", R, "    peak_backed_bytes_ = backed;", "    peak_backed_bytes_ = s.system_bytes;"),
 ("lim-off", "bad", R, "  if (limits_[kSoft] == std::numeric_limits<size_t>::max()) {", "  if (limits_[kHard] == std::numeric_limits<size_t>::max()) {"),
 ("hard-reason", "bad", R, "limit_kind == kHard ? PageReleaseReason::kHardLimitExceeded\n                          : PageReleaseReason::kSoftLimitExceeded", "limit_kind != kHard ? PageReleaseReason::kHardLimitExceeded\n                          : PageReleaseReason::kSoftLimitExceeded"),
 ("hard-subrel", "bad", R, "if (limit_kind == kHard && !Parameters::hpaa_subrelease()) return false;", "if (limit_kind == kSoft && !Parameters::hpaa_subrelease()) return false;"),
 ("hard-subrel2", "bad", R, "if (limit_kind == kHard && !Parameters::hpaa_subrelease()) return false;", ""),
 ("hard-subrel3", "bad", R, "if (limit_kind == kHard && !Parameters::hpaa_subrelease()) return false;", "if (!Parameters::hpaa_subrelease()) return false;"),
 ("hard-cold", "bad", R, "    if (has_cold_impl_) {\n      ret += static", "    if (has_cold_impl_ && limit_kind == kHard) {\n      ret += static"),
 ("hard-full", "bad", R, BR, BR.replace("pages - ret", "pages")),
 ("hard-assign", "bad", R, BR, BR.replace("ret +=", "ret =")),
 ("hard-one", "bad", R, BR, BR.replace("int partition = 0", "int partition = 1")),
 ("hard-zero", "bad", R, BR, BR.replace("normal_impl_[partition]", "normal_impl_[0]")),
 ("hard-sampled", "bad", R, SA, SA.replace("(sampled_partition_active_ ? kSecurityPartitions : 1)", "1")),
 ("hard-scount", "bad", R, SA, SA.replace("(sampled_partition_active_ ? kSecurityPartitions : 1)", "(has_cold_impl_ ? kSecurityPartitions : 1)")),
 ("hard-gt", "bad", R, BR, BR.replace("if (ret >= pages)", "if (ret > pages)")),
 ("hard-early", "bad", R, BR, BR.replace("if (ret >= pages) {\n        return true;", "if (ret > Length(0)) {\n        return ret >= pages;")),
 ("hard-lie", "bad", R, "  return (pages <= ret);", "  return true;"),
 ("hard-strict", "bad", R, "  return (pages <= ret);", "  return (pages < ret);"),
 ("hard-first", "bad", R, "    if (pages <= ret) {\n      // We", "    if (pages <= ret + Length(1)) {\n      // We"),
 ("rel-all", "bad", H, "    released += normal_impl_[partition]->ReleaseAtLeastNPages(\n        num_pages > released ? num_pages - released : Length(0), reason);", "    released += normal_impl_[partition]->ReleaseAtLeastNPages(num_pages, reason);"),
 ("rel-wrap", "bad", H, "    released += normal_impl_[partition]->ReleaseAtLeastNPages(\n        num_pages > released ? num_pages - released : Length(0), reason);", "    released += normal_impl_[partition]->ReleaseAtLeastNPages(\n        num_pages - released, reason);"),
 ("rel-lost", "bad", H, "  released += sampled_impl_[0]->ReleaseAtLeastNPages(", "  released = sampled_impl_[0]->ReleaseAtLeastNPages("),
 ("rel-s1", "bad", H, "  if (sampled_partition_active_) {\n    released += sampled_impl_[1]", "  if (sampled_partition_active_ && num_pages > released) {\n    released += sampled_impl_[0]"),
 ("rel-skip", "ok", H, "  if (sampled_partition_active_) {\n    released += sampled_impl_[1]", "  if (sampled_partition_active_ && num_pages > released) {\n    released += sampled_impl_[1]"),
 ("rel-left", "ok", H, "    released += normal_impl_[partition]->ReleaseAtLeastNPages(\n        num_pages > released ? num_pages - released : Length(0), reason);", "    const Length left =\n        num_pages > released ? num_pages - released : Length(0);\n    released += normal_impl_[partition]->ReleaseAtLeastNPages(left, reason);"),
 ("rel-reason", "bad", H, "  released += sampled_impl_[0]->ReleaseAtLeastNPages(\n      num_pages > released ? num_pages - released : Length(0), reason);", "  released += sampled_impl_[0]->ReleaseAtLeastNPages(\n      num_pages > released ? num_pages - released : Length(0),\n      PageReleaseReason::kReleaseMemoryToSystem);"),
 ("rel-hook", "bad", H, "  InvokeReleaseHook(num_pages, released, reason);", "  InvokeReleaseHook(released, num_pages, reason);"),
 ("st-sampled", "bad", H, "  if (sampled_partition_active_) {\n    ret += sampled_impl_[1]->stats();", "  if (active_partitions() > 1) {\n    ret += sampled_impl_[1]->stats();"),
 ("st-cold", "bad", H, "    ret += cold_impl_->stats();", "    ret += sampled_impl_[0]->stats();"),
 ("st-zero", "bad", H, "int partition = 1; partition < active_partitions(); partition++) {\n    ret +=", "int partition = 0; partition < active_partitions(); partition++) {\n    ret +="),
 ("st-first", "bad", H, "    ret += normal_impl_[partition]->stats();", "    ret += normal_impl_[1]->stats();\n    (void)partition;\n    ret += normal_impl_[partition]->stats();"),
 ("ok-helper", "ok", R, [BR, "bool PageAllocator::ShrinkHardBy("],
  ["    for (int partition = 0; partition < active_partitions(); partition++) {\n      ret += BreakOne(normal_impl_[partition], pages - ret, release_reason);\n      if (ret >= pages) {\n        return true;\n      }\n    }\n",
   "static Length BreakOne(PageAllocatorInterface* impl, Length want,\n                       PageReleaseReason reason) {\n  return static_cast<HugePageAwareAllocator*>(impl)\n      ->ReleaseAtLeastNPagesBreakingHugepages(want, reason);\n}\n\nbool PageAllocator::ShrinkHardBy("]),
 ("ok-while", "ok", R, BR, """    int partition = 0;
    while (partition < active_partitions()) {
      const Length rest = pages - ret;
      const Length got =
          static_cast<HugePageAwareAllocator*>(normal_impl_[partition])
              ->ReleaseAtLeastNPagesBreakingHugepages(rest, release_reason);
      ret += got;
      if (!(ret < pages)) {
        return true;
      }
      ++partition;
    }
"""),
 ("ok-cond", "ok", R, BR, BR.replace("partition < active_partitions(); partition++", "partition < active_partitions() && ret < pages; ++partition").replace("      if (ret >= pages) {\n        return true;\n      }\n", "").replace("    }\n", "    }\n    if (ret >= pages) return true;\n")),
 ("ok-bound", "ok", R, SA, "    const int num_sampled = sampled_partition_active_ ? kSecurityPartitions : 1;\n    for (int partition = 0; partition < num_sampled; partition++) {\n"),
 ("ok-if", "ok", R, "  const PageReleaseReason release_reason =\n      limit_kind == kHard ? PageReleaseReason::kHardLimitExceeded\n                          : PageReleaseReason::kSoftLimitExceeded;", "  PageReleaseReason release_reason = PageReleaseReason::kSoftLimitExceeded;\n  if (limit_kind == kHard) {\n    release_reason = PageReleaseReason::kHardLimitExceeded;\n  }"),
 ("ok-early", "ok", R, "  if (alg_ == HPAA) {\n    if (pages <= ret) {\n      // We released target amount.\n      return true;\n    }\n", "  if (pages <= ret) return true;\n  if (alg_ == HPAA) {\n"),
 ("ok-lambda", "ok", R, ["  BackingStats s = stats();\n  const size_t backed =\n      s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();\n  // New", "    BackingStats s = stats();\n    const size_t backed =\n        s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();\n    if"],
  ["  const auto backed_now = [this]() {\n    BackingStats s = stats();\n    return s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();\n  };\n  const size_t backed = backed_now();\n  // New", "    const size_t backed = backed_now();\n    if"]),
 ("ok-nest", "ok", R, "  if (limits_[kSoft] == std::numeric_limits<size_t>::max()) {\n    // Limits are not set.\n    return;\n  }\n  if (backed <= limits_[kSoft]) {\n    // We're already fine.\n    return;\n  }\n", "  const size_t soft = limits_[kSoft];\n  if (soft == std::numeric_limits<size_t>::max() || backed <= soft) {\n    return;\n  }\n"),
 ("ok-order", "ok", R, "  ++limit_hits_[kSoft];\n  if (limits_[kHard] < backed) ++limit_hits_[kHard];\n", "  if (backed > limits_[kHard]) limit_hits_[kHard] += 1;\n  limit_hits_[kSoft] += 1;\n"),
]
