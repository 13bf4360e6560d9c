H = "tcmalloc/central_freelist.h"
C = "tcmalloc/central_freelist.cc"
M = [
 ("freed span stays listed", "bad", H, "    if (!kDeferredNonEmpty || ABSL_PREDICT_TRUE(!was_empty)) {\n      nonempty_.Remove(span, prev_index);", "    if (!kDeferredNonEmpty || ABSL_PREDICT_FALSE(was_empty)) {\n      nonempty_.Remove(span, prev_index);"),
 ("freed span always unlisted", "bad", H, "    if (!kDeferredNonEmpty || ABSL_PREDICT_TRUE(!was_empty)) {\n      nonempty_.Remove(span, prev_index);\n    }", "    nonempty_.Remove(span, prev_index);"),
 ("histogram keeps freed span", "bad", H, "    RecordSpanUtil(prev_bitwidth, /*increase=*/false);\n    if (!kDef", "    if (!kDef"),
 ("index not recorded on add", "bad", H, "    nonempty_.Add(span, cur_index);\n    span->set_nonempty_index(cur_index);\n  } else if", "    nonempty_.Add(span, cur_index);\n  } else if"),
 ("index not recorded on move", "bad", H, "    nonempty_.Move(span, prev_index, cur_index);\n#endif\n    span->set_nonempty_index(cur_index);\n  }\n  return", "    nonempty_.Move(span, prev_index, cur_index);\n#endif\n  }\n  return"),
 ("listed under old index", "bad", H, "    nonempty_.Add(span, cur_index);\n    span->set_nonempty_index(cur_index);\n  } else if", "    nonempty_.Add(span, prev_index);\n    span->set_nonempty_index(prev_index);\n  } else if"),
 ("cur allocated", "bad", H, "uint16_t cur_allocated = prev_allocated - batch.size();", "uint16_t cur_allocated = prev_allocated - 1;"),
 ("was_empty after", "bad", H, "  if (kDeferredNonEmpty && ABSL_PREDICT_FALSE(was_empty)) {", "  if (kDeferredNonEmpty && ABSL_PREDICT_FALSE(span->FreelistEmpty(object_size, objects_per_span))) {"),
 ("moves only up", "bad", H, "  } else if (cur_index != prev_index) {", "  } else if (cur_index > prev_index + 1) {"),
 ("bucket same", "bad", H, "  if (cur_bitwidth != prev_bitwidth) {\n    RecordSpanUtil(prev_bitwidth, /*increase=*/false);\n    RecordSpanUtil(cur_bitwidth, /*increase=*/true);\n  }\n  // If", "  if (cur_bitwidth < prev_bitwidth - 1) {\n    RecordSpanUtil(prev_bitwidth, /*increase=*/false);\n    RecordSpanUtil(cur_bitwidth, /*increase=*/true);\n  }\n  // If"),
 ("pop removes nonempty", "bad", H, "      if (span->FreelistEmpty(object_size, objects_per_span)) {\n        nonempty_.Remove(span, prev_index);", "      if (here == batch.size() - result) {\n        nonempty_.Remove(span, prev_index);"),
 ("pop batch", "bad", H, "span->FreelistPopBatch(batch.subspan(result), object_size)", "span->FreelistPopBatch(batch, object_size)"),
 ("populate batch", "bad", H, "result += Populate(batch.subspan(result));", "result += Populate(batch.first(batch.size() - result));"),
 ("populate result lost", "bad", H, "result += Populate(batch.subspan(result));\n", "result = Populate(batch.subspan(result));\n"),
 ("counter by batch", "bad", H, "    UpdateObjectCounts(-result);\n", "    UpdateObjectCounts(-static_cast<int>(batch.size()));\n"),
 ("hook count", "bad", H, "forwarder_.InvokeRemoveRangeHook(size_class_, batch.subspan(0, result));", "forwarder_.InvokeRemoveRangeHook(size_class_, batch);"),
 ("single null", "bad", H, "    if (ABSL_PREDICT_TRUE(span != nullptr)) {\n      batch[0] = span->start_address();\n      result = 1;\n    }", "    batch[0] = span != nullptr ? span->start_address() : nullptr;\n    result = 1;"),
 ("populate no relock", "bad", H, "  if (ABSL_PREDICT_FALSE(span == nullptr)) {\n    lock_.lock();\n    return 0;", "  if (ABSL_PREDICT_FALSE(span == nullptr)) {\n    return 0;"),
 ("populate lists full span", "bad", H, "  bool span_empty = result == objects_per_span_;", "  bool span_empty = result == num_to_move_;"),
 ("populate util after", "bad", H, "  RecordSpanUtil(bitwidth, /*increase=*/true);\n  if (!span_empty) {", "  if (!span_empty) {\n    RecordSpanUtil(bitwidth, /*increase=*/true);"),
 ("populate uncounted", "bad", H, "    span->set_nonempty_index(index);\n  }\n  RecordSpanAllocated();\n  return result;", "    span->set_nonempty_index(index);\n    RecordSpanAllocated();\n  }\n  return result;"),
 ("populate unlocked list", "bad", H, "  bool span_empty = result == objects_per_span_;\n\n  lock_.lock();\n", "  bool span_empty = result == objects_per_span_;\n"),
 ("insert idx of other", "bad", H, "      idx[i] = spans[i]->PtrToIdx(batch[i], object_size);", "      idx[i] = spans[0]->PtrToIdx(batch[i], object_size);"),
 ("insert step", "bad", H, "      i += step;", "      i += 1;"),
 ("insert free overwritten", "bad", H, "        free_spans[free_count] = span;\n        free_count++;", "        free_spans[free_count] = span;\n        free_count = 1;"),
 ("insert counter", "bad", H, "    RecordMultiSpansDeallocated(free_count);\n    UpdateObjectCounts(batch.size());", "    RecordMultiSpansDeallocated(free_count);\n    UpdateObjectCounts(batch.size() - free_count);"),
 ("insert returned only", "bad", H, "    counter_.LossyAdd(-num_spans_returned * objects_per_span_);\n", "    if (num_spans_returned > 1) counter_.LossyAdd(-num_spans_returned * objects_per_span_);\n"),
 ("insert forget one", "bad", H, "DeallocateSpans(absl::MakeSpan(free_spans, free_count));", "DeallocateSpans(absl::MakeSpan(free_spans, std::min(free_count, 8)));"),
 ("run too long", "bad", H, "      run_lengths[run_start] = i - run_start;", "      run_lengths[run_start] = i - run_start + (i - run_start == 7);"),
 ("run last", "bad", H, "  run_lengths[run_start] = batch.size() - run_start;", "  if (run_start != 0) run_lengths[run_start] = batch.size() - run_start;"),
 ("run start", "bad", H, "      run_start = i;\n      last = next;", "      run_start = i - 1;\n      last = next;"),
 ("index few", "bad", H, "    if (allocated <= kNumLists) {", "    if (allocated <= kNumLists + 1) {"),
 ("index clamp", "bad", H, "std::min<size_t>(bitwidth, kNumLists)", "std::min<size_t>(bitwidth, 2 * kNumLists)"),
 ("class unchecked", "bad", C, "    if (ABSL_PREDICT_FALSE(page_size_class != expected_size_class)) {", "    if (ABSL_PREDICT_FALSE(page_size_class == 0)) {"),
 ("not registered", "bad", C, "  tc_globals.pagemap().RegisterSizeClass(span, size_class);\n", "  if (objects_per_span > 1) tc_globals.pagemap().RegisterSizeClass(span, size_class);\n"),
 ("dealloc skip", "bad", H, "  return forwarder_.DeallocateSpans(objects_per_span_, spans);", "  if (spans.size() > 64) spans = spans.first(64);\n  return forwarder_.DeallocateSpans(objects_per_span_, spans);"),
 ("util unconditional", "ok", H, "  if (cur_bitwidth != prev_bitwidth) {\n    RecordSpanUtil(prev_bitwidth, /*increase=*/false);\n    RecordSpanUtil(cur_bitwidth, /*increase=*/true);\n  }\n  // If", "  RecordSpanUtil(prev_bitwidth, /*increase=*/false);\n  RecordSpanUtil(cur_bitwidth, /*increase=*/true);\n  // If"),
 ("pop turned", "ok", H, "      if (span->FreelistEmpty(object_size, objects_per_span)) {\n        nonempty_.Remove(span, prev_index);\n      } else {", "      const bool drained = span->FreelistEmpty(object_size, objects_per_span);\n      if (drained) {\n        nonempty_.Remove(span, prev_index);\n      }\n      if (!drained) {"),
 ("current from span", "ok", H, "      const uint16_t cur_allocated = prev_allocated + here;\n", "      const uint16_t cur_allocated = static_cast<uint16_t>(here) + prev_allocated;\n"),
 ("insert while", "ok", H, "      if (ABSL_PREDICT_FALSE(span)) {\n        free_spans[free_count] = span;\n        free_count++;\n      }\n      i += step;", "      i += step;\n      if (ABSL_PREDICT_TRUE(span == nullptr)) continue;\n      free_spans[free_count++] = span;"),
 ("counts swapped", "ok", H, "    RecordMultiSpansDeallocated(free_count);\n    UpdateObjectCounts(batch.size());", "    UpdateObjectCounts(batch.size());\n    if (free_count != 0) RecordMultiSpansDeallocated(free_count);"),
 ("runs without last", "ok", H, "    const Span* next = batch[i];\n    if (last == next) {\n      matches++;\n    } else {\n      run_lengths[run_start] = i - run_start;\n      run_start = i;\n      last = next;\n    }", "    if (batch[i] == batch[i - 1]) {\n      ++matches;\n      continue;\n    }\n    run_lengths[run_start] = i - run_start;\n    run_start = i;"),
 ("move by remove and add", "ok", H, "          nonempty_.Move(span, prev_index, cur_index);\n#endif\n          span->", "          nonempty_.Remove(span, prev_index);\n          nonempty_.Add(span, cur_index);\n#endif\n          span->"),
 ("populate turned", "ok", H, "  if (!span_empty) {\n    const uint8_t index = IndexFor(allocated, bitwidth);\n    nonempty_.Add(span, index);\n    span->set_nonempty_index(index);\n  }\n  RecordSpanAllocated();", "  RecordSpanAllocated();\n  if (result != objects_per_span_) {\n    const uint8_t index = IndexFor(allocated, bitwidth);\n    span->set_nonempty_index(index);\n    nonempty_.Add(span, index);\n  }"),
 ("prev index from span", "ok", H, "      const uint16_t prev_allocated = span->Allocated();\n#ifndef", "      const uint16_t prev_allocated = span->Allocated();\n      const uint8_t old_index = span->nonempty_index();\n      (void)old_index;\n#ifndef"),
]
