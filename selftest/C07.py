H = "tcmalloc/pagemap.h"
C = "tcmalloc/pagemap.cc"
G = "tcmalloc/guarded_page_allocator.cc"
F = "tcmalloc/central_freelist.cc"
A = "tcmalloc/huge_page_aware_allocator.h"
M = [
 ("mid mask short", "bad", H, """  CompactSizeClass ABSL_ATTRIBUTE_ALWAYS_INLINE
  sizeclass(Number k) const ABSL_NO_THREAD_SAFETY_ANALYSIS {
    const Number i1 = k >> (kLeafBits + kMidBits);
    const Number i2 = (k >> kLeafBits) & (kMidLength - 1);""", """  CompactSizeClass ABSL_ATTRIBUTE_ALWAYS_INLINE
  sizeclass(Number k) const ABSL_NO_THREAD_SAFETY_ANALYSIS {
    const Number i1 = k >> (kLeafBits + kMidBits);
    const Number i2 = (k >> kLeafBits) & (kMidLength / 2 - 1);"""),
 ("get bits", "bad", H, """    if (ABSL_PREDICT_FALSE((k >> BITS) > 0) ||
        ABSL_PREDICT_FALSE(root_[i1] == nullptr) ||
        ABSL_PREDICT_FALSE(root_[i1]->leafs[i2] == nullptr)) {
      return nullptr;""", """    if (ABSL_PREDICT_FALSE((k >> (BITS + 1)) > 0) ||
        ABSL_PREDICT_FALSE(root_[i1] == nullptr) ||
        ABSL_PREDICT_FALSE(root_[i1]->leafs[i2] == nullptr)) {
      return nullptr;"""),
 ("hasleaf no node check", "bad", H, "    if (ABSL_PREDICT_FALSE(node == nullptr)) return false;\n", ""),
 ("sizeclass last page absent", "bad", H, """    if (ABSL_PREDICT_FALSE((k >> BITS) > 0) ||
        ABSL_PREDICT_FALSE(root_[i1] == nullptr) ||
        ABSL_PREDICT_FALSE(root_[i1]->leafs[i2] == nullptr)) {
      return 0;""", """    if (ABSL_PREDICT_FALSE((k >> BITS) > 0) || i2 == kMidLength - 1 ||
        ABSL_PREDICT_FALSE(root_[i1] == nullptr) ||
        ABSL_PREDICT_FALSE(root_[i1]->leafs[i2] == nullptr)) {
      return 0;"""),
 ("register skips word", "bad", H, "    leaf->span_and_sizeclass[i3].set(s, sc);\n    leaf->sizeclass[i3] = sc;", "    leaf->span_and_sizeclass[i3].set(s, 0);\n    leaf->sizeclass[i3] = sc;"),
 ("clear wrong leaf", "bad", H, "    root_[i1]->leafs[i2]->sizeclass[i3] = 0;", "    root_[i1]->leafs[i2]->sizeclass[i2] = 0;"),
 ("register not last", "bad", C, """  TC_ASSERT_EQ(GetDescriptor(first), span);
  for (PageId p = first; p <= last; ++p) {
    map_.set_with""", """  TC_ASSERT_EQ(GetDescriptor(first), span);
  for (PageId p = first; p < last; ++p) {
    map_.set_with"""),
 ("unregister first only", "bad", C, """  TC_ASSERT_EQ(GetDescriptor(first), span);
  for (PageId p = first; p <= last; ++p) {
    map_.clear_sizeclass(p.index());
  }""", "  map_.clear_sizeclass(first.index());"),
 ("register by length", "ok", C, """  const PageId last = span->last_page();
  TC_ASSERT_EQ(GetDescriptor(first), span);
  for (PageId p = first; p <= last; ++p) {
    map_.set_with_sizeclass(p.index(), span, sc);
  }""", """  const size_t n = span->num_pages().raw_num();
  for (size_t i = 0; i < n; ++i) {
    map_.set_with_sizeclass(first.index() + i, span, sc);
  }"""),
 ("ensure last page", "bad", H, "key <= start + n - 1;", "key < start + n - 1;"),
 ("ensure by end", "ok", H, "key <= start + n - 1;", "key < start + n;"),
 ("ensure skips leaf", "bad", H, "key = ((key >> kLeafBits) + 1) << kLeafBits;", "key += kLeafLength;"),
 ("ensure half zero", "bad", H, "memset(leaf, 0, sizeof(*leaf));", "memset(leaf, 0, sizeof(leaf->sizeclass));"),
 ("ensure publish first", "bad", H, """        memset(leaf, 0, sizeof(*leaf));
        root_[i1]->leafs[i2] = leaf;""", """        root_[i1]->leafs[i2] = leaf;
        memset(leaf, 0, sizeof(*leaf));"""),
 ("ensure no root bound", "bad", H, "if (i1 >= kRootLength) return false;", "if (i1 > kRootLength) return false;"),
 ("ensure local node", "ok", H, """        memset(leaf, 0, sizeof(*leaf));
        root_[i1]->leafs[i2] = leaf;
      }""", """        memset(leaf, 0, sizeof(Leaf));
        Node* n1 = root_[i1];
        n1->leafs[i2] = leaf;
      }"""),
 ("next no restart", "bad", H, "for (; i1 < kRootLength; ++i1, i2 = 0, i3 = 0) {", "for (; i1 < kRootLength; ++i1, i2 = 0) {"),
 ("next leaf no restart", "bad", H, "for (; i2 < kMidLength; ++i2, i3 = 0) {", "for (; i2 < kMidLength; ++i2) {"),
 ("next compose", "bad", H, "return (i1 << (kLeafBits + kMidBits)) | (i2 << kLeafBits) | i3;", "return (i1 << (kLeafBits + kMidBits)) | (i2 << kMidBits << 1) | i3;"),
 ("next same page", "bad", H, "    Number next_k = k + 1;\n", "    Number next_k = k + 2;\n"),
 ("next node break", "bad", H, "if (root_[i1]->leafs[i2] == nullptr) continue;", "if (root_[i1]->leafs[i2] == nullptr) break;"),
 ("next sum", "ok", H, "return (i1 << (kLeafBits + kMidBits)) | (i2 << kLeafBits) | i3;", "return ((i1 << kMidBits | i2) << kLeafBits) + i3;"),
 ("list grows", "bad", H, "if (allocated_spans.capacity() > allocated_spans.size()) {", "if (allocated_spans.capacity() >= allocated_spans.size()) {"),
 ("list stale", "bad", H, "if (page_id < s->first_page() || s->last_page() < page_id) continue;", "if (page_id < s->first_page()) continue;"),
 ("alloc no register", "bad", F, "  tc_globals.pagemap().RegisterSizeClass(span, size_class);\n", "  if (size_class != 1) tc_globals.pagemap().RegisterSizeClass(span, size_class);\n"),
 ("no unregister", "bad", F, "    tc_globals.pagemap().UnregisterSizeClass(free_span);\n", ""),
 ("setspan late", "bad", A, """  Span* s = forwarder_.NewSpan(f.r);
  forwarder_.SetSpan(f.r.p, s);""", """  Span* s = forwarder_.NewSpan(f.r);
  if (!f.donated) forwarder_.SetSpan(f.r.p, s);"""),
 ("clear dropped", "bad", A, "  forwarder_.ClearSpan(p);\n", "  if (s.donated) forwarder_.ClearSpan(p);\n"),
 ("ensure guard half", "bad", G, "const Length page_len = BytesToLengthFloor(len);", "const Length page_len = BytesToLengthFloor(len / 2);"),
 ("ensure guard unchecked", "bad", G, """    TC_ASSERT(false, "Failed to notify page map of page-guarded memory.");
    return;""", ""),
 ("alloc ensure bytes", "bad", A, "const Length page_len = BytesToLengthFloor(ret.bytes);", "const Length page_len = BytesToLengthFloor(bytes);"),
 ("packed shift", "bad", H, "static constexpr uintptr_t kSpanMask = (uintptr_t{1} << kSizeclassShift) - 1;", "static constexpr uintptr_t kSpanMask = (uintptr_t{1} << (kSizeclassShift - 1)) - 1;"),
 ("huge idx", "bad", H, "return leaf->hugepage[i3 >> (kLeafBits - kLeafHugeBits)];", "return leaf->hugepage[i3 >> (kLeafBits - kLeafHugeBits + 1)];"),
 ("helper", "ok", H, """    const Node* node = root_[i1];
    TC_ASSERT_NE(node, nullptr);
    const Leaf* leaf = node->leafs[i2];
    TC_ASSERT_NE(leaf, nullptr);
    return leaf->hugepage""", """    (void)i1;
    return root_[k >> (kLeafBits + kMidBits)]->leafs[i2]->hugepage"""),
]
