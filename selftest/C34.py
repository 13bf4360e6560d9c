L = "tcmalloc/internal/linked_list.h"
H = "tcmalloc/hinted_tracker_lists.h"
M = [
 ("prepend-next", "bad", L, "      prev->next_ = item;\n      prev_ = item;", "      prev_ = item;\n      prev_->next_ = item;"),
 ("prepend-order", "ok", L, "      prev->next_ = item;\n      prev_ = item;", "      prev_ = item;\n      prev->next_ = item;"),
 ("append-prev", "bad", L, "      item->prev_ = this;\n      next->prev_ = item;", "      item->prev_ = prev_;\n      next->prev_ = item;"),
 ("append-nolink", "bad", L, "      next->prev_ = item;\n", ""),
 ("remove-half", "bad", L, "      next->prev_ = prev;\n#ifndef", "#ifndef"),
 ("remove-ret", "bad", L, "      return next == prev;", "      return next == this;"),
 ("remove-retlate", "ok", L, "      return next == prev;", "      return prev == next;"),
 ("remove-clear", "ok", L, "      next->prev_ = prev;\n#ifndef", "      next->prev_ = prev;\n      prev_ = nullptr;\n      next_ = nullptr;\n#ifndef"),
 ("empty-prev", "ok", L, "  bool empty() const { return head_.next_ == &head_; }", "  bool empty() const { return head_.prev_ == &head_; }"),
 ("empty-null", "bad", L, "  bool empty() const { return head_.next_ == &head_; }", "  bool empty() const { return head_.next_ == nullptr; }"),
 ("empty-one", "bad", L, "  bool empty() const { return head_.next_ == &head_; }", "  bool empty() const { return head_.next_ == head_.prev_; }"),
 ("first-last", "bad", L, "    TC_ASSERT_NE(head_.next_, nullptr);\n    return static_cast<T*>(head_.next_);", "    return static_cast<T*>(head_.prev_);"),
 ("prepend-end", "bad", L, "  void prepend(T* item) { head_.append(item, this); }", "  void prepend(T* item) { head_.prepend(item, this); }"),
 ("append-other", "bad", L, "  void append(T* item, T* other) { item->append(other, this); }", "  void append(T* item, T* other) { head_.append(other, this); }"),
 ("length-from1", "bad", L, "    size_t result = 0;\n    for (Elem* e = head_.next_;", "    size_t result = 1;\n    for (Elem* e = head_.next_;"),
 ("length-skip", "bad", L, "    for (Elem* e = head_.next_; e != &head_; e = e->next_) {", "    for (Elem* e = head_.next_; e->next_ != &head_; e = e->next_) {"),
 ("length-back", "ok", L, "    for (Elem* e = head_.next_; e != &head_; e = e->next_) {", "    for (const Elem* e = head_.prev_; e != &head_; e = e->prev_) {"),
 ("length-while", "ok", L, "    for (Elem* e = head_.next_; e != &head_; e = e->next_) {\n      result++;\n    }", "    Elem* e = head_.next_;\n    while (e != &head_) {\n      ++result;\n      e = e->next_;\n    }"),
 ("end-null", "bad", L, "  RIter rbegin() const { return RIter(head_.prev_); }", "  RIter rbegin() const { return RIter(head_.next_); }"),
 ("rstep", "bad", L, "    RIter& operator++() {\n      elem_ = elem_->prev_;", "    RIter& operator++() {\n      elem_ = elem_->next_;"),
 ("init", "bad", L, "  constexpr TList() { head_.next_ = head_.prev_ = &head_; }", "  constexpr TList() { head_.next_ = &head_; }"),
 ("push-len", "bad", L, "    SLL_Push(&list_, ptr);\n    length_++;", "    SLL_Push(&list_, ptr);\n    if (length_ < 255) length_++;"),
 ("push-order", "bad", L, "  SLL_SetNext(element, *list);\n  *list = element;", "  *list = element;\n  SLL_SetNext(element, *list);"),
 ("pop-keep", "bad", L, "    void* next = SLL_Next(obj);\n    list_ = next;\n    length_--;", "    void* next = SLL_Next(obj);\n    if (next) list_ = next;\n    length_--;"),
 ("pop-lenzero", "bad", L, "    if (ABSL_PREDICT_FALSE(obj == nullptr)) {\n      return false;", "    if (ABSL_PREDICT_FALSE(length_ <= 1)) {\n      return false;"),
 ("pushbatch-one", "bad", L, "    for (int i = 0; i < N - 1; ++i) {\n      SLL_SetNext(batch[i], batch[i + 1]);", "    for (int i = 1; i < N - 1; ++i) {\n      SLL_SetNext(batch[i], batch[i + 1]);"),
 ("pushbatch-from1", "ok", L, "    for (int i = 0; i < N - 1; ++i) {\n      SLL_SetNext(batch[i], batch[i + 1]);", "    for (int i = 1; i < N; ++i) {\n      SLL_SetNext(batch[i - 1], batch[i]);"),
 ("pushbatch-top", "bad", L, "    list_ = batch[0];\n    length_ += N;", "    list_ = batch[N - 1];\n    length_ += N;"),
 ("pushbatch-len", "bad", L, "    list_ = batch[0];\n    length_ += N;", "    list_ = batch[0];\n    length_ += N - 1;"),
 ("popbatch-rest", "bad", L, "      batch[i] = p;\n      p = SLL_Next(p);\n    }\n    list_ = p;", "      batch[i] = p;\n      list_ = p;\n      p = SLL_Next(p);\n    }"),
 ("popbatch-n1", "bad", L, "    for (int i = 0; i < N; ++i) {\n      batch[i] = p;", "    for (int i = 0; i < N - 1; ++i) {\n      batch[i] = p;"),
 ("popbatch-len", "bad", L, "    length_ -= N;\n", "    length_ -= N > 1;\n"),
 ("popbatch-while", "ok", L, "    for (int i = 0; i < N; ++i) {\n      batch[i] = p;\n      p = SLL_Next(p);\n    }", "    int i = 0;\n    while (i < N) {\n      batch[i++] = p;\n      p = *reinterpret_cast<void**>(p);\n    }"),
 ("get-nobit", "bad", H, "    if (lists_[i].remove(pt)) {\n      nonempty_.ClearBit(i);\n    }\n    --size_;\n    return pt;", "    lists_[i].remove(pt);\n    --size_;\n    return pt;"),
 ("get-bitn", "bad", H, "    if (lists_[i].remove(pt)) {\n      nonempty_.ClearBit(i);\n    }\n    --size_;\n    return pt;", "    if (lists_[i].remove(pt)) {\n      nonempty_.ClearBit(n);\n    }\n    --size_;\n    return pt;"),
 ("get-size", "bad", H, "      nonempty_.ClearBit(i);\n    }\n    --size_;\n    return pt;", "      nonempty_.ClearBit(i);\n      --size_;\n    }\n    return pt;"),
 ("get-find0", "bad", H, "  TrackerType* absl_nullable GetLeast(const size_t n) {\n    TC_ASSERT_LT(n, N);\n    size_t i = nonempty_.FindSet(n);", "  TrackerType* absl_nullable GetLeast(const size_t n) {\n    TC_ASSERT_LT(n, N);\n    size_t i = nonempty_.FindSet(n / 2);"),
 ("get-empty", "ok", H, "    if (lists_[i].remove(pt)) {\n      nonempty_.ClearBit(i);\n    }\n    --size_;\n    return pt;", "    --size_;\n    lists_[i].remove(pt);\n    if (lists_[i].empty()) nonempty_.ClearBit(i);\n    return pt;"),
 ("peek-idx", "bad", H, "    return {lists_[i].first(), i};", "    return {lists_[i].first(), n};"),
 ("add-nobit", "bad", H, "    lists_[i].prepend(pt);\n    ++size_;\n    nonempty_.SetBit(i);", "    lists_[i].prepend(pt);\n    if (size_++ == 0) nonempty_.SetBit(i);"),
 ("add-was", "ok", H, "    lists_[i].prepend(pt);\n    ++size_;\n    nonempty_.SetBit(i);", "    const bool first = lists_[i].empty();\n    lists_[i].prepend(pt);\n    ++size_;\n    if (first) nonempty_.SetBit(i);"),
 ("add-append", "ok", H, "    lists_[i].prepend(pt);\n    ++size_;", "    ++size_;\n    lists_[i].append(pt);"),
 ("remove-always", "bad", H, "    if (lists_[i].remove(pt)) {\n      TC_ASSERT(nonempty_.GetBit(i));\n      nonempty_.ClearBit(i);\n    }\n    --size_;", "    lists_[i].remove(pt);\n    nonempty_.ClearBit(i);\n    --size_;"),
 ("remove-size", "bad", H, "      nonempty_.ClearBit(i);\n    }\n    --size_;\n  }", "      nonempty_.ClearBit(i);\n    }\n  }"),
 ("move-order", "bad", H, "    if (lists_[from].remove(pt)) {\n      TC_ASSERT(nonempty_.GetBit(from));\n      nonempty_.ClearBit(from);\n    }\n    lists_[to].prepend(pt);\n    nonempty_.SetBit(to);", "    const bool last = lists_[from].remove(pt);\n    lists_[to].prepend(pt);\n    nonempty_.SetBit(to);\n    if (last) nonempty_.ClearBit(to);"),
 ("move-nofrom", "bad", H, "      nonempty_.ClearBit(from);\n    }\n    lists_[to]", "    }\n    lists_[to]"),
 ("move-calls", "ok", H, "    if (lists_[from].remove(pt)) {\n      TC_ASSERT(nonempty_.GetBit(from));\n      nonempty_.ClearBit(from);\n    }\n    lists_[to].prepend(pt);\n    nonempty_.SetBit(to);", "    Remove(pt, from);\n    Add(pt, to);"),
 ("iter-skip", "bad", H, "      i++;\n      if (i < N) i = nonempty_.FindSet(i);", "      i += 2;\n      if (i < N) i = nonempty_.FindSet(i);"),
 ("iter-all", "ok", H, "      i++;\n      if (i < N) i = nonempty_.FindSet(i);", "      if (i + 1 == N) break;\n      i = nonempty_.FindSet(i + 1);"),
 ("iter-zero", "bad", H, "    size_t i = nonempty_.FindSet(start);", "    size_t i = nonempty_.FindSet(0);"),
]
