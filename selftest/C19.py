R = "tcmalloc/internal/range_tracker.h"
M = [
 ("set-mask", "bad", R, "  size_t mask = size_t{1} << offset;\n  bool old = bits_[word] & mask;\n  bits_[word] |= mask;", "  size_t mask = 1 << offset;\n  bool old = bits_[word] & mask;\n  bits_[word] |= mask;"),
 ("clear-xor", "bad", R, "  bits_[word] &= ~mask;\n  return old;", "  bits_[word] ^= mask;\n  return old;"),
 ("set-old", "bad", R, "  bool old = bits_[word] & mask;\n  bits_[word] |= mask;\n  return old;", "  bits_[word] |= mask;\n  bool old = bits_[word] & mask;\n  return old;"),
 ("get-shift", "ok", R, "  return bits_[word] & (size_t{1} << offset);", "  return (bits_[word] >> offset) & 1;"),
 ("get-word", "bad", R, "  return bits_[word] & (size_t{1} << offset);", "  return bits_[word] & (size_t{1} << word);"),
 ("range-n63", "bad", R, "  if (k > kWordSize) k = kWordSize;\n  SetWordBits<Value>(word, offset, k);", "  if (k >= kWordSize) k = kWordSize - 1;\n  SetWordBits<Value>(word, offset, k);"),
 ("range-min", "ok", R, "  size_t k = offset + n;\n  if (k > kWordSize) k = kWordSize;\n  SetWordBits<Value>(word, offset, k);", "  size_t k = std::min(offset + n, kWordSize);\n  SetWordBits<Value>(word, offset, k);"),
 ("range-skip", "bad", R, "  n -= k - offset;\n  while (n > 0) {\n    word++;\n    k = n;", "  n -= k - offset;\n  while (n > kWordSize) {\n    word++;\n    k = n;"),
 ("range-rest", "bad", R, "  n -= k - offset;\n  while (n > 0) {\n    word++;\n    k = n;", "  n -= k;\n  while (n > 0) {\n    word++;\n    k = n;"),
 ("range-word2", "bad", R, "    if (k > kWordSize) k = kWordSize;\n    SetWordBits<Value>(word, 0, k);", "    if (k > kWordSize) k = kWordSize;\n    SetWordBits<Value>(word, 0, kWordSize);"),
 ("range-offs", "bad", R, "    SetWordBits<Value>(word, 0, k);\n    n -= k;", "    SetWordBits<Value>(word, offset, k);\n    n -= k;"),
 ("range-for", "ok", R, "  while (n > 0) {\n    word++;\n    k = n;\n    if (k > kWordSize) k = kWordSize;\n    SetWordBits<Value>(word, 0, k);\n    n -= k;\n  }", "  for (size_t w = word + 1; n > 0; ++w) {\n    const size_t step = n < kWordSize ? n : kWordSize;\n    SetWordBits<Value>(w, 0, step);\n    n -= step;\n  }"),
 ("wordbits-mask", "bad", R, "  const size_t mask = (all_ones >> (kWordSize - n)) << from;\n  ASSUME(i < kWords);\n  if (Value)", "  const size_t mask = ((size_t{1} << n) - 1) << from;\n  ASSUME(i < kWords);\n  if (Value)"),
 ("wordbits-clear", "bad", R, "    bits_[i] &= ~mask;\n  }", "    bits_[i] &= mask;\n  }"),
 ("count-k", "bad", R, "    k = std::min(n, kWordSize);\n    count += CountWordBits(word, 0, k);", "    k = std::min(n, kWordSize);\n    count += CountWordBits(word, 0, kWordSize);"),
 ("count-loop", "bad", R, "  n -= k - offset;\n  while (n > 0) {\n    word++;\n    k = std::min(n, kWordSize);", "  n -= k - offset;\n  while (n >= kWordSize) {\n    word++;\n    k = std::min(n, kWordSize);"),
 ("count-n", "bad", R, "  return CountBits(0, N);", "  return CountBits(0, N - 1);"),
 ("iszero-last", "bad", R, "inline bool Bitmap<N>::IsZero() const {\n  for (int i = 0; i < kWords; ++i) {", "inline bool Bitmap<N>::IsZero() const {\n  for (int i = 0; i < kWords - 1; ++i) {"),
 ("iszero-ne", "bad", R, "    if (bits_[i] != 0) {\n      return false;", "    if (bits_[i] == ~size_t{0}) {\n      return false;"),
 ("clear-half", "bad", R, "inline void Bitmap<N>::Clear() {\n  for (int i = 0; i < kWords; ++i) {", "inline void Bitmap<N>::Clear() {\n  for (int i = 0; i < kWords; i += 2) {"),
 ("clear-memset", "ok", R, "  for (int i = 0; i < kWords; ++i) {\n    bits_[i] = 0;\n  }", "  memset(bits_, 0, sizeof(bits_));"),
 ("not-copy", "bad", R, "    result.bits_[i] = ~bits_[i];", "    result.bits_[i] = -bits_[i];"),
 ("and-or", "bad", R, "    result.bits_[i] = bits_[i] & other.bits_[i];", "    result.bits_[i] = bits_[i] | other.bits_[i];"),
 ("find-mask", "bad", R, "  size_t mask = ~static_cast<size_t>(0) << offset;\n", "  size_t mask = ~static_cast<size_t>(1) << offset;\n"),
 ("find-word", "bad", R, "    ++word;\n    if (word >= kWords) {", "    ++word;\n    if (word + 1 >= kWords) {"),
 ("find-inv", "bad", R, "    here = bits_[word];\n    if (!Goal) here = ~here;\n  }\n\n  word *= kWordSize;\n  ASSUME(here != 0);\n  size_t ret = absl::countr_zero(here) + word;", "    here = bits_[word];\n  }\n\n  word *= kWordSize;\n  ASSUME(here != 0);\n  size_t ret = absl::countr_zero(here) + word;"),
 ("find-ret", "bad", R, "  size_t ret = absl::countr_zero(here) + word;", "  size_t ret = absl::countr_zero(here & (here << 1)) + word;"),
 ("find-for", "ok", R, "  while (here == 0) {\n    ++word;\n    if (word >= kWords) {\n      return N;\n    }\n    here = bits_[word];\n    if (!Goal) here = ~here;\n  }", "  for (; here == 0;) {\n    if (word == kWords - 1) return N;\n    word += 1;\n    here = Goal ? bits_[word] : ~bits_[word];\n  }"),
 ("back-mask", "bad", R, "  size_t mask = (static_cast<size_t>(2) << offset) - 1;", "  size_t mask = (static_cast<size_t>(1) << offset) - 1;"),
 ("back-maskok", "ok", R, "  size_t mask = (static_cast<size_t>(2) << offset) - 1;", "  size_t mask = ~static_cast<size_t>(0) >> (kWordSize - 1 - offset);"),
 ("back-first", "bad", R, "    if (word < 0) {\n      return -1;", "    if (word <= 0) {\n      return -1;"),
 ("back-bw", "bad", R, "  size_t ret = absl::bit_width(here) - 1 + word;", "  size_t ret = absl::bit_width(here) + word;"),
 ("free-len", "bad", R, "  *length = j - i;", "  *length = j - start;"),
 ("free-idx", "bad", R, "  *index = i;\n  *length", "  *index = start;\n  *length"),
 ("free-last", "bad", R, "  if (start >= N) return false;\n", "  if (start + 1 >= N) return false;\n"),
 ("mark-nused", "bad", R, "  bits_.SetRange(index, n);\n  nused_ += n;\n  nallocs_++;\n", "  bits_.SetRange(index, n);\n  nused_ += 1;\n  nallocs_++;\n"),
 ("mark-before", "bad", R, ["  TC_ASSERT_GE(bits_.FindSet(index), index + n);\n  bits_.SetRange(index, n);\n", "  longest_free_ = longest_len;\n}\n"], ["  TC_ASSERT_GE(bits_.FindSet(index), index + n);\n", "  longest_free_ = longest_len;\n  bits_.SetRange(index, n);\n}\n"]),
 ("mark-longest", "bad", R, "    if (scan_len > longest_len) {\n      longest_len = scan_len;\n    }", "    longest_len = scan_len;"),
 ("mark-max", "ok", R, "    if (scan_len > longest_len) {\n      longest_len = scan_len;\n    }", "    longest_len = std::max(longest_len, scan_len);"),
 ("mark-from", "bad", R, "  size_t scan_index = 0, scan_len;", "  size_t scan_index = index, scan_len;"),
 ("mark-order", "ok", R, "  bits_.SetRange(index, n);\n  nused_ += n;\n  nallocs_++;\n\n  size_t longest_len", "  nallocs_++;\n  nused_ += n;\n  bits_.SetRange(index, n);\n\n  size_t longest_len"),
 ("unmark-alloc", "bad", R, "  nused_ -= n;\n  nallocs_--;", "  nused_ -= n;\n  if (nused_ == 0) nallocs_ = 0;"),
 ("unmark-lim", "bad", R, "  size_t lim = bits_.FindSet(index + n - 1);\n  index = bits_.FindSetBackwards(index) + 1;", "  size_t lim = index + n;\n  index = bits_.FindSetBackwards(index) + 1;"),
 ("unmark-back", "bad", R, "  index = bits_.FindSetBackwards(index) + 1;", "  index = bits_.FindSetBackwards(index);"),
 ("unmark-always", "bad", R, "  if (n > longest_free()) {\n    longest_free_ = n;\n  }", "  longest_free_ = n;"),
 ("unmark-max", "ok", R, "  if (n > longest_free()) {\n    longest_free_ = n;\n  }", "  longest_free_ = std::max<size_t>(longest_free_, n);"),
 ("unmark-early", "bad", R, ["  bits_.ClearRange(index, n);\n  nused_ -= n;", "  n = lim - index;\n  if (n"], ["  const size_t at = index, num = n;\n  nused_ -= n;", "  n = lim - index;\n  bits_.ClearRange(at, num);\n  if (n"]),
 ("fit-first", "bad", R, "    if (len >= n && len < best_len) {", "    if (len >= n && best_index == N) {"),
 ("fit-short", "bad", R, "    if (len >= n && len < best_len) {", "    if (len + 1 >= n && len < best_len) {"),
 ("fit-exact", "bad", R, "    if (len >= n && len < best_len) {", "    if (len > n && len < best_len) {"),
 ("fit-lenlost", "bad", R, "      best_index = index;\n      best_len = len;", "      best_index = index;\n      best_len = n;"),
 ("fit-second", "bad", R, "      second_len = longest_len;\n      longest_len = len;", "      longest_len = len;"),
 ("fit-second2", "bad", R, "    } else if (len > second_len) {\n      second_len = len;\n    }", "    }"),
 ("fit-after", "bad", R, "    longest_len -= n;\n    if (longest_len < second_len) longest_len = second_len;", "    longest_len = second_len;"),
 ("fit-max", "ok", R, "    longest_len -= n;\n    if (longest_len < second_len) longest_len = second_len;", "    longest_len = std::max(longest_len - n, second_len);"),
 ("fit-nosub", "bad", R, "  if (best_len == longest_len) {\n    longest_len -= n;", "  if (best_len == longest_len && n > 1) {\n    longest_len -= n;"),
 ("fit-ret", "bad", R, "  bits_.SetRange(best_index, n);", "  bits_.SetRange(best_index + best_len - n, n);"),
 ("fit-early", "bad", R, "    index += len;\n  }\n\n  TC_CHECK_LT", "    index += len;\n    if (len == n) break;\n  }\n\n  TC_CHECK_LT"),
 ("clear-longest", "bad", R, "  nallocs_ = 0;\n  nused_ = 0;\n  longest_free_ = N;", "  nallocs_ = 0;\n  longest_free_ = N;"),
]
