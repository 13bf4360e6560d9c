R = "tcmalloc/huge_address_map.cc"
M = [
 ("fix-left", "bad", R, "const HugeLength r = right_ ? right_->longest_ : NHugePages(0);", "const HugeLength r = right_ ? right_->range_.len() : NHugePages(0);"),
 ("fix-two", "bad", R, "std::max({l, r, c});", "std::max(std::max(l, r), std::min(c, l));"),
 ("fix-nest", "ok", R, "std::max({l, r, c});", "std::max(std::max(l, r), c);"),
 ("fix-if", "ok", R, "  const HugeLength new_longest = std::max({l, r, c});\n  longest_ = new_longest;", "  longest_ = std::max(c, std::max(r, l));"),
 ("up-one", "bad", R, "    n = n->parent_;\n  }\n}\n\nvoid HugeAddressMap::Remove", "    n = n->parent_ ? n->parent_->parent_ : nullptr;\n  }\n}\n\nvoid HugeAddressMap::Remove"),
 ("up-stop", "bad", R, "  while (n) {\n    n->FixLongest();\n", "  while (n) {\n    const HugeLength was = n->longest_;\n    n->FixLongest();\n    if (n->longest_ == was) break;\n"),
 ("put-used", "bad", R, "  used_nodes_--;\n", ""),
 ("put-order", "ok", R, "  freelist_size_++;\n  used_nodes_--;\n  n->left_ = freelist_;\n  freelist_ = n;", "  n->left_ = freelist_;\n  freelist_ = n;\n  used_nodes_--;\n  freelist_size_++;"),
 ("get-list", "bad", R, "  freelist_ = ret->left_;\n", "  freelist_ = ret->right_;\n"),
 ("get-total", "bad", R, "    total_nodes_++;\n", ""),
 ("get-size", "bad", R, "  freelist_size_--;\n", ""),
 ("get-null", "ok", R, "  if (freelist_size_ == 0) {\n    total_nodes_++;", "  if (freelist_ == nullptr) {\n    total_nodes_++;"),
 ("pred-le", "bad", R, "    if (p < here.start()) {", "    if (p <= here.start() + NHugePages(1)) {"),
 ("pred-best", "bad", R, "      best = n;\n      n = n->right_;", "      if (!best) best = n;\n      n = n->right_;"),
 ("pred-in", "bad", R, "    if (here.contains(p)) return n;\n", "    if (p == here.start() + here.len()) return n;\n"),
 ("pred-flip", "ok", R, "    if (p < here.start()) {\n      // p comes before here:\n      // our predecessor isn't here, nor in the right subtree.\n      n = n->left_;\n    } else {\n      // p comes after here:\n      // here is a valid candidate, and the right subtree might have better.\n      best = n;\n      n = n->right_;\n    }", "    if (p >= here.start()) {\n      best = n;\n      n = n->right_;\n    } else {\n      n = n->left_;\n    }"),
 ("first-right", "bad", R, "    n = left;\n    left = n->left_;", "    n = left;\n    left = n->right_;"),
 ("first-plain", "ok", R, "  const Node* left = n->left_;\n  while (left) {\n    n = left;\n    left = n->left_;\n  }\n", "  while (n->left_) n = n->left_;\n"),
 ("next-climb", "bad", R, "    if (n->left_ == last) return n;", "    if (n->right_ != last || n->left_ == nullptr) return n;"),
 ("next-one", "bad", R, "    while (n->left_) n = n->left_;\n    return n;", "    if (n->left_) n = n->left_;\n    return n;"),
 ("merge-when", "ok", R, "    b->range_ = Join(b->range_, r);\n    FixLongest(b);", "    b->range_ = HugeRange::Make(b->range_.start(), b->range_.len() + r.len());\n    FixLongest(b);"),
 ("merge-fix", "bad", R, "    a->range_ = Join(r, a->range_);\n    FixLongest(a);", "    a->range_ = Join(r, a->range_);\n    a->FixLongest();"),
 ("merge-order", "bad", R, "    b->range_ = Join(b->range_, r);\n    FixLongest(b);", "    FixLongest(b);\n    b->range_ = Join(b->range_, r);"),
 ("merge-total", "bad", R, "  total_size_ += a->range_.len();\n  Remove(a);", "  Remove(a);"),
 ("merge-part", "bad", R, "  HugeRange full = Join(b->range_, partial);", "  HugeRange full = Join(b->range_, r);"),
 ("merge-early", "bad", R, "  b->range_ = full;\n  b->when_ = full_when;\n  FixLongest(b);", "  b->range_ = full;\n  b->when_ = full_when;"),
 ("merge-noremove", "bad", R, "  total_size_ += a->range_.len();\n  Remove(a);\n", ""),
 ("merge-b", "ok", R, "  total_size_ += a->range_.len();\n  Remove(a);\n  b->range_ = full;\n  b->when_ = full_when;\n  FixLongest(b);", "  total_size_ += b->range_.len();\n  Remove(b);\n  a->range_ = full;\n  a->when_ = full_when;\n  FixLongest(a);"),
 ("ins-total", "bad", R, "  total_size_ += r.len();\n  // First", "  // First"),
 ("ins-three", "bad", R, "    if (after && r.precedes(after->range_)) {\n      Merge(before, r, after);", "    if (after && r.precedes(after->range_) && before->left_ != after) {\n      Merge(before, r, after);"),
 ("ins-miss", "bad", R, "  } else if (after && r.precedes(after->range_)) {\n    Merge(nullptr, r, after);\n    return;\n  }\n  TC_CHECK(!before || !before->range_.precedes(r));\n  TC_CHECK(!after || !r.precedes(after->range_));", "  } else if (before && after && r.precedes(after->range_)) {\n    Merge(nullptr, r, after);\n    return;\n  }"),
 ("ins-norewalk", "bad", R, "    curr->longest_ = std::max(curr->longest_, r.len());\n", ""),
 ("ins-prio", "bad", R, "curr->prio_ >= n->prio_) {", "curr->prio_ <= n->prio_) {"),
 ("ins-prio2", "ok", R, "curr->prio_ >= n->prio_) {", "curr->prio_ > n->prio_) {"),
 ("ins-link", "bad", R, "      link = &curr->left_;\n      curr = curr->left_;\n    }\n  }\n  *link", "      link = &curr->right_;\n      curr = curr->left_;\n    }\n  }\n  *link"),
 ("ins-parent", "bad", R, "  n->parent_ = parent;\n", "  n->parent_ = root_;\n"),
 ("ins-longest", "bad", R, "  n->longest_ = r.len();\n", ""),
 ("split-parent", "bad", R, "        *less = curr;\n        curr->parent_ = lp;", "        *less = curr;\n        curr->parent_ = n;"),
 ("split-mp", "bad", R, "        mp = curr;\n        curr = curr->left_;", "        curr = curr->left_;"),
 ("split-null", "bad", R, "    *more = *less = nullptr;", "    *less = nullptr;"),
 ("split-fix", "bad", R, "    FixLongest(lp);\n    FixLongest(mp);", "    FixLongest(lp);"),
 ("split-swap", "ok", R, "    FixLongest(lp);\n    FixLongest(mp);", "    FixLongest(mp);\n    FixLongest(lp);"),
 ("split-flip", "ok", R, "      if (curr->range_.start() < p) {\n        *less = curr;\n        curr->parent_ = lp;\n        less = &curr->right_;\n        lp = curr;\n        curr = curr->right_;\n      } else {\n        *more = curr;\n        curr->parent_ = mp;\n        more = &curr->left_;\n        mp = curr;\n        curr = curr->left_;\n      }", "      Node* c = curr;\n      if (c->range_.start() >= p) {\n        *more = c;\n        c->parent_ = mp;\n        more = &c->left_;\n        mp = c;\n        curr = c->left_;\n      } else {\n        *less = c;\n        c->parent_ = lp;\n        less = &c->right_;\n        lp = c;\n        curr = c->right_;\n      }"),
 ("rem-total", "bad", R, "  total_size_ -= n->range_.len();\n", "  total_size_ -= n->longest_;\n"),
 ("rem-child", "bad", R, "    n->longest_ = child_longest;\n", ""),
 ("rem-one", "bad", R, "               bottom ? bottom->longest_ : NHugePages(0));", "               NHugePages(0));"),
 ("rem-fix", "bad", R, "    FixLongest(parent);\n    if (parent->range_", "    parent->FixLongest();\n    if (parent->range_"),
 ("rem-side", "bad", R, "    if (parent->range_.start() > n->range_.start()) {", "    if (parent->left_ != nullptr) {"),
 ("rem-side2", "ok", R, "    if (parent->range_.start() > n->range_.start()) {", "    if (parent->left_ == n) {"),
 ("rem-reorder", "bad", R, "    if (b && (!t || t->prio_ < b->prio_)) {", "    if (b && (!t || t->prio_ > b->prio_)) {"),
 ("rem-null", "bad", R, "    if (b && (!t || t->prio_ < b->prio_)) {", "    if (b && t && t->prio_ < b->prio_) {"),
 ("join-longest", "bad", R, "    top->longest_ = std::max(top->longest_, bottom->longest_);\n", ""),
 ("join-parent", "bad", R, "    top->parent_ = parent;\n    // We're", "    // We're"),
 ("join-last", "bad", R, "  if (top) top->parent_ = parent;\n", ""),
 ("join-side", "bad", R, "    if (bottom->range_.start() < top->range_.start()) {", "    if (bottom->prio_ < top->prio_) {"),
 ("rem-put", "bad", R, "  if (top) top->parent_ = parent;\n  Put(n);", "  if (top) top->parent_ = parent;\n  if (top) Put(n);"),
]
