R = "tcmalloc/internal/sampled_allocation_recorder.h"
PK = "tcmalloc/peak_heap_tracker.cc"
M = [
    ("push-next", "bad", R, "  sample->next = all_.load(std::memory_order_relaxed);\n  while (!all_.compare_exchange_weak(sample->next, sample,\n                                     std::memory_order_release,\n                                     std::memory_order_relaxed)) {\n  }\n", "  T* head = all_.load(std::memory_order_relaxed);\n  sample->next = head;\n  while (!all_.compare_exchange_weak(head, sample,\n                                     std::memory_order_release,\n                                     std::memory_order_relaxed)) {\n  }\n"),
    ("relaxed", "bad", R, "std::memory_order_release,\n", "std::memory_order_relaxed,\n"),
    ("nosamplelock", "bad", R, "  AllocationGuardSpinLockHolder graveyard_lock(graveyard_.lock);\n  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  sample->dead", "  AllocationGuardSpinLockHolder graveyard_lock(graveyard_.lock);\n  sample->dead"),
    ("order", "bad", R, "  sample->dead = graveyard_.dead;\n  graveyard_.dead = sample;\n}", "  graveyard_.dead = sample;\n  sample->dead = graveyard_.dead;\n}"),
    ("late-dispose", "bad", R, "  if (auto* dispose = dispose_.load(std::memory_order_relaxed)) {\n    dispose(*sample);\n  }\n\n  AllocationGuardSpinLockHolder graveyard_lock(graveyard_.lock);\n  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  sample->dead = graveyard_.dead;\n  graveyard_.dead = sample;\n", "  {\n  AllocationGuardSpinLockHolder graveyard_lock(graveyard_.lock);\n  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  sample->dead = graveyard_.dead;\n  graveyard_.dead = sample;\n  }\n  if (auto* dispose = dispose_.load(std::memory_order_relaxed)) {\n    dispose(*sample);\n  }\n"),
    ("prepare-late", "bad", R, "  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  graveyard_.dead = sample->dead;\n  sample->dead = nullptr;\n  sample->Prep", "  {\n  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  graveyard_.dead = sample->dead;\n  sample->dead = nullptr;\n  }\n  sample->Prep"),
    ("visit-dead", "bad", R, "    if (s->dead == nullptr) {\n      f(*s);\n    }\n", "    if (s->dead != s) {\n      f(*s);\n    }\n"),
    ("visit-nolock", "bad", R, "    AllocationGuardSpinLockHolder l(s->lock);\n    if (s->dead == nullptr) {\n      f(*s);\n    }\n", "    bool live;\n    { AllocationGuardSpinLockHolder l(s->lock); live = s->dead == nullptr; }\n    if (live) {\n      f(*s);\n    }\n"),
    ("sweep-dead", "bad", R, "      if (sample->dead == nullptr) {\n        if (dispose) dispose(*sample);\n", "      {\n        if (dispose) dispose(*sample);\n"),
    ("sweep-disp", "bad", R, "      if (sample->dead == nullptr) {\n        if (dispose) dispose(*sample);\n", "      if (dispose) dispose(*sample);\n      if (sample->dead == nullptr) {\n"),
    ("dup-push", "bad", R, "  T* sample = PopDead(std::forward<Targs>(args)...);\n  if (sample == nullptr) {\n    // Resurrection failed.  Hire a new warlock.\n    sample = allocator_->New(std::forward<Targs>(args)...);\n    PushNew(sample);\n  }\n", "  T* sample = PopDead(std::forward<Targs>(args)...);\n  if (sample == nullptr) {\n    sample = allocator_->New(std::forward<Targs>(args)...);\n  }\n  PushNew(sample);\n"),
    ("peak-order", "bad", PK, "  peak_heap_recorder_.UnregisterAll();\n", ""),
    ("r-for", "ok", R, "  T* s = all_.load(std::memory_order_acquire);\n  while (s != nullptr) {\n    AllocationGuardSpinLockHolder l(s->lock);\n    if (s->dead == nullptr) {\n      f(*s);\n    }\n    s = s->next;\n  }\n}\n", "  for (T* s = all_.load(std::memory_order_acquire); s != nullptr;\n       s = s->next) {\n    AllocationGuardSpinLockHolder l(s->lock);\n    if (s->dead != nullptr) continue;\n    f(*s);\n  }\n}\n"),
    ("r-push", "ok", R, "  sample->next = all_.load(std::memory_order_relaxed);\n  while (!all_.compare_exchange_weak(sample->next, sample,\n                                     std::memory_order_release,\n                                     std::memory_order_relaxed)) {\n  }\n", "  T* head = all_.load(std::memory_order_relaxed);\n  do {\n    sample->next = head;\n  } while (!all_.compare_exchange_weak(head, sample,\n                                       std::memory_order_release,\n                                       std::memory_order_relaxed));\n"),
    ("r-disp", "ok", R, "  if (auto* dispose = dispose_.load(std::memory_order_relaxed)) {\n    dispose(*sample);\n  }\n", "  DisposeCallback dispose = dispose_.load(std::memory_order_acquire);\n  if (dispose != nullptr) dispose(*sample);\n"),
    ("r-pop", "ok", R, "  graveyard_.dead = sample->dead;\n  sample->dead = nullptr;\n  sample->PrepareForSampling(std::forward<Targs>(args)...);\n", "  sample->PrepareForSampling(std::forward<Targs>(args)...);\n  graveyard_.dead = std::exchange(sample->dead, nullptr);\n"),
    ("r-merge", "ok", R, "  T* sample = PopDead(std::forward<Targs>(args)...);\n  if (sample == nullptr) {\n", "  if (T* revived = PopDead(std::forward<Targs>(args)...)) return revived;\n  T* sample;\n  {\n"),
]
