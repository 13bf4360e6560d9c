S = []


def seed(id, prop, kind, edits, needs, breaks, demo, **kw):
    S.append(dict(id=id, prop=prop, kind=kind, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


HK = "tcmalloc/internal/hook_list.h"
seed("c06-shrink", "C06", "shim", [(HK, "  if (hooks_end == index + 1) {\n", "  if (hooks_end >= index + 1) {\n")],
     "removing a hook that is not the last registered one",
     "removing an early hook also hides later, still registered hooks from invocation",
     r'''
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/malloc_hook_invoke.h"
#include "tcmalloc/internal/hook_list.h"
#include <cstdio>
using namespace tcmalloc;
namespace tcmalloc::tcmalloc_internal { ABSL_CONST_INIT absl::base_internal::SpinLock HookListBase::hooklist_spinlock_(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY); }
static void a(const MallocHook::NewInfo&) {}
static void b(const MallocHook::NewInfo&) {}
static void c(const MallocHook::NewInfo&) {}
int main() {
  static tcmalloc_internal::HookList<MallocHook::NewHook> l;
  l.Add(a); l.Add(b); l.Add(c);
  MallocHook::NewHook out[7];
  l.Remove(b);
  if (l.Traverse(out, 7) != 2 || out[0] != a || out[1] != c) { puts("lost a hook"); return 1; }
  l.Remove(a);
  if (l.Traverse(out, 7) != 1 || out[0] != c) { puts("lost a hook"); return 1; }
  return 0;
}
''')

CL = "tcmalloc/internal/clock.h"
CLK = r"""
#include "tcmalloc/internal/clock.h"
#include <cstdio>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
static int64_t g; static int64_t now() { return g; } static double freq() { return 1e9; }
static Clock clk{.now = &now, .freq = &freq};
"""
seed("c27-mask-sentinel", "C27", "hdr", [(CL, "    uint32_t now_32 = static_cast<uint32_t>(clock.now() >> kShift);\n    if (now_32 == 0) now_32 = 1;  // Reserve 0 as the uninitialized sentinel.\n", "    const int64_t ticks = clock.now() >> kShift;\n    uint32_t now_32 = static_cast<uint32_t>(ticks);\n    if (ticks == 0) now_32 = 1;  // Reserve 0 as the uninitialized sentinel.\n")],
     "a clock reading whose low 32 tick bits are all zero after the counter has wrapped",
     "a recorded timestamp reads as never recorded",
     CLK + r"""
int main() {
  Cycles32 c;
  g = int64_t{1} << 52;
  c.Update(clk);
  if (!c) { puts("recorded time reads as unset"); return 1; }
  g = 5; c.Update(clk); if (!c) return 1;
  c.Reset(); if (c) return 1;
  return 0;
}
""")
SF = "tcmalloc/internal/stacktrace_filter.h"
seed("c28-order", "C28", "hdr", [(SF, "    const size_t decay_hash =\n        ring(pos).exchange(replace_hash, std::memory_order_relaxed);\n", "    const size_t decay_hash = ring(pos).load(std::memory_order_relaxed);\n    ring(pos).store(replace_hash, std::memory_order_relaxed);\n"),
     (SF, "    const size_t pos = pos_.fetch_add(1, std::memory_order_relaxed);\n", "    const size_t pos = pos_.load(std::memory_order_relaxed);\n    pos_.store(pos + 1, std::memory_order_relaxed);\n")],
     "two threads adding at the same time", "a trace's ring entry is lost or decayed twice, so it is never (or too often) decayed",
     r"""
#include "tcmalloc/internal/stacktrace_filter.h"
#include <cstdio>
#include <thread>
#include <vector>
using namespace tcmalloc::tcmalloc_internal;
int main() {
  for (int round = 0; round < 40; ++round) {
    static DecayingStackTraceFilter<1024, 2, 8>* f; f = new DecayingStackTraceFilter<1024, 2, 8>;
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; ++t) ts.emplace_back([t] {
      void* st[2] = {(void*)(0x1000 + t * 64l), (void*)0x77};
      for (int i = 0; i < 20000; ++i) { f->Add(st, 1); f->Add(st, -1); }
    });
    for (auto& t : ts) t.join();
    f->DecayAll();
    for (int t = 0; t < 8; ++t) {
      void* st[2] = {(void*)(0x1000 + t * 64l), (void*)0x77};
      if (f->Contains(st)) { puts("undecayed trace"); return 1; }
    }
    delete f;
  }
  return 0;
}
""")
seed("c28-first-hash", "C28", "hdr", [(SF, "    for (size_t i = 0; i < kHashNum; ++i) {\n      if (!counts_[stack_hash % kSize].load(std::memory_order_relaxed))\n        return false;\n", "    for (size_t i = 0; i < kHashNum; ++i) {\n      if (counts_[stack_hash % kSize].load(std::memory_order_relaxed) == 0)\n        return i > 1;\n")],
     "a trace sharing its first two slots with recorded traces", "an absent trace is reported present although one of its slots is zero",
     r"""
#include "tcmalloc/internal/stacktrace_filter.h"
#include <cstdio>
using namespace tcmalloc::tcmalloc_internal;
int main() {
  // With 3 hashes over 64 slots and half the slots filled, count positives.
  static StackTraceFilter<64, 4> f;
  for (long i = 1; i <= 12; ++i) { void* s[1] = {(void*)(i * 4096)}; f.Add(s, 1); }
  int pos = 0;
  for (long i = 1000; i < 101000; ++i) { void* s[1] = {(void*)(i * 64)}; pos += f.Contains(s); }
  // about (1-e^(-48/64))^4 = 7.8% expected; first two slots only: 28%.
  printf("%d\n", pos);
  return pos > 17000;
}
""")
UT = "tcmalloc/internal/util.cc"
PRE = r"""
#include "tcmalloc/internal/util.h"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <sys/uio.h>
#include <unistd.h>
#include <poll.h>
using namespace tcmalloc::tcmalloc_internal;
"""
seed("c22-write-resume", "C22", "shim", [(UT, "    rc = write(fd, buf + total_bytes, count - total_bytes);\n    if (rc > 0) total_bytes += rc;\n", "    rc = write(fd, buf + total_bytes, count - total_bytes);\n    if (rc > 0) total_bytes = rc;\n")],
     "a write that the kernel splits into three or more parts", "the third part is written from the wrong place and the byte count is wrong",
     PRE + r"""
static char out[64]; static size_t n;
extern "C" ssize_t write(int fd, const void* p, size_t c) { if (c > 4) c = 4; if (n + c > 64) c = 0; memcpy(out + n, p, c); n += c; return c; }
int main() {
  size_t w = 0;
  ssize_t r = signal_safe_write(77, "abcdefghijklm", 13, &w);
  if (w != 13 || n != 13 || memcmp(out, "abcdefghijklm", 13)) { fputs("bad resume\n", stderr); return 1; }
  return 0;
}
""", srcs=[UT])
seed("c22-copy-batch", "C22", "shim", [(UT, "    if (bytes != batch_bytes) {\n      return false;\n    }\n", "    if (bytes != batch_bytes) {\n      return src_chunks.empty() && bytes > 0;\n    }\n")],
     "a fault in the middle of the last batch of chunks", "a partially failed guarded copy reports success",
     PRE + r"""
#include <sys/mman.h>
int main() {
  char* p = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 4096, 4096, PROT_NONE);
  static char d[8192];
  absl::string_view ch[2] = {absl::string_view(p, 4096), absl::string_view(p + 4096, 16)};
  if (SafeCopyMemory(absl::MakeConstSpan(ch, 2), d)) { puts("short copy reported as success"); return 1; }
  absl::string_view ok[2] = {absl::string_view(p, 100), absl::string_view(p + 100, 16)};
  return SafeCopyMemory(absl::MakeConstSpan(ok, 2), d) ? 0 : 1;
}
""", srcs=[UT])

TC = "tcmalloc/tcmalloc.cc"
TCH = r"""
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
extern "C" {
void* TCMallocInternalCalloc(size_t, size_t) noexcept; void* TCMallocInternalMalloc(size_t) noexcept;
void* TCMallocInternalRealloc(void*, size_t) noexcept; void* TCMallocInternalReallocArray(void*, size_t, size_t) noexcept;
int TCMallocInternalPosixMemalign(void**, size_t, size_t) noexcept; void TCMallocInternalFree(void*) noexcept;
void* TCMallocInternalMemalign(size_t, size_t) noexcept; void* TCMallocInternalAlignedAlloc(size_t, size_t) noexcept;
size_t TCMallocInternalMallocSize(void*) noexcept; void* TCMallocInternalValloc(size_t) noexcept;
}
#pragma GCC diagnostic ignored "-Walloc-size-larger-than="
"""
seed("c01-reallocarray", "C01", "full", [(TC, "    void* ptr, size_t n, size_t elem_size) noexcept {\n  size_t size;\n  if (ABSL_PREDICT_FALSE(MultiplyOverflow(n, elem_size, &size))) {\n", "    void* ptr, size_t n, size_t elem_size) noexcept {\n  size_t size;\n  if (ABSL_PREDICT_FALSE(MultiplyOverflow(n, elem_size, &size)) && n > elem_size) {\n")],
     "reallocarray with an overflowing product whose element size is the larger factor", "reallocarray returns a tiny block for an overflowing request",
     TCH + r"""
int main() {
  volatile size_t big = (size_t{1} << 61) + 1, n = 8;
  void* p = TCMallocInternalReallocArray(nullptr, big, n); if (p) { puts("wrapped"); return 1; }
  p = TCMallocInternalReallocArray(nullptr, n, big); if (p) { puts("wrapped"); return 1; }
  p = TCMallocInternalReallocArray(nullptr, 100, 10); if (!p) return 1;
  memset(p, 1, 1000); TCMallocInternalFree(p);
  return 0;
}
""")
seed("c03-keep-large", "C03", "full", [(TC, "    changes_correct_size = actual_new_size != old_size;\n", "    changes_correct_size = is_small ? actual_new_size != old_size\n                                    : actual_new_size < old_size;\n")],
     "realloc growing one large (> 256 KiB) block", "a large block is kept in place although it is smaller than the new size",
     TCH + r"""
int main() {
  for (int i = 0; i < 20; ++i) {
    size_t a = (size_t{1} << 20) + i * 8192, b = a * 3;
    char* p = (char*)TCMallocInternalMalloc(a); memset(p, 7, a);
    char* q = (char*)TCMallocInternalRealloc(p, b);
    if (TCMallocInternalMallocSize(q) < b) { puts("kept a block that is too small"); return 1; }
    for (size_t j = 0; j < a; j += 4096) if (q[j] != 7) return 1;
    TCMallocInternalFree(q);
  }
  return 0;
}
""")
seed("c02-posix-result", "C02", "full", [(TC, "  void* result = fast_alloc(size, MallocPolicy().AlignAs(align));\n  if (ABSL_PREDICT_FALSE(result == nullptr)) {\n    return ENOMEM;\n  }\n  *result_ptr = result;\n  return 0;\n", "  void* result = fast_alloc(size, MallocPolicy().AlignAs(align));\n  *result_ptr = result;\n  if (ABSL_PREDICT_FALSE(result == nullptr)) {\n    return ENOMEM;\n  }\n  return 0;\n")],
     "posix_memalign running out of memory", "a failed posix_memalign overwrites the caller's pointer",
     TCH + r"""
int main() {
  int x; void* p = &x;
  volatile size_t big = SIZE_MAX / 2;
  int r = TCMallocInternalPosixMemalign(&p, 64, big);
  if (r != ENOMEM || p != &x) { puts("result overwritten on failure"); return 1; }
  r = TCMallocInternalPosixMemalign(&p, 64, 100);
  if (r || ((uintptr_t)p & 63)) return 1;
  TCMallocInternalFree(p);
  return 0;
}
""")

SM = "tcmalloc/sizemap.h"
seed("c04-page-align", "C04", "full", [(SM, "    if (ABSL_PREDICT_FALSE(align > kPageSize)) {", "    if (ABSL_PREDICT_FALSE(align > 2 * kPageSize)) {")],
     "a request of at most 256 KiB aligned to two pages", "an object aligned to less than asked is returned",
     TCH + r"""
int main() {
  for (size_t size = 16384; size <= 262144; size += 4096)
    for (int k = 0; k < 6; ++k) {
      void* p = TCMallocInternalMemalign(16384, size);
      if (!p || ((uintptr_t)p & 16383)) { puts("misaligned"); return 1; }
    }
  return 0;
}
""")
seed("c04-multiple", "C04", "full", [("tcmalloc/tcmalloc.cc", "  sized_ptr_t res{span->start_address(), num_pages.in_bytes()};\n", "  sized_ptr_t res{span->start_address(), size};\n")] if 0 else [(SM, "    if (ABSL_PREDICT_FALSE(!IsAlignedTo(class_to_size(size_class), align))) {\n", "    if (ABSL_PREDICT_FALSE(class_to_size(size_class) < align)) {\n")],
     "an aligned request whose size class is larger than but no multiple of the alignment", "a misaligned object is returned",
     TCH + r"""
int main() {
  for (size_t al = 16; al <= 4096; al *= 2)
    for (size_t size = 1; size <= 20000; size += 37) {
      void* p = TCMallocInternalMemalign(al, size);
      void* q = TCMallocInternalMemalign(al, size);
      if (!p || ((uintptr_t)p & (al - 1)) || ((uintptr_t)q & (al - 1))) { puts("misaligned"); return 1; }
    }
  return 0;
}
""")

seed("c05-interior", "C05", "full", [("tcmalloc/tcmalloc.cc", "    if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {\n      ReportCorruptedFree(tc_globals, static_cast<std::align_val_t>(kPageSize),\n                          ptr);\n    }\n", "    if (ABSL_PREDICT_FALSE(PageIdContaining(ptr) != span->first_page())) {\n      ReportCorruptedFree(tc_globals, static_cast<std::align_val_t>(kPageSize),\n                          ptr);\n    }\n")],
     "freeing a pointer into the first page of a large unsampled object", "an interior pointer is silently freed instead of reported",
     TCH + r"""
#include <sys/wait.h>
#include <unistd.h>
#include "tcmalloc/parameters.h"
extern "C" void* TCMallocInternalNew(size_t); extern "C" void TCMallocInternalDelete(void*) noexcept;
int main() {
  tcmalloc::tcmalloc_internal::Parameters::set_profile_sampling_interval(0);
  const size_t n = size_t{1} << 20;
  void* v[20];
  for (int k = 0; k < 20; ++k) v[k] = TCMallocInternalNew(n);
  for (int k = 0; k < 20; ++k) {
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) { close(2); TCMallocInternalDelete((char*)v[k] + 64 * (k + 1)); _exit(0); }
    int st = 0; waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { puts("interior pointer freed"); return 1; }
  }
  for (int k = 0; k < 20; ++k) TCMallocInternalDelete(v[k]);
  return 0;
}
""")

HKD = TCH + r"""
#include "tcmalloc/malloc_hook.h"
#include <atomic>
static std::atomic<int> nnew{0}, nnull{0}; static std::atomic<void*> lastp{nullptr}; static std::atomic<size_t> lasta{0};
static void onnew(const tcmalloc::MallocHook::NewInfo& i) { ++nnew; if (!i.ptr) ++nnull; lastp = (void*)i.ptr; lasta = i.allocated_size; }
"""
seed("c37-oom-hook", "C37", "full", [("tcmalloc/tcmalloc.cc", "  if (ABSL_PREDICT_FALSE(res.p == nullptr)) return policy.handle_oom(size);\n\n  if (Policy::invoke_hooks()) {\n    // Size returning tcmallocs call NewHooks with capacity as requested_size.\n    // The callee of the hook has no other way of knowing that writes to [size,\n    // ptr.n) are valid.\n    MallocHook::InvokeNewHook({res.p, Policy::size_returning() ? res.n : size,\n                               res.n, HookMemoryMutable::kMutable});\n  }\n", "  if (Policy::invoke_hooks()) {\n    // Size returning tcmallocs call NewHooks with capacity as requested_size.\n    // The callee of the hook has no other way of knowing that writes to [size,\n    // ptr.n) are valid.\n    MallocHook::InvokeNewHook({res.p, Policy::size_returning() ? res.n : size,\n                               res.n, HookMemoryMutable::kMutable});\n  }\n  if (ABSL_PREDICT_FALSE(res.p == nullptr)) return policy.handle_oom(size);\n")],
     "a large allocation that fails while a new hook is registered", "a failed allocation is reported to the new hooks as a block at address zero",
     HKD + r"""
int main() {
  if (!tcmalloc::MallocHook::AddNewHook(&onnew)) return 2;
  void* p = TCMallocInternalMalloc(size_t{1} << 60);
  bool r = tcmalloc::MallocHook::RemoveNewHook(&onnew);
  if (p || !r) return 2;
  if (nnull != 0) { puts("failed allocation reported"); return 1; }
  return 0;
}
""")
seed("c37-fast-again", "C37", "full", [("tcmalloc/cpu_cache.h", "  void* ret = AllocateSlowNoHooks(size_class);\n  MaybeForceSlowPath();\n", "  MaybeForceSlowPath();\n  void* ret = AllocateSlowNoHooks(size_class);\n")],
     "several allocations of one size class in a row on one thread while a hook is registered", "only the first allocation after the hook's registration is reported; the others take the fast path again",
     HKD + r"""
int main() {
  for (int i = 0; i < 100; ++i) TCMallocInternalFree(TCMallocInternalMalloc(64));
  void* q[64];
  if (!tcmalloc::MallocHook::AddNewHook(&onnew)) return 2;
  for (auto& p : q) p = TCMallocInternalMalloc(64);
  int n = nnew;
  bool r = tcmalloc::MallocHook::RemoveNewHook(&onnew);
  if (!r) return 2;
  if (n < 64) { printf("only %d of 64 allocations reported\n", n); return 1; }
  return 0;
}
""", env="GLIBC_TUNABLES=glibc.pthread.rseq=0 ")
seed("c14-frag", "C14", "full", [("tcmalloc/allocation_sampling.h", "    state.sampled_internal_fragmentation_.Add(-sampled_fragmentation);\n", "    if (!size.has_value()) {\n      state.sampled_internal_fragmentation_.Add(-sampled_fragmentation);\n    }\n")],
     "sized deletes of sampled blocks whose size was rounded up", "the fragmentation estimate keeps growing although the blocks are gone",
     TCH + r"""
#include "tcmalloc/malloc_extension.h"
extern "C" { void* TCMallocInternalNew(size_t); void TCMallocInternalDeleteSized(void*, size_t); }
int main() {
  size_t before = 0, after = 0;
  auto get = [] { auto v = tcmalloc::MallocExtension::GetNumericProperty("tcmalloc.sampled_internal_fragmentation"); return v ? *v : size_t{0}; };
  TCMallocInternalDeleteSized(TCMallocInternalNew((8 << 20) + 5), (8 << 20) + 5);
  before = get();
  for (int i = 0; i < 2000; ++i) TCMallocInternalDeleteSized(TCMallocInternalNew((8 << 20) + 5), (8 << 20) + 5);
  after = get();
  if (after > before + 4096) { printf("%zu -> %zu\n", before, after); return 1; }
  return 0;
}
""")
seed("c14-unsampled-size", "C14", "full", [("tcmalloc/allocation_sampling.h", "    } else if (ABSL_PREDICT_FALSE(size != requested_size)) {\n", "    } else if (ABSL_PREDICT_FALSE(*size > requested_size)) {\n")],
     "a sized delete of a sampled block with a size that is too small", "the mismatch with the record goes unnoticed",
     TCH + r"""
#include <sys/wait.h>
#include <unistd.h>
extern "C" { void* TCMallocInternalNew(size_t); void TCMallocInternalDeleteSized(void*, size_t); }
int main() {
  int ok = 0;
  for (int i = 0; i < 5; ++i) {
    pid_t c = fork();
    if (c == 0) { (void)!freopen("/dev/null", "w", stderr); void* p = TCMallocInternalNew((8 << 20) + 5); TCMallocInternalDeleteSized(p, (8 << 20) + 3); _exit(0); }
    int st = 0; waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ++ok;
  }
  if (ok >= 4) { puts("mismatched size accepted"); return 1; }
  return 0;
}
""")
SR = "tcmalloc/internal/sampled_allocation_recorder.h"
RECD = r"""
#include "tcmalloc/internal/sampled_allocation_recorder.h"
#include <cstdio>
#include <set>
using namespace tcmalloc::tcmalloc_internal;
namespace tcmalloc::tcmalloc_internal { thread_local int dummy_; }
struct Info : public Sample<Info> {
  constexpr Info() = default;
  explicit Info(int v) { PrepareForSampling(v); }
  void PrepareForSampling(int v) ABSL_EXCLUSIVE_LOCKS_REQUIRED(lock) { value = v; }
  int value = 0;
};
struct Alloc { template <class... A> Info* New(A&&... a) { return new Info(a...); } void Delete(Info* p) { delete p; } };
static Alloc al;
"""
seed("c38-sweep", "C38", "shim", [(SR, "      if (sample->dead == nullptr) {\n        if (dispose) dispose(*sample);\n", "      if (dispose) dispose(*sample);\n      if (sample->dead == nullptr) {\n")],
     "a sweep of all samples while some are already unregistered and a dispose callback is set", "the dispose callback runs twice for a sample that was already unregistered",
     RECD + r"""
static int n; static void disp(const Info&) { ++n; }
int main() {
  SampleRecorder<Info, Alloc> r(al);
  r.SetDisposeCallback(&disp);
  Info* a = r.Register(1); Info* b = r.Register(2); (void)b;
  r.Unregister(a);
  if (n != 1) return 1;
  r.UnregisterAll();
  if (n != 2) { printf("%d disposals of 2 samples\n", n); return 1; }
  return 0;
}
""")
seed("c38-order", "C38", "shim", [(SR, "  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  graveyard_.dead = sample->dead;\n  sample->dead = nullptr;\n  sample->PrepareForSampling(std::forward<Targs>(args)...);\n", "  graveyard_.dead = sample->dead;\n  sample->PrepareForSampling(std::forward<Targs>(args)...);\n  AllocationGuardSpinLockHolder sample_lock(sample->lock);\n  sample->dead = nullptr;\n"),
      (SR, "    AllocationGuardSpinLockHolder l(s->lock);\n    if (s->dead == nullptr) {\n      f(*s);\n    }\n    s = s->next;\n", "    bool live;\n    {\n      AllocationGuardSpinLockHolder l(s->lock);\n      live = s->dead == nullptr;\n    }\n    if (live) f(*s);\n    s = s->next;\n")],
     "a sample that is unregistered and revived by another thread while it is being visited", "a visitor sees a sample change under it",
     r"""
#include <atomic>
#include <thread>
""" + RECD + r"""
int main() {
  SampleRecorder<Info, Alloc> r(al);
  Info* a = r.Register(1);
  std::atomic<int> st{0}; std::thread t; int bad = 0;
  r.Iterate([&](const Info& s) {
    int v = s.value;
    t = std::thread([&] { st = 1; r.Unregister(a); r.Register(2); st = 2; });
    for (long k = 0; k < 200000000 && st != 2; ++k) if (k > 50000000 && st == 0) k = 0;
    if (s.value != v) bad = 1;
  });
  t.join();
  if (bad) { puts("sample changed while visited"); return 1; }
  return 0;
}
""")
AR = "tcmalloc/arena.cc"
ARD = r"""
#include <cstdio>
#include <cstdint>
#include <new>
#include "tcmalloc/arena.h"
using namespace tcmalloc::tcmalloc_internal;
alignas(64) static Arena a;
static char* get(size_t n, size_t al) { return static_cast<char*>(a.Alloc(n, static_cast<std::align_val_t>(al))); }
"""
seed("c39-stale-pad", "C39", "full", [(AR, "    AllocSlow(bytes, align);\n    alignment_bytes = AlignmentBytes(free_area_, align);\n", "    AllocSlow(bytes, align);\n")],
     "an aligned metadata request that does not fit the rest of an area whose cursor is not aligned", "the block from the fresh area is misaligned by the old area's padding",
     ARD + r"""
int main() {
  get(24, 8);
  ArenaStats s = a.stats();
  char* p = get(s.bytes_unallocated - 7960, 64);  // leaves a cursor that is not aligned
  char* q = get(8000, 64);
  if (reinterpret_cast<uintptr_t>(p) % 64 || reinterpret_cast<uintptr_t>(q) % 64) { fprintf(stderr, "misaligned metadata %p %p\n", p, q); return 1; }
  return 0;
}
""")
seed("c39-pop-fit", "C39", "full", [(AR, "    if (avail < align_bytes + bytes) {", "    if (avail < std::max(align_bytes, bytes)) {")],
     "an aligned request that fits a listed remnant only without its padding", "the metadata block runs past the end of its area and the free byte count wraps",
     ARD + r"""
int main() {
  get(200, 8);
  ArenaStats s = a.stats();
  get(s.bytes_unallocated - 136, 8);
  get(200, 8);                          // lists the 136 bytes left
  s = a.stats();
  get(s.bytes_unallocated - 136 - 24, 8);
  get(132, 64);
  s = a.stats();
  if (s.bytes_unallocated > (size_t{1} << 40)) { fprintf(stderr, "free bytes wrapped: %zu\n", s.bytes_unallocated); return 1; }
  return 0;
}
""")
LO = "tcmalloc/libc_override.h"
seed("c32-array-sized", "C32", "full", [(LO, "TCMALLOC_ALIAS(TCMallocInternalDeleteArraySizedAligned)", "TCMALLOC_ALIAS(TCMallocInternalDeleteArraySized)")],
     "a sized aligned array delete of an over-aligned block", "the block is freed to the size class of its size without its alignment",
     r"""
#include <cstdio>
#include <new>
int main() {
  int bad = 0;
  for (int k = 0; k < 64; ++k) {
    void* p = ::operator new[](96, std::align_val_t(64));
    ::operator delete[](p, 96, std::align_val_t(64));
    void* q = ::operator new(96);
    if (p == q) ++bad;
  }
  if (bad) { fprintf(stderr, "%d aligned blocks reappeared as smaller ones\n", bad); return 1; }
  return 0;
}
""", flags="-fno-builtin -fsized-deallocation")
seed("c32-nothrow", "C32", "full", [("tcmalloc/tcmalloc.cc", "    TCMALLOC_ALIAS(TCMallocInternalNewAlignedNothrow);", "    TCMALLOC_ALIAS(TCMallocInternalNewAligned);")],
     "a nothrow aligned array new that cannot be satisfied", "the process dies instead of the call returning null",
     r"""
#include <cstdio>
#include <new>
int main() {
  volatile size_t n = size_t{1} << 62;
  void* p = ::operator new[](n, std::align_val_t(64), std::nothrow);
  if (p) return 1;
  fprintf(stderr, "null as promised\n");
  return 0;
}
""", flags="-fno-builtin")
seed("c13-peak-dump", "C13", "full", [("tcmalloc/peak_heap_tracker.cc", "  auto profile = std::make_unique<StackTraceTable>(ProfileType::kPeakHeap);\n\n  AllocationGuardSpinLockHolder h(recorder_lock_);\n", "  AllocationGuardSpinLockHolder h(recorder_lock_);\n  auto profile = std::make_unique<StackTraceTable>(ProfileType::kPeakHeap);\n")],
     "a peak-heap profile requested while its own first allocation is sampled and is a new heap peak",
     "the profile object is allocated under the peak-heap lock, which sampling that allocation takes again: the caller hangs",
     r"""
#include "tcmalloc/malloc_extension.h"
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <unistd.h>
using namespace tcmalloc;
int main() {
  alarm(60);
  MallocExtension::SetProfileSamplingInterval(1);
  // A thread's first allocation is sampled: here the one of the snapshot.
  std::thread t([] { auto p = MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap); (void)p; });
  t.join();
  fprintf(stderr, "done\n");
  return 0;
}
""", flags="-fno-builtin", tmo=100)
seed("c13-retire-order", "C13", "full", [("tcmalloc/thread_cache.cc", "  // Remove all memory from heap\n  heap->Cleanup();\n\n  // Remove from linked list\n  {\n    AllocationGuardSpinLockHolder l(threadcache_lock_);\n", "  {\n    AllocationGuardSpinLockHolder l(threadcache_lock_);\n    // Remove all memory from heap, so that its size is not counted twice.\n    heap->Cleanup();\n    // Remove from linked list\n"),
     ("tcmalloc/global_stats.cc", "  r.tc_stats = ThreadCache::GetStats(&r.thread_bytes, class_count);\n\n  {  // scope\n    PageHeapSpinLockHolder l;\n", "\n  {  // scope\n    PageHeapSpinLockHolder l;\n    r.tc_stats = ThreadCache::GetStats(&r.thread_bytes, class_count);\n")],
     "one thread reads statistics while another exits and its cached objects complete a span",
     "statistics take pageheap_lock then the thread-cache lock, retiring a thread takes them in the other order: both threads hang",
     r"""
#include "tcmalloc/malloc_extension.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace tcmalloc;
int main() {
  alarm(60);
  std::atomic<bool> stop{false};
  std::vector<std::thread> st;
  for (int k = 0; k < 2; ++k) st.emplace_back([&] { while (!stop) MallocExtension::GetNumericProperty("generic.current_allocated_bytes"), MallocExtension::GetProperties(); });
  std::vector<std::thread> w;
  for (int k = 0; k < 4; ++k) w.emplace_back([&] {
    for (int i = 0; i < 400; ++i) {
      std::thread t([i] {
        std::vector<void*> v;
        for (int j = 0; j < 60; ++j) v.push_back(::operator new(30000 + (j % 7) * 9000));
        for (void* p : v) ::operator delete(p);
      });
      t.join();
    }
  });
  for (auto& t : w) t.join();
  stop = true;
  for (auto& t : st) t.join();
  fprintf(stderr, "done\n");
  return 0;
}
""", flags="-fno-builtin", tmo=100)
seed("c40-host-string", "C40", "full", [("tcmalloc/experiment.cc", "    const char* active_experiments = thread_safe_getenv(kExperiments);\n", "    const char* active_env = thread_safe_getenv(kExperiments);\n    const std::string active_copy(active_env ? active_env : \"\");\n    const char* active_experiments = active_env ? active_copy.c_str() : nullptr;\n")],
     "an experiments environment variable longer than 15 characters",
     "selecting experiments during the first allocation builds a string on the heap, re-entering the allocator while it initialises itself",
     r"""
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
int main(int argc, char** argv) {
  alarm(30);
  if (argc == 1) {
    setenv("BORG_EXPERIMENTS", "NONE_SUCH_EXPERIMENT,ANOTHER_UNKNOWN_EXPERIMENT", 1);
    char* av[] = {argv[0], (char*)"x", nullptr};
    execv("/proc/self/exe", av);
    return 3;
  }
  void* volatile p = ::operator new(100); ::operator delete(p);
  fprintf(stderr, "started\n");
  return 0;
}
""", flags="-fno-builtin", tmo=60)
seed("c40-stable-sort", "C40", "full", [("tcmalloc/huge_page_filler.h", "  absl::c_sort(candidates, CompareForSubrelease);", "  absl::c_stable_sort(candidates, CompareForSubrelease);")],
     "an allocation that makes the page heap release part of partly used huge pages (memory limit reached)",
     "ordering the release candidates allocates a temporary buffer under pageheap_lock: the allocating thread hangs",
     r"""
#include "tcmalloc/malloc_extension.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unistd.h>
using namespace tcmalloc;
int main() {
  alarm(60);
  MallocExtension::SetProfileSamplingInterval(0);
  static void* v[4096];
  for (int i = 0; i < 4096; ++i) v[i] = ::operator new(100000);
  for (int i = 0; i < 4096; ++i) if (i % 8) ::operator delete(v[i]);
  MallocExtension::SetMemoryLimit(size_t{150} << 20, MallocExtension::LimitKind::kSoft);
  void* w[200];
  for (int i = 0; i < 200; ++i) w[i] = ::operator new(size_t{1} << 20);
  for (int i = 0; i < 200; ++i) ::operator delete(w[i]);
  MallocExtension::ReleaseMemoryToSystem(size_t{300} << 20);
  fprintf(stderr, "done\n");
  return 0;
}
""", flags="-fno-builtin", tmo=100)
ME = "tcmalloc/malloc_extension.cc"
seed("c26-limit-zero", "C26", "full", [(ME, "        (limit > 0) ? limit : std::numeric_limits<size_t>::max();\n", "        (limit > 0 || limit_kind == LimitKind::kSoft)\n            ? limit\n            : std::numeric_limits<size_t>::max();\n")],
     "removing a soft memory limit with SetMemoryLimit(0, kSoft)", "the soft limit becomes zero bytes instead of none: every later allocation tries to shrink the heap",
     r"""
#include "tcmalloc/malloc_extension.h"
#include <cstdio>
#include <limits>
using namespace tcmalloc;
int main() {
  using K = MallocExtension::LimitKind;
  const size_t none = std::numeric_limits<size_t>::max();
  MallocExtension::SetMemoryLimit(size_t{1} << 33, K::kSoft);
  if (MallocExtension::GetMemoryLimit(K::kSoft) != size_t{1} << 33) return 1;
  MallocExtension::SetMemoryLimit(0, K::kSoft);
  if (MallocExtension::GetMemoryLimit(K::kSoft) != none) { fprintf(stderr, "limit is %zu\n", MallocExtension::GetMemoryLimit(K::kSoft)); return 1; }
  MallocExtension::SetMemoryLimit(0, K::kHard);
  if (MallocExtension::GetMemoryLimit(K::kHard) != none) return 1;
  return 0;
}
""", flags="-fno-builtin")
seed("c26-experiments-guard", "C26", "shim", [(ME, "    MallocExtension_Internal_GetProperties(&ret);\n  }\n  if (&MallocExtension_Internal_GetExperiments != nullptr) {\n", "    MallocExtension_Internal_GetProperties(&ret);\n")],
     "an allocator that provides properties but no experiments, asked for all properties",
     "GetProperties calls a function at address zero",
     r"""
#include "tcmalloc/malloc_extension.h"
#include <cstdio>
#include <map>
#include <string>
using namespace tcmalloc;
extern "C" void MallocExtension_Internal_GetProperties(std::map<std::string, MallocExtension::Property>* r) { (*r)["a.b"].value = 7; }
int main() {
  auto m = MallocExtension::GetProperties();
  if (m.size() != 1 || m["a.b"].value != 7) { puts("properties lost"); return 1; }
  if (MallocExtension::GetNumericProperty("x")) return 1;
  return 0;
}
""", srcs=["tcmalloc/malloc_extension.cc"])
seed("c41-soft-above-hard", "C41", "full", [("tcmalloc/page_allocator.h", "  if (limits_[kHard] < limits_[kSoft]) {", "  if (limit_kind == kHard && limits_[kHard] < limits_[kSoft]) {")],
     "raising the soft limit above a hard limit set earlier", "the soft limit stays above the hard one",
     r"""
#include "tcmalloc/malloc_extension.h"
#include <cstdio>
using namespace tcmalloc;
int main() {
  using K = MallocExtension::LimitKind;
  MallocExtension::SetMemoryLimit(size_t{8} << 30, K::kHard);
  MallocExtension::SetMemoryLimit(size_t{4} << 30, K::kSoft);
  if (MallocExtension::GetMemoryLimit(K::kSoft) != size_t{4} << 30) return 1;
  MallocExtension::SetMemoryLimit(size_t{9} << 30, K::kSoft);
  if (MallocExtension::GetMemoryLimit(K::kSoft) > size_t{8} << 30) { fprintf(stderr, "soft limit above the hard one\n"); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c41-sleep-precision", "C41", "full", [("tcmalloc/parameters.cc", "  tcmalloc::tcmalloc_internal::background_process_sleep_interval_ns().store(\n      absl::ToInt64Nanoseconds(value), std::memory_order_relaxed);", "  tcmalloc::tcmalloc_internal::background_process_sleep_interval_ns().store(\n      absl::ToInt64Microseconds(value) * 1000, std::memory_order_relaxed);")],
     "a sleep interval that is not a whole number of microseconds", "the interval reads back shorter than it was set (to zero for sub-microsecond values)",
     r"""
#include "tcmalloc/malloc_extension.h"
#include "absl/time/time.h"
#include <cstdio>
using namespace tcmalloc;
int main() {
  MallocExtension::SetBackgroundProcessSleepInterval(absl::Milliseconds(250));
  if (MallocExtension::GetBackgroundProcessSleepInterval() != absl::Milliseconds(250)) return 1;
  MallocExtension::SetBackgroundProcessSleepInterval(absl::Nanoseconds(2500));
  if (MallocExtension::GetBackgroundProcessSleepInterval() != absl::Nanoseconds(2500)) { fprintf(stderr, "interval changed\n"); return 1; }
  return 0;
}
""", flags="-fno-builtin")
PMH = "tcmalloc/pagemap.h"
SPD = r"""
#include "tcmalloc/span.h"
#include "tcmalloc/pages.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <sys/mman.h>
#include "absl/types/span.h"
using namespace tcmalloc::tcmalloc_internal;
static char* Page(size_t n) { return static_cast<char*>(mmap(nullptr, n * kPageSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
static char* Aligned(size_t n) { uintptr_t p = reinterpret_cast<uintptr_t>(Page(n + 1)); return reinterpret_cast<char*>((p + kPageSize - 1) & ~(kPageSize - 1)); }
"""
seed("c08-pop-partial", "C08", "full", [("tcmalloc/span.h", "    if (result == N) {\n      embed_count_ = embed_count;\n      break;\n    }\n", "    if (result == N) {\n      if (embed_count != 0) embed_count_ = embed_count;\n      break;\n    }\n")],
     "a batch of tiny objects that ends exactly when the head of the span's list has been emptied", "the emptied head keeps its count, and the span hands out the same objects again",
     SPD + r"""
int main() {
  const size_t size = 8, count = kPageSize / 8;
  char* mem = Aligned(1);
  Span span(Range(PageIdContaining(mem), Length(1)));
  void* out[4096];
  std::vector<char> used(count);
  span.BuildFreelist(size, count, {}, 0);
  for (size_t r = 0; r < 3 * count; ++r) {
    const size_t want = 1 + r % 5;
    size_t k = span.FreelistPopBatch(absl::MakeSpan(out, want), size);
    for (size_t i = 0; i < k; ++i) {
      size_t idx = (static_cast<char*>(out[i]) - mem) / size;
      if (idx >= count || used[idx]) { fprintf(stderr, "object %zu handed out twice\n", idx); return 1; }
      used[idx] = 1;
    }
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c08-large-flag", "C08", "full", [("tcmalloc/span.h", "    is_large_span_ = len > kLargeSpanLength;\n    return;", "    if (!sampled()) is_large_span_ = len > kLargeSpanLength;\n    return;"), ("tcmalloc/span.h", "  small_num_pages_ = len.raw_num();\n  is_large_span_ = 0;", "  small_num_pages_ = len.raw_num();")],
     "a span that is shrunk below the large length", "the page count of a span that was large reads back as before",
     SPD + r"""
int main() {
  char* mem = Aligned(100);
  Span span(Range(PageIdContaining(mem), Length(100)));
  if (span.num_pages() != Length(100)) return 2;
  for (size_t n : {64, 63, 65, 10, 1, 70, 2}) {
    span.set_num_pages(Length(n));
    if (span.num_pages() != Length(n) || span.last_page() != span.first_page() + Length(n - 1) || span.bytes_in_span() != n * kPageSize) {
      fprintf(stderr, "%zu pages read back as %zu\n", n, static_cast<size_t>(span.num_pages().raw_num()));
      return 1;
    }
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c07-next-leaf", "C07", "full", [(PMH, "      for (; i2 < kMidLength; ++i2, i3 = 0) {\n        if (root_[i1]->leafs[i2] == nullptr) continue;", "      for (; i2 < kMidLength; ++i2) {\n        if (root_[i1]->leafs[i2] == nullptr) {\n          i3 = 0;\n          continue;\n        }")],
     "two neighbouring populated leaves", "the span enumeration skips every span of a leaf that directly follows another populated leaf",
     r"""
#include "tcmalloc/pagemap.h"
#include <cstdio>
#include <cstdlib>
using namespace tcmalloc::tcmalloc_internal;
static void* Get(size_t n) { return malloc(n); }
typedef PageMap3<27, Get> Map;
int main() {
  Map* m = new Map();
  Span* s = reinterpret_cast<Span*>(0x1000);
  if (!m->Ensure(0, 1 << 19)) return 2;
  const size_t pages[] = {3, 511, 512, 513, 600, 16384, 16390, 300000};
  for (size_t p : pages) m->set(p, s);
  size_t at = 0;
  for (size_t p : pages) {
    auto n = m->get_next_set_page(at);
    if (!n.has_value() || *n != p) { fprintf(stderr, "after %zu: expected %zu\n", at, p); return 1; }
    at = *n;
  }
  return m->get_next_set_page(at).has_value() ? 1 : 0;
}
""", flags="-fno-builtin")
seed("c07-ensure-step", "C07", "full", [(PMH, "      key = ((key >> kLeafBits) + 1) << kLeafBits;", "      key += kLeafLength;")],
     "a range that starts inside one leaf and ends near the start of a later one", "the last leaf of a prepared range has no entries although preparing it succeeded",
     r"""
#include "tcmalloc/pagemap.h"
#include <cstdio>
#include <cstdlib>
using namespace tcmalloc::tcmalloc_internal;
static void* Get(size_t n) { return malloc(n); }
typedef PageMap3<27, Get> Map;
int main() {
  for (size_t start : {0, 1, 64, 511, 512, 5000}) {
    for (size_t n : {1, 2, 64, 512, 513, 1300}) {
      Map* m = new Map();
      if (!m->Ensure(start, n)) return 2;
      for (size_t p = start; p < start + n; ++p) {
        if (!m->has_leaf(p)) { fprintf(stderr, "page %zu of [%zu,+%zu) is not prepared\n", p, start, n); return 1; }
      }
    }
  }
  return 0;
}
""", flags="-fno-builtin")
TCI = "tcmalloc/transfer_cache_internals.h"
seed("c10-insert-rest", "C10", "full", [(TCI, "        batch = {batch.data() + got, batch.size() - got};", "        batch = batch.first(batch.size() - got);")],
     "an insertion the cache can only keep a part of, between full and empty", "the kept objects are also given to the central list and the others are lost",
     r"""
#include "tcmalloc/transfer_cache_internals.h"
#include <cstdio>
#include <cstdlib>
#include <set>
using namespace tcmalloc::tcmalloc_internal;
static std::multiset<void*> central;
struct FL {
  void Init(size_t) {}
  void InsertRange(absl::Span<void*> b) { for (void* p : b) central.insert(p); }
  int RemoveRange(absl::Span<void*> b) { return 0; }
};
struct Mgr {
  static size_t class_to_size(int) { return 8; }
  static size_t num_objects_to_move(int) { return 8; }
  static void* Alloc(size_t n) { return malloc(n); }
};
typedef internal_transfer_cache::TransferCache<FL, Mgr> TC;
int main() {
  for (int cap : {8, 16}) for (int n = 1; n <= 8; ++n) {
    central.clear();
    TC* tc = new TC(nullptr, 1, {cap, 32});
    char mem[64];
    int next = 0;
    while (next + n <= 60) {
      void* b[8];
      for (int i = 0; i < n; ++i) b[i] = &mem[next++];
      tc->InsertRange(1, absl::MakeSpan(b, n));
    }
    std::multiset<void*> all = central;
    void* b[8];
    while (tc->tc_length() != 0) {
      int k = tc->RemoveRange(1, absl::MakeSpan(b, 8));
      for (int i = 0; i < k; ++i) all.insert(b[i]);
    }
    for (int i = 0; i < next; ++i) if (all.count(&mem[i]) != 1) { fprintf(stderr, "batches of %d: object %d is held %zu times\n", n, i, all.count(&mem[i])); return 1; }
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c10-resize-balance", "C10", "full", [(TCI, "      if (manager.IncreaseCacheCapacity(grow_size_class)) {\n        ++total_grown;\n        break;\n      }\n    }\n  }\n}", "      if (!manager.CanIncreaseCapacity(grow_size_class)) continue;\n      manager.IncreaseCacheCapacity(grow_size_class);\n      ++total_grown;\n      break;\n    }\n  }\n}")],
     "a cache that shrank last, with no further class to grow in turn, and a class whose growth fails although it looked possible", "the capacity taken from a cache is given to none",
     r"""
#include "tcmalloc/transfer_cache_internals.h"
#include <cstdio>
using namespace tcmalloc::tcmalloc_internal;
struct Mgr {
  static constexpr int kNumBaseClasses = 86;
  static constexpr int kNumClasses = 86;
  static constexpr int kMaxSizeClassesToResize = 25;
  int cap[86], refuse[86], miss[86];
  size_t FetchCommitIntervalMisses(int c) { return miss[c]; }
  bool CanIncreaseCapacity(int c) const { return cap[c] < 4; }
  // Another thread may take the room between the check and the increase.
  bool IncreaseCacheCapacity(int c) { if (refuse[c] > 0) { --refuse[c]; return false; } if (cap[c] >= 4) return false; ++cap[c]; return true; }
  bool ShrinkCache(int c) { if (cap[c] == 0) return false; --cap[c]; return true; }
};
int main() {
  for (int r = 0; r < 4; ++r) for (int hot = 1; hot < 86; hot += 7) {
    Mgr m;
    int before = 0, after = 0;
    for (int i = 0; i < 86; ++i) { m.cap[i] = i == 0 ? 3 : i < hot ? 4 : 1; m.refuse[i] = i == 0 || i >= hot ? r : 0; m.miss[i] = i == 0 ? 100 : 0; before += m.cap[i]; }
    internal_transfer_cache::ResizeCaches(m, 0);
    for (int i = 0; i < 86; ++i) after += m.cap[i];
    if (before != after) { fprintf(stderr, "capacity was %d, is %d\n", before, after); return 1; }
  }
  return 0;
}
""", flags="-fno-builtin")
CF = "tcmalloc/central_freelist.h"
CFLDEMO = r"""
#include "tcmalloc/central_freelist.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
using namespace tcmalloc::tcmalloc_internal;
static std::map<PageId, Span*> spans;
static int live;
struct Fwd {
  static void InvokeInsertRangeHook(size_t, absl::Span<void*>) {}
  static void InvokeRemoveRangeHook(size_t, absl::Span<void*>) {}
  static uint64_t clock_now() { return 1; }
  static double clock_frequency() { return 1; }
  static size_t class_to_size(int) { return 256; }
  static Length class_to_pages(int) { return Length(1); }
  static size_t num_objects_to_move(int) { return 32; }
  static void MapObjectsToSpans(absl::Span<void*> b, Span** out, int) {
    for (size_t i = 0; i < b.size(); ++i) out[i] = spans.at(PageIdContaining(b[i]));
  }
  static Span* AllocateSpan(int, size_t, Length n) {
    void* m = aligned_alloc(kPageSize, n.in_bytes());
    Span* s = new Span(Range(PageIdContaining(m), n));
    spans[s->first_page()] = s;
    ++live;
    return s;
  }
  static void DeallocateSpans(size_t, absl::Span<Span*> b) { live -= b.size(); }
};
typedef central_freelist_internal::CentralFreeList<Fwd> CFL;
static CFL cfl;
static int objs() { return kPageSize / 256; }
// every object of the list's spans: how many spans are in each list and histogram bucket
static int check(const char* what, const std::vector<void*>& held) {
  std::map<Span*, int> used;
  for (void* p : held) ++used[spans.at(PageIdContaining(p))];
  std::map<int, int> want, hist;
  for (auto& u : used) {
    int w = absl::bit_width(static_cast<unsigned>(u.second));
    ++hist[w];
    if (u.second < objs()) ++want[8 - std::min(w, 8)];
  }
  for (int n = 0; n < 8; ++n)
    if (static_cast<int>(cfl.NumSpansInList(n)) != want[n]) { fprintf(stderr, "%s: list %d holds %zu spans, %d belong there\n", what, n, cfl.NumSpansInList(n), want[n]); return 1; }
  for (int w = 1; w <= 8; ++w)
    if (static_cast<int>(cfl.NumSpansWith(w)) != hist[w]) { fprintf(stderr, "%s: bucket %d counts %zu spans, %d belong there\n", what, w, cfl.NumSpansWith(w), hist[w]); return 1; }
  return 0;
}
static void take(std::vector<void*>& h, int n) {
  while (n > 0) {
    void* b[32];
    int k = cfl.RemoveRange(absl::MakeSpan(b, std::min(n, 32)));
    h.insert(h.end(), b, b + k);
    n -= k;
  }
}
static void give(std::vector<void*>& h, int n) {
  cfl.InsertRange(absl::MakeSpan(&h[h.size() - n], n));
  h.resize(h.size() - n);
}
"""
seed("c09-batch-index", "C09", "full", [(CF, "  uint16_t cur_allocated = prev_allocated - batch.size();\n  TC_ASSERT_EQ(cur_allocated, span->Allocated());", "  // Objects come back one at a time.\n  uint16_t cur_allocated = prev_allocated - 1;")],
     "several objects of one span returned in one batch, crossing a power of two", "the span stays in a list for fuller spans and in the wrong histogram bucket",
     CFLDEMO + r"""
int main() {
  cfl.Init(5);
  std::vector<void*> h;
  take(h, objs());
  if (check("full", h)) return 1;
  for (int n = 1; h.size() > 8; n = n % 5 + 1) { give(h, n); if (check("batch", h)) return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c09-empty-index", "C09", "full", [(CF, "  if (kDeferredNonEmpty && ABSL_PREDICT_FALSE(was_empty)) {\n    nonempty_.Add(span, cur_index);\n    span->set_nonempty_index(cur_index);\n  } else", "  if (kDeferredNonEmpty && ABSL_PREDICT_FALSE(was_empty)) {\n    nonempty_.Add(span, cur_index);\n  } else")],
     "a span that ran out of objects in one list comes back into another and is then emptied", "the span is moved from a list it is not in, whose emptiness bit is cleared: spans with free objects are no longer found",
     CFLDEMO + r"""
int main() {
  cfl.Init(5);
  for (int step = 1; step < objs(); ++step) {
    std::vector<void*> h;
    take(h, objs());
    if (check("full", h)) return 1;
    while (static_cast<int>(h.size()) > step) {
      give(h, step);
      if (check("return", h)) return 1;
    }
    int before = live;
    take(h, objs() - h.size());
    if (live != before) { fprintf(stderr, "a new span although one with free objects was there\n"); return 1; }
    while (!h.empty()) give(h, 1);
    if (check("empty", h)) return 1;
  }
  return 0;
}
""", flags="-fno-builtin")
HT = "tcmalloc/hinted_tracker_lists.h"
RT = "tcmalloc/internal/range_tracker.h"
HTDEMO = r"""
#include <cstdio>
#include <cstdlib>
#include <set>
#include "tcmalloc/hinted_tracker_lists.h"
#include "tcmalloc/internal/linked_list.h"
using namespace tcmalloc::tcmalloc_internal;
struct T : TList<T>::Elem { int v = 0; };
static constexpr size_t kN = 100;
static T ts[24];
static HintedTrackerLists<T, kN> lists;
static int in[24];
static int check(const char* what) {
  size_t n = 0;
  for (int k = 0; k < 24; ++k) n += in[k] >= 0;
  if (lists.size() != n) { fprintf(stderr, "%s: size %zu, not %zu\n", what, lists.size(), n); return 1; }
  for (size_t i = 0; i < kN; ++i) {
    size_t want = kN;
    for (int k = 0; k < 24; ++k) if (in[k] >= static_cast<int>(i) && static_cast<size_t>(in[k]) < want) want = in[k];
    auto p = lists.PeekLeast(i);
    if (p.index != want || (p.tracker != nullptr) != (want != kN)) { fprintf(stderr, "%s: list %zu found from %zu on, not %zu\n", what, p.index, i, want); return 1; }
    std::set<T*> a, b;
    for (int k = 0; k < 24; ++k) if (in[k] >= static_cast<int>(i)) a.insert(&ts[k]);
    lists.Iter([&](T& t) { b.insert(&t); }, i);
    if (a != b) { fprintf(stderr, "%s: %zu of %zu elements visited from list %zu on\n", what, b.size(), a.size(), i); return 1; }
  }
  return 0;
}
int main() {
  for (int& i : in) i = -1;
  unsigned r = 1;
  auto rnd = [&](unsigned n) { r = r * 1664525u + 1013904223u; return (r >> 8) % n; };
  for (int step = 0; step < 20000; ++step) {
    int k = rnd(24);
    if (in[k] < 0) {
      in[k] = rnd(8) ? rnd(kN) : kN - 1;
      lists.Add(&ts[k], in[k]);
    } else if (rnd(3) == 0) {
      int to = rnd(kN);
      if (to == in[k]) continue;
      lists.Move(&ts[k], in[k], to);
      in[k] = to;
    } else if (rnd(2) == 0) {
      lists.Remove(&ts[k], in[k]);
      in[k] = -1;
    } else {
      T* t = lists.GetLeast(rnd(kN));
      if (t != nullptr) in[t - ts] = -1;
    }
    if (check("step")) return 1;
  }
  return 0;
}
"""
seed("c34-least-bit", "C34", "full", [(HT, "      nonempty_.ClearBit(i);\n    }\n    --size_;\n    return pt;", "      nonempty_.ClearBit(n);\n    }\n    --size_;\n    return pt;")],
     "the least list found lies behind the one asked for and gives up its last element", "the emptied list keeps its bit: the next search hands out the head of an empty list",
     HTDEMO, flags="-fno-builtin")
seed("c34-iter-last", "C34", "full", [(HT, "    while (i < N) {\n      auto& list = lists_[i];", "    while (i + 1 < N) {\n      auto& list = lists_[i];")],
     "elements in the last list", "a walk over all lists leaves out those of the last",
     HTDEMO, flags="-fno-builtin")
RTDEMO = r"""
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "tcmalloc/internal/range_tracker.h"
using namespace tcmalloc::tcmalloc_internal;
static constexpr size_t kN = 256;
static RangeTracker<kN> rt;
static bool used[kN];
static int check(const char* what) {
  size_t best = 0, run = 0, n = 0;
  for (bool u : used) { run = u ? 0 : run + 1; best = std::max(best, run); n += u; }
  Bitmap<kN> b = rt.bits();
  for (size_t i = 0; i < kN; ++i) {
    if (b.GetBit(i) != used[i]) { fprintf(stderr, "%s: bit %zu\n", what, i); return 1; }
    ssize_t s = i, c = i;
    while (s >= 0 && !used[s]) --s;
    while (c >= 0 && used[c]) --c;
    if (b.FindSetBackwards(i) != s || b.FindClearBackwards(i) != c) { fprintf(stderr, "%s: nearest bits before %zu: %zd %zd, not %zd %zd\n", what, i, b.FindSetBackwards(i), b.FindClearBackwards(i), s, c); return 1; }
  }
  if (rt.longest_free() != best || rt.used() != n) { fprintf(stderr, "%s: longest free %zu, not %zu\n", what, rt.longest_free(), best); return 1; }
  return 0;
}
int main() {
  std::vector<std::pair<size_t, size_t>> h;
  unsigned r = 7;
  auto rnd = [&](unsigned n) { r = r * 1664525u + 1013904223u; return (r >> 8) % n; };
  for (int step = 0; step < 20000; ++step) {
    size_t n = rnd(6) ? 1 + rnd(12) : 1 + rnd(90);
    if (rnd(9) >= 4 && n <= rt.longest_free()) {
      size_t i = rt.FindAndMark(n);
      for (size_t k = i; k < i + n; ++k) { if (used[k]) { fprintf(stderr, "bit %zu given twice\n", k); return 1; } used[k] = true; }
      h.push_back({i, n});
    } else if (!h.empty()) {
      std::swap(h[rnd(h.size())], h.back());
      rt.Unmark(h.back().first, h.back().second);
      for (size_t k = 0; k < h.back().second; ++k) used[h.back().first + k] = false;
      h.pop_back();
    }
    if (check("step")) return 1;
  }
  return 0;
}
"""
seed("c19-second-run", "C19", "full", [(RT, "    } else if (len > second_len) {\n      second_len = len;", "    } else if (len > second_len && len < longest_len) {\n      second_len = len;")],
     "two free runs of the greatest length, one of which is marked", "the longest free run is recorded as shorter than the one still there",
     RTDEMO, flags="-fno-builtin")
seed("c19-back-mask", "C19", "full", [(RT, "  size_t mask = (static_cast<size_t>(2) << offset) - 1;", "  size_t mask = (static_cast<size_t>(1) << ((offset + 1) % kWordSize)) - 1;")],
     "a search backwards from the last bit of a word", "the whole word is left out of the search",
     RTDEMO, flags="-fno-builtin")
TCC = "tcmalloc/thread_cache.cc"
TCHDR = r"""
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <optional>
#include "tcmalloc/malloc_extension.h"
static size_t cached() { return *tcmalloc::MallocExtension::GetNumericProperty("tcmalloc.thread_cache_free"); }
"""
seed("c11-release-delta", "C11", "full", [(TCC, "  if (N > src->length()) N = src->length();\n  size_t delta_bytes = N * tc_globals.sizemap().class_to_size(size_class);\n", "  size_t delta_bytes = N * tc_globals.sizemap().class_to_size(size_class);\n  if (N > src->length()) N = src->length();\n")],
     "a list past its limit that holds fewer objects than a batch", "the cache gives up more bytes in its books than in objects: the recorded size wraps around",
     TCHDR + r"""
int main() {
  if (tcmalloc::MallocExtension::PerCpuCachesActive()) return 0;
  static void* p[64];
  for (size_t size = 8; size <= 32768; size *= 2) {
    for (void*& q : p) q = ::operator new(size);
    for (void*& q : p) {
      ::operator delete(q);
      size_t c = cached();
      if (c > (size_t{64} << 20)) { fprintf(stderr, "%zu bytes cached\n", c); return 1; }
    }
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c11-exit-tls", "C11", "full", [(TCC, "  thread_local_data_ = nullptr;\n  DeleteCache(ptr);", "  DeleteCache(ptr);")],
     "memory freed by a thread-specific data destructor that runs after the cache was given up", "the thread goes on using the cache that was deleted: what it frees is held by nobody",
     TCHDR + r"""
static size_t held() {
  size_t r = 0;
  for (const char* n : {"tcmalloc.thread_cache_free", "tcmalloc.central_cache_free", "tcmalloc.transfer_cache_free"}) r += *tcmalloc::MallocExtension::GetNumericProperty(n);
  return r;
}
static void* p[40];
static size_t before, after;
static void late(void*) {
  before = held();
  for (void*& q : p) { ::operator delete(q); }
  after = held();
}
static void* body(void*) {
  static pthread_key_t key;
  for (void*& q : p) q = ::operator new(4000);
  pthread_key_create(&key, late);
  pthread_setspecific(key, &key);
  return nullptr;
}
int main() {
  if (tcmalloc::MallocExtension::PerCpuCachesActive()) return 0;
  ::operator delete(::operator new(10));
  pthread_t t;
  pthread_create(&t, nullptr, body, nullptr);
  pthread_join(t, nullptr);
  if (after < before + 40 * 4000) { fprintf(stderr, "%zu bytes cached before, %zu after objects were freed\n", before, after); return 1; }
  return 0;
}
""", flags="-fno-builtin")

HPT = "tcmalloc/huge_page_tracker.h"
HPF = "tcmalloc/huge_page_filler.h"
HPHDR = r"""
#include "tcmalloc/huge_page_filler.h"
#include "tcmalloc/huge_page_tracker.h"
#include <cstdio>
#include <cstdlib>
using namespace tcmalloc::tcmalloc_internal;
struct Mod final : MemoryModifyFunction {
  size_t pages = 0;
  bool win = true;
  MemoryModifyStatus operator()(Range r) override { if (win) pages += r.n.raw_num(); return {win, 0}; }
};
struct Tag final : MemoryTagFunction {
  void operator()(Range, std::optional<absl::string_view>) override {}
};
static SpanAllocInfo info(size_t objects) { return {objects, AccessDensityPrediction::kSparse}; }
static HugePage hp(size_t n) { return HugePageContaining(reinterpret_cast<void*>((size_t{1} << 40) + (n << 21))); }
"""
seed("c17-mark-again", "C17", "full", [(HPT, "auto to_release = (~free) & (~released_by_page_) & unbacked;", "auto to_release = (~free) & unbacked;")],
     "a huge page found unbacked some of whose free pages were released before", "pages already released are counted as released once more",
     HPHDR + r"""
int main() {
  PageTracker pt(hp(1), false, 0);
  auto a = pt.Get(Length(10), info(1));
  auto b = pt.Get(Length(20), info(1));
  auto d = pt.Get(Length(10), info(1));
  (void)d;
  Mod m;
  pt.Put({b.page, Length(20)}, info(1));
  size_t first = pt.ReleaseFree(m).raw_num();
  pt.Put({a.page, Length(10)}, info(1));
  PageBitmap all;
  all.SetRange(0, kPagesPerHugePage.raw_num());
  size_t more = pt.MarkSubreleased(all).raw_num();
  if (more != 10 || pt.released_pages().raw_num() != first + 10) { fprintf(stderr, "%zu then %zu of 10, %zu released\n", first, more, pt.released_pages().raw_num()); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c17-skip-run", "C17", "full", [(HPT, "      index = end;\n    } else {", "      index += n;\n    } else {")],
     "a huge page with several free ranges between used pages", "only the first free range of a run of backed pages is released",
     HPHDR + r"""
int main() {
  PageTracker pt(hp(1), false, 0);
  PageTracker::PageAllocation a[8];
  for (auto& x : a) x = pt.Get(Length(8), info(1));
  for (int i = 1; i < 8; i += 2) pt.Put({a[i].page, Length(8)}, info(1));
  Mod m;
  size_t n = pt.ReleaseFree(m).raw_num();
  if (n != pt.free_pages().raw_num() || m.pages != n) { fprintf(stderr, "%zu of %zu free pages released, the system saw %zu\n", n, pt.free_pages().raw_num(), m.pages); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c18-partial-used", "C18", "full", [(HPF, "      TC_ASSERT_GE(n_used_partial_released_[type], pt->used_pages());\n      n_used_partial_released_[type] -= pt->used_pages();\n      break;", "      break;")],
     "an allocation from a huge page some of whose free pages were released and others not", "its used pages are counted twice among those of partly released huge pages",
     HPHDR + r"""
int main() {
  static Mod unback, wo, col;
  static Tag tag;
  static HugePageFiller<PageTracker> f(MemoryTag::kNormal, unback, wo, col, tag, SubreleaseUnbackedMode::kDisabled);
  PageTracker* pt = new PageTracker(hp(1), false, 0);
  static Range r[8];
  PageHeapSpinLockHolder l;
  for (int i = 0; i < 8; ++i) r[i] = {pt->Get(Length(16), info(1)).page, Length(16)};
  f.Contribute(pt, false, info(1));
  f.Put(pt, r[1], info(1));
  f.ReleasePages(kPagesPerHugePage, SkipSubreleaseIntervals{}, false, true);
  f.Put(pt, r[4], info(1));
  f.Put(pt, r[5], info(1));
  for (int i = 0; i < 4; ++i) {
    if (f.TryGet(Length(8), info(1)).pt != pt) { fprintf(stderr, "no room\n"); return 2; }
    if (f.used_pages_in_any_subreleased() > pt->used_pages()) { fprintf(stderr, "%zu pages in use in released huge pages, %zu in all\n", f.used_pages_in_any_subreleased().raw_num(), pt->used_pages().raw_num()); return 1; }
  }
  return 0;
}
""", flags="-fno-builtin", )
seed("c18-failed-unback", "C18", "full", [(HPF, "        if (ABSL_PREDICT_TRUE(success)) {\n          unmapping_unaccounted_ += free_pages - released_pages;\n        }", "        unmapped_ -= free_pages - released_pages;\n        if (ABSL_PREDICT_TRUE(success)) {\n          unmapping_unaccounted_ += free_pages - released_pages;\n        }")],
     "a partly released huge page that becomes free", "pages that were never counted as unmapped are taken off the count",
     HPHDR + r"""
int main() {
  static Mod unback, wo, col;
  static Tag tag;
  static HugePageFiller<PageTracker> f(MemoryTag::kNormal, unback, wo, col, tag, SubreleaseUnbackedMode::kDisabled);
  PageTracker* pt[2] = {new PageTracker(hp(1), false, 0), new PageTracker(hp(2), false, 0)};
  static Range r[2][8];
  PageHeapSpinLockHolder l;
  for (int k = 0; k < 2; ++k) {
    for (int i = 0; i < 8; ++i) r[k][i] = {pt[k]->Get(Length(16), info(1)).page, Length(16)};
    f.Contribute(pt[k], false, info(1));
    f.Put(pt[k], r[k][1], info(1));
  }
  f.ReleasePages(Length(2 * kPagesPerHugePage.raw_num()), SkipSubreleaseIntervals{}, false, true);
  for (int i = 0; i < 8; ++i) if (i != 1) f.Put(pt[0], r[0][i], info(1));
  if (f.unmapped_pages() != pt[1]->released_pages()) { fprintf(stderr, "%zu pages unmapped, %zu by huge page\n", f.unmapped_pages().raw_num(), pt[1]->released_pages().raw_num()); return 1; }
  return 0;
}
""", flags="-fno-builtin")

GPA = "tcmalloc/guarded_page_allocator.cc"
GPHDR = r"""
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/static_vars.h"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace tcmalloc::tcmalloc_internal;
static GuardedPageAllocator gpa;
static StackTrace st;
static char* take(size_t size, size_t align = 0) { return static_cast<char*>(gpa.Allocate(size, static_cast<std::align_val_t>(align), st).alloc); }
static void start(size_t n) {
  free(malloc(1));
  st.depth = 2;
  st.stack[0] = reinterpret_cast<void*>(0x1000);
  st.stack[1] = reinterpret_cast<void*>(0x2000);
  {
    PageHeapSpinLockHolder l;
    gpa.Init(n, n);
  }
  gpa.AllowAllocations();
}
// whether f returns in a child
template <typename F> static bool returns(F f) {
  pid_t p = fork();
  if (!p) { close(2); alarm(20); f(); _exit(7); }
  int w = 0;
  waitpid(p, &w, 0);
  return WIFEXITED(w) && WEXITSTATUS(w) == 7;
}
"""
seed("c15-zero-count", "C15", "full", [(GPA, "  d.dealloc_count.store(0, std::memory_order_relaxed);\n", "  if (size > 0) d.dealloc_count.store(0, std::memory_order_relaxed);\n")],
     "an object of no bytes in a page that held a freed object", "its first free is taken for a second one and never returns",
     GPHDR + r"""
int main() {
  start(1);
  char* p = take(8);
  gpa.Deallocate(p);
  if (!returns([] { char* q = take(0); gpa.Deallocate(q); })) { fprintf(stderr, "freeing an empty object does not return\n"); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c15-magic-half", "C15", "full", [(GPA, "  size_t magic_size = std::min(alignment_padding, kMagicSize);", "  size_t magic_size = std::min(alignment_padding, kMagicSize / 2);")],
     "an aligned object with more than 16 bytes of padding in a page written before", "the padding left unfilled is taken for an overflow on free",
     GPHDR + r"""
int main() {
  start(1);
  size_t n = gpa.page_size();
  char* p = take(n);
  memset(p, 0x5a, n);
  gpa.Deallocate(p);
  if (!returns([] { char* q = take(32, 64); memset(q, 1, 32); gpa.Deallocate(q); })) { fprintf(stderr, "freeing an intact object does not return\n"); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c15-one-past", "C15", "full", [(GPA, "  if (addr >= d.allocation_start + d.requested_size) {", "  if (addr > d.allocation_start + d.requested_size) {")],
     "an access to the first byte behind an object", "the overflow is reported as an unknown error",
     GPHDR + r"""
int main() {
  start(2);
  char* p = take(48);
  GuardedAllocationsStackTrace *a, *d;
  if (gpa.GetStackTraces(p + 48, &a, &d) != gpa.GetStackTraces(p + 49, &a, &d)) { fprintf(stderr, "the first byte behind is classified otherwise than the second\n"); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c15-free-below", "C15", "full", [(GPA, "absl::bit_cast<void*>(d.allocation_start) != ptr)) {", "absl::bit_cast<void*>(d.allocation_start) < ptr)) {")],
     "a free of an address below the object at the end of its page", "the wrong free succeeds",
     GPHDR + r"""
int main() {
  start(1);
  char* p = take(48);
  if (returns([=] { gpa.Deallocate(p - 16); })) { fprintf(stderr, "freeing another address returns\n"); return 1; }
  return 0;
}
""", flags="-fno-builtin")

HCHDR = r"""
#include "tcmalloc/huge_allocator.h"
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/huge_address_map.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
using namespace tcmalloc::tcmalloc_internal;
struct Meta final : MetadataAllocator {
  void* operator()(size_t n) override { return malloc(n); }
};
struct Sys final : VirtualAllocator {
  size_t next = size_t{1} << 40, step = 0, got = 0;
  bool fail = false;
  AddressRange operator()(size_t n, size_t) override {
    if (fail) return {nullptr, 0};
    void* p = reinterpret_cast<void*>(next);
    next += n + step;
    got += n;
    return {p, n};
  }
};
struct Mod final : MemoryModifyFunction {
  size_t pages = 0, calls = 0;
  bool win = true;
  MemoryModifyStatus operator()(Range r) override { ++calls; if (win) pages += r.n.raw_num(); return {win, 0}; }
};
static int64_t fake_now() { return 0; }
static double fake_freq() { return 1e9; }
static HugeRange hr(size_t a, size_t n) { return HugeRange::Make(HugePageContaining(reinterpret_cast<void*>((size_t{1} << 40) + (a << 21))), NHugePages(n)); }
"""
HAL, HCA, HAM = "tcmalloc/huge_allocator.cc", "tcmalloc/huge_cache.cc", "tcmalloc/huge_address_map.cc"
seed("c16-refused-use", "C16", "full", [(HAL, "    HugeRange r = AllocateRange(n);\n    if (!r.valid()) return r;\n    in_use_ += r.len();", "    in_use_ += n;\n    HugeRange r = AllocateRange(n);\n    if (!r.valid()) return r;\n    in_use_ += r.len() - n;")],
     "the system refuses to give more memory", "pages that were never obtained count as in use",
     HCHDR + r"""
int main() {
  static Meta meta;
  static Sys sys;
  static HugeAllocator a(sys, meta);
  HugeRange r = a.Get(NHugePages(3));
  sys.fail = true;
  HugeRange bad = a.Get(NHugePages(5));
  if (bad.valid() || !r.valid()) return 2;
  a.Release(r);
  if (a.system().raw_num() != 3 || a.size().raw_num() != 3) { fprintf(stderr, "%zu free of %zu\n", a.size().raw_num(), a.system().raw_num()); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c16-failed-unback", "C16", "full", [(HCA, "    if (ABSL_PREDICT_FALSE(!unback_(r).success)) {\n      // We failed to release r.  Retain it in the cache instead of returning it\n      // to the HugeAllocator.\n      size_ += r.len();\n      cache_.Insert(r);\n      break;\n    }\n    allocator_->Release(r);\n    removed += r.len();", "    removed += r.len();\n    if (ABSL_PREDICT_FALSE(!unback_(r).success)) {\n      // We failed to release r.  Retain it in the cache instead of returning it\n      // to the HugeAllocator.\n      size_ += r.len();\n      cache_.Insert(r);\n      break;\n    }\n    allocator_->Release(r);")],
     "unbacking a cached range fails", "memory that is still backed is reported as released",
     HCHDR + r"""
int main() {
  static Meta meta;
  static Sys sys;
  static HugeAllocator a(sys, meta);
  static Mod un;
  static HugeCache c(&a, meta, un, absl::Seconds(1), Clock{fake_now, fake_freq});
  bool rel;
  HugeRange r = c.Get(NHugePages(4), &rel);
  c.Release(r);
  un.win = false;
  size_t n = c.ReleaseCachedPages(NHugePages(4)).raw_num();
  if (n != 0 || c.size().raw_num() != 4) { fprintf(stderr, "%zu reported, %zu still cached\n", n, c.size().raw_num()); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c16-longest-way", "C16", "full", [(HAL, "    if (!left || left->longest() < n) {\n      curr = right;", "    if (!left || left->range().len() < n) {\n      curr = right;")],
     "a free map whose long range lies below a short one on the left", "free memory is not found and more is obtained from the system",
     HCHDR + r"""
int main() {
  // any tree of these ranges: whatever the priorities, a fitting one is found
  for (int big = 0; big < 24; ++big) {
    static Meta meta;
    Sys* sys = new Sys;
    HugeAllocator* a = new HugeAllocator(*sys, meta);
    HugeRange r = a->Get(NHugePages(200));
    size_t at = 0;
    for (int i = 0; i < 24; ++i) {
      size_t n = i == big ? 5 : 1 + i % 3;
      a->Release(HugeRange::Make(r.start() + NHugePages(at), NHugePages(n)));
      at += n + 1;
    }
    size_t got = sys->got;
    a->Get(NHugePages(5));
    if (sys->got != got) { fprintf(stderr, "range %d not found\n", big); return 1; }
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c42-early-stop", "C42", "full", [(HAM, "  while (n) {\n    n->FixLongest();\n", "  while (n) {\n    const HugeLength was = n->longest_;\n    n->FixLongest();\n    if (n->longest_ == was) break;\n")],
     "a node taken out two levels below the root", "the nodes above still promise the range that was taken out, so the search finds none where it expects one",
     HCHDR + r"""
static size_t longest(HugeAddressMap::Node* n) {
  if (!n) return 0;
  size_t l = longest(n->left()), r = longest(n->right()), m = n->range().len().raw_num();
  if (l > m) m = l;
  if (r > m) m = r;
  if (n->longest().raw_num() != m) { fprintf(stderr, "a subtree of %zu says %zu\n", m, n->longest().raw_num()); _exit(1); }
  return m;
}
int main() {
  static Meta meta;
  static HugeAddressMap m(meta);
  unsigned x = 1;
  bool in[200] = {};
  for (int k = 0; k < 20000; ++k) {
    x = x * 1103515245 + 12345;
    int i = (x >> 8) % 200;
    HugeRange r = hr(i * 20, 1 + i % 13);
    if (in[i]) m.Remove(m.Predecessor(r.start())); else m.Insert(r);
    in[i] = !in[i];
    longest(m.root());
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c42-three-way", "C42", "full", [(HAM, "  // Removing a will reduce total_size_ by that length, but since we're merging\n  // we actually don't change lengths at all; undo that.\n  total_size_ += a->range_.len();\n  Remove(a);", "  Remove(a);")],
     "a range that fills the gap between two others", "the total forgets the range after it",
     HCHDR + r"""
int main() {
  static Meta meta;
  static HugeAddressMap m(meta);
  m.Insert(hr(0, 4));
  m.Insert(hr(6, 3));
  m.Insert(hr(4, 2));
  if (m.nranges() != 1 || m.total_mapped().raw_num() != 9) { fprintf(stderr, "%zu ranges of %zu in all\n", m.nranges(), m.total_mapped().raw_num()); return 1; }
  return 0;
}
""", flags="-fno-builtin")
HPA = "tcmalloc/huge_page_aware_allocator.h"
HPSTAT = r"""
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/common.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using tcmalloc::MallocExtension;
static const size_t kPage = tcmalloc::tcmalloc_internal::kPageSize;
static bool donations(size_t* pages, size_t* abandoned) {
  *pages = *abandoned = 0;
  std::string s = MallocExtension::GetStats();
  bool any = false;
  for (size_t at = 0; (at = s.find("HugePageAware: filler donations ", at)) != std::string::npos; ++at) {
    size_t a, b;
    if (sscanf(s.c_str() + at, "HugePageAware: filler donations %zu (%zu pages", &a, &b) != 2) return false;
    *pages += a;
    *abandoned += b;
    any = true;
  }
  return any;
}
static char* spans(size_t n) { char* p = static_cast<char*>(::operator new(n * kPage)); p[0] = 1; return p; }
"""
seed("c44-virt-pair", "C44", "full", [(HPA, "    Length virt_len = kPagesPerHugePage - slack;\n", "    Length virt_len = std::max(kPagesPerHugePage - slack, Length(2));\n")],
     "freeing a span that uses a single page of its last huge page, whose next page is in use", "a page in use is given back and handed out again",
     HPSTAT + r"""
int main() {
  for (int round = 0; round < 8; ++round) {
    char* big = spans(257);
    std::vector<char*> mid;
    char* tail = big + 256 * kPage;
    bool next = false;
    for (int i = 0; i < 60; ++i) {
      char* p = spans(40);
      memset(p, 77, 40 * kPage);
      mid.push_back(p);
      next |= p == tail + kPage;
    }
    ::operator delete(big);
    std::vector<char*> more;
    for (int i = 0; i < 400; ++i) {
      char* p = static_cast<char*>(::operator new(kPage));
      memset(p, 1, kPage);
      more.push_back(p);
    }
    for (char* p : mid)
      for (size_t k = 0; k < 40 * kPage; k += 64)
        if (p[k] != 77) { fprintf(stderr, "memory in use was handed out again (%d)\n", next); _Exit(1); }
  }
  return 0;
}
""", flags="-fno-builtin")
seed("c44-abandoned-left", "C44", "full", [(HPA, "    if (pt->abandoned()) {\n      abandoned_pages_ -= pt->abandoned_count();\n      pt->set_abandoned(false);\n    }\n", "    if (pt->abandoned() && pt->released()) {\n      abandoned_pages_ -= pt->abandoned_count();\n      pt->set_abandoned(false);\n    }\n")],
     "a donated huge page whose donor went first and that empties while fully backed", "pages stay counted as abandoned for ever",
     HPSTAT + r"""
int main() {
  size_t d0, a0, d1, a1;
  if (!donations(&d0, &a0)) return 2;
  std::vector<char*> big, mid;
  for (int i = 0; i < 4; ++i) big.push_back(spans(300));
  for (int i = 0; i < 60; ++i) mid.push_back(spans(40));
  for (char* p : big) ::operator delete(p);
  if (!donations(&d1, &a1)) return 2;
  if (a1 <= a0) return 2;
  for (char* p : mid) ::operator delete(p);
  if (!donations(&d1, &a1)) return 2;
  if (a1 > a0) { fprintf(stderr, "%zu pages abandoned, %zu before\n", a1, a0); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c44-joined-released", "C44", "full", [(HPA, "      if (pt->released()) {\n        --hl;\n        ReleaseHugepage(pt);", "      if (pt->released() && pt->was_released()) {\n        --hl;\n        ReleaseHugepage(pt);")],
     "the slack of a large span is subreleased before the span is freed", "memory returned to the system is counted as backed",
     HPSTAT + r"""
static size_t prop(const char* n) { return MallocExtension::GetNumericProperty(n).value_or(0); }
int main() {
  char* big[6];
  for (char*& p : big) p = spans(256 * 2 + 8);
  MallocExtension::ReleaseMemoryToSystem(size_t{1} << 30);
  size_t u0 = prop("tcmalloc.pageheap_unmapped_bytes");
  if (u0 < 6 * 100 * kPage) return 2;
  for (char*& p : big) ::operator delete(p);
  size_t u1 = prop("tcmalloc.pageheap_unmapped_bytes");
  if (u1 < u0) { fprintf(stderr, "unmapped %zu, then %zu\n", u0, u1); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c44-align-two", "C44", "full", [(HPA, "  if (align <= Length(1)) {\n    return New(", "  if (align <= Length(2)) {\n    return New(")],
     "a large block aligned to exactly two pages", "the block is not aligned as asked",
     HPSTAT + r"""
int main() {
  for (int i = 0; i < 60; ++i) {
    spans(41);
    char* p = static_cast<char*>(aligned_alloc(2 * kPage, 43 * kPage));
    if (reinterpret_cast<size_t>(p) % (2 * kPage)) { fprintf(stderr, "%p\n", p); return 1; }
  }
  return 0;
}
""", flags="-fno-builtin")
PGA = "tcmalloc/page_allocator.cc"
PGAH = "tcmalloc/page_allocator.h"
LIMHDR = HPSTAT + r"""
extern "C" void TCMalloc_Internal_SetHPAASubrelease(bool v);
static size_t prop(const char* n) { return MallocExtension::GetNumericProperty(n).value_or(0); }
static size_t unmapped() { return prop("tcmalloc.pageheap_unmapped_bytes"); }
static long hits() {
  std::string s = MallocExtension::GetStats();
  const char* p = strstr(s.c_str(), "PARAMETER tcmalloc_");
  (void)p;
  p = strstr(s.c_str(), "Number of times soft limit was hit: ");
  if (!p) p = strstr(s.c_str(), "soft_limit_hits");
  long n = -1;
  if (p) { p = strchr(p, ':'); if (p) sscanf(p + 1, "%ld", &n); }
  return n;
}
static void sampled(std::vector<void*>* v, size_t n) {
  MallocExtension::SetProfileSamplingInterval(1);
  for (int i = 0; i < 100; ++i) ::operator delete(::operator new(1 << 20));
  for (size_t i = 0; i < n; ++i) { void* p = ::operator new(8000); memset(p, 1, 8000); v->push_back(p); }
  MallocExtension::SetProfileSamplingInterval(int64_t{1} << 40);
  for (int i = 0; i < 100; ++i) ::operator delete(::operator new(1 << 20));
}
"""
seed("c20-round-down", "C20", "full", [(PGA, "  const size_t overage = backed - limits_[kSoft];\n  const Length pages = BytesToLengthCeil(overage);", "  const size_t overage = backed - limits_[kSoft];\n  const Length pages = BytesToLengthFloor(overage);")],
     "usage that is above the soft limit by less than a page", "the limit is exceeded and nothing is released, yet it counts as kept",
     LIMHDR + r"""
int main() {
  std::vector<void*> v;
  v.reserve(100);
  for (int i = 0; i < 60; ++i) { void* p = ::operator new(4 << 20); memset(p, 1, 4 << 20); v.push_back(p); }
  for (void* p : v) ::operator delete(p);
  long h = hits();
  if (h < 0) return 2;
  size_t limit = prop("generic.physical_memory_used") + (512 << 10);
  for (int i = 0; i < 1500; ++i, limit -= 1500) {
    size_t u = unmapped();
    MallocExtension::SetMemoryLimit(limit, MallocExtension::LimitKind::kSoft);
    size_t w = unmapped();
    if (hits() != h) {
      if (w > u) return 0;
      fprintf(stderr, "over the limit of %zu and nothing was released\n", limit);
      return 1;
    }
  }
  return 2;
}
""", flags="-fno-builtin")
seed("c20-wrap-remainder", "C20", "full", [(PGAH, "  released += sampled_impl_[0]->ReleaseAtLeastNPages(\n      num_pages > released ? num_pages - released : Length(0), reason);", "  released += sampled_impl_[0]->ReleaseAtLeastNPages(num_pages - released,\n                                                     reason);")],
     "sampled memory free, and an ordinary part of the heap that released more than was asked for", "everything free in the sampled part is released for a request of one page",
     LIMHDR + r"""
int main() {
  std::vector<void*> v, s;
  v.reserve(100);
  s.reserve(30000);
  sampled(&s, 20000);
  for (int i = 0; i < 30; ++i) { void* p = ::operator new(4 << 20); memset(p, 1, 4 << 20); v.push_back(p); }
  for (void* p : s) ::operator delete(p);
  for (void* p : v) ::operator delete(p);
  size_t u = unmapped();
  MallocExtension::ReleaseMemoryToSystem(1);
  size_t w = unmapped();
  if (w > u + (8 << 20)) { fprintf(stderr, "%zu bytes released for a request of one\n", w - u); return 1; }
  return 0;
}
""", flags="-fno-builtin")
seed("c20-sampled-kept", "C20", "full", [(PGA, "         partition < (sampled_partition_active_ ? kSecurityPartitions : 1);", "         partition < (sampled_partition_active_ ? kSecurityPartitions : 0);")],
     "a limit that only breaking up huge pages of sampled objects can keep", "the sampled part of the heap is never asked to break up its huge pages",
     LIMHDR + r"""
int main() {
  TCMalloc_Internal_SetHPAASubrelease(false);
  std::vector<void*> s;
  s.reserve(30000);
  sampled(&s, 16000);
  for (size_t i = 0; i < s.size(); ++i)
    if (i % 4) ::operator delete(s[i]);
  MallocExtension::ReleaseMemoryToSystem(size_t{1} << 32);
  size_t u = unmapped();
  MallocExtension::SetMemoryLimit(prop("generic.physical_memory_used") - (40 << 20), MallocExtension::LimitKind::kSoft);
  size_t w = unmapped();
  if (w < u + (20 << 20)) { fprintf(stderr, "only %zu bytes were released\n", w - u); return 1; }
  return 0;
}
""", flags="-fno-builtin")
