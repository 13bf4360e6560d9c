// Analysis-only stand-in: SpinLock as newer Abseil declares it (reference
// holder, lower-case lock functions), same size and semantics.
#ifndef VERIF_SHIM_SPINLOCK_H_
#define VERIF_SHIM_SPINLOCK_H_
#include <stdint.h>
#include <atomic>
#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/dynamic_annotations.h"
#include "absl/base/internal/low_level_scheduling.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/macros.h"
#include "absl/base/port.h"
#include "absl/base/thread_annotations.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
class ABSL_LOCKABLE SpinLock {
 public:
  constexpr SpinLock() : lockword_(0) {}
  constexpr explicit SpinLock(SchedulingMode) : lockword_(0) {}
  constexpr SpinLock(absl::ConstInitType, SchedulingMode) : lockword_(0) {}
  SpinLock(const SpinLock&) = delete;
  SpinLock& operator=(const SpinLock&) = delete;
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    while (lockword_.exchange(1, std::memory_order_acquire)) __builtin_ia32_pause();
  }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    return lockword_.exchange(1, std::memory_order_acquire) == 0;
  }
  void unlock() ABSL_UNLOCK_FUNCTION() {
    lockword_.store(0, std::memory_order_release);
  }
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return try_lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  bool IsHeld() const { return lockword_.load(std::memory_order_relaxed) & 1; }
  bool IsCooperative() const { return false; }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {
    if (!IsHeld()) __builtin_trap();
  }

 private:
  std::atomic<uint32_t> lockword_;
};
class ABSL_SCOPED_LOCKABLE SpinLockHolder {
 public:
  explicit SpinLockHolder(SpinLock& l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : lock_(&l) { l.lock(); }
  explicit SpinLockHolder(SpinLock* l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : lock_(l) { l->lock(); }
  ~SpinLockHolder() ABSL_UNLOCK_FUNCTION() { lock_->unlock(); }
  SpinLockHolder(const SpinLockHolder&) = delete;
  SpinLockHolder& operator=(const SpinLockHolder&) = delete;

 private:
  SpinLock* lock_;
};
}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif
