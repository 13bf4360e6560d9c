// Analysis-only: adds the reference-taking MutexLock of newer Abseil.
#ifndef VERIF_SHIM_MUTEX_H_
#define VERIF_SHIM_MUTEX_H_
#define MutexLock MutexLockOld
#include_next "absl/synchronization/mutex.h"
#undef MutexLock
namespace absl {
ABSL_NAMESPACE_BEGIN
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(&mu) { mu_->Lock(); }
  explicit MutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) { mu_->Lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { mu_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
  void operator=(const MutexLock&) = delete;
 private:
  Mutex* const mu_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
