// Instantiation driver for header-only components.
#include <cstdint>
#include "absl/types/span.h"
#include "tcmalloc/internal/stacktrace_filter.h"
#include "tcmalloc/internal/clock.h"
#include "tcmalloc/internal/overflow.h"
#include "tcmalloc/internal/cpu_utils.h"
#include "tcmalloc/internal/exponential_biased.h"
#include "tcmalloc/internal/explicitly_constructed.h"
#include "tcmalloc/internal/atomic_danger.h"
namespace tcmalloc::tcmalloc_internal {
template class StackTraceFilter<257, 3>;
template class DecayingStackTraceFilter<257, 3, 9>;
}
using namespace tcmalloc::tcmalloc_internal;
void verif_small(Cycles32* a, Cycles32* b, Clock c, Clock::Snapshot s, size_t x, CpuSet* cs, Random* r, int n) {
  a->Update(c); a->Reset(); (void)bool(*a); (void)a->AsDuration(s); (void)a->AsDuration(c);
  (void)a->TimeAfterOrEqual(*b); (void)a->raw();
  size_t out; (void)MultiplyOverflow(x, x, &out);
  cs->Zero(); cs->Set(n); (void)cs->IsSet(n); cs->CLR(n); (void)cs->Count(); (void)cs->FindFirstSet();
  (void)cs->SetAffinity(n); (void)cs->GetAffinity(n);
  (void)r->Next(); r->Reset(x); (void)ExponentialBiased::NextRandom(x); (void)ExponentialBiased::GetRandom(x);
}
#include "tcmalloc/internal/util.h"
void verif_ext(int);
void verif_errno_scope(int x) { ErrnoRestorer r; verif_ext(x); }
void verif_sigmask_scope(int x) { ScopedSigmask r; verif_ext(x); }
