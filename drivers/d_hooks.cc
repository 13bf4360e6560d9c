// Instantiation driver: makes every hook-list member visible to the analysis.
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/malloc_hook_invoke.h"
namespace tcmalloc::tcmalloc_internal {
template class HookList<MallocHook::NewHook>;
template class HookList<MallocHook::DeleteHook>;
template class HookList<MallocHook::SampledNewHook>;
}
void verif_hooks_1(const tcmalloc::MallocHook::NewInfo& i) { tcmalloc::MallocHook::InvokeNewHook(i); }
void verif_hooks_2(const tcmalloc::MallocHook::DeleteInfo& i) { tcmalloc::MallocHook::InvokeDeleteHook(i); }
void verif_hooks_3(const tcmalloc::MallocHook::SampledAlloc& i) {
  tcmalloc::MallocHook::InvokeSampledNewHook(i);
  tcmalloc::MallocHook::InvokeSampledDeleteHook(i);
}
