// Explicit instantiations, so that every member function is analysed.
#include "tcmalloc/internal/sampled_allocation.h"
#include "tcmalloc/internal/sampled_allocation_recorder.h"
#include "tcmalloc/metadata_object_allocator.h"
#include "tcmalloc/span.h"
namespace tcmalloc::tcmalloc_internal {
template class MetadataObjectAllocator<SampledAllocation>;
template class SampleRecorder<SampledAllocation, MetadataObjectAllocator<SampledAllocation>>;
}
#include "tcmalloc/arena.h"
namespace tcmalloc::tcmalloc_internal {
ArenaStats DrvArenaStats(const Arena& a) { return a.stats(); }
void DrvArenaUpdate(Arena& a, int64_t x, int64_t y) { a.UpdateAllocatedAndNonresident(x, y); }
SampledAllocation* DrvNew(MetadataObjectAllocator<SampledAllocation>& m) { return m.New(); }
MetadataObjectAllocator<Span>* DrvSpan(MetadataObjectAllocator<Span>* m, Span* s) { m->Delete(s); return m; }
}
