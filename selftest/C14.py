AS = "tcmalloc/allocation_sampling.h"
SP = "tcmalloc/span.cc"
M = [
    ("early-unregister", "bad", AS, ["  MallocHook::InvokeSampledDeleteHook(sampled_alloc);\n", "  state.sampled_allocation_recorder().Unregister(sampled_allocation);\n\n  state.deall"], ["  state.sampled_allocation_recorder().Unregister(sampled_allocation);\n  MallocHook::InvokeSampledDeleteHook(sampled_alloc);\n", "  state.deall"]),
    ("no-delhook", "bad", AS, "  MallocHook::InvokeSampledDeleteHook(sampled_alloc);\n", ""),
    ("no-report", "bad", AS, "  state.deallocation_samples.ReportFree(sampled_alloc_handle);\n", ""),
    ("frag-sub", "bad", AS, "        allocation_estimate * (allocated_size - requested_size);\n", "        allocation_estimate * (allocated_size - size.value_or(requested_size));\n"),
    ("frag-skip", "bad", AS, "    state.sampled_internal_fragmentation_.Add(-sampled_fragmentation);\n", "    if (!size.has_value()) state.sampled_internal_fragmentation_.Add(-sampled_fragmentation);\n"),
    ("cap-guard", "bad", AS, "      capacity = requested_size;\n", "      capacity = stack_trace.allocated_size;\n"),
    ("unguard", "bad", AS, "    if (alloc_with_status.status == Profile::Sample::GuardedStatus::Guarded) {\n", "    if (alloc_with_status.status == Profile::Sample::GuardedStatus::Guarded && requested_size > 8) {\n"),
    ("tag", "bad", AS, "          : MemoryTag::kSampled;\n", "          : MemoryTag::kNormal;\n"),
    ("weight", "bad", AS, "  stack_trace.weight = weight;\n", "  stack_trace.weight = size_class != 0 ? weight : 1;\n"),
    ("nomap", "bad", AS, "      state.pagemap().Set(p, span);\n", "      if (requested_size > 8) state.pagemap().Set(p, span);\n"),
    ("oom-first", "bad", AS, "    } else {\n      return {};\n    }\n", "    } else {\n      state.allocation_samples.ReportMalloc(stack_trace);\n      return {};\n    }\n"),
    ("handle0", "bad", AS, "  state.deallocation_samples.ReportMalloc(stack_trace);\n\n", ""),
    ("sizecheck", "bad", AS, "              !(requested_size <= *size && *size <= allocated_size))) {\n", "              !(*size <= allocated_size))) {\n"),
    ("sizecheck2", "bad", AS, "    } else if (ABSL_PREDICT_FALSE(size != requested_size)) {\n", "    } else if (ABSL_PREDICT_FALSE(*size > requested_size)) {\n"),
    ("typecheck", "bad", AS, "      ABSL_PREDICT_FALSE(dealloc_type != alloc_type)) {\n", "      ABSL_PREDICT_FALSE(dealloc_type != alloc_type && size.has_value())) {\n"),
    ("unsampledcheck", "bad", AS, "*size < minimum_size || *size > maximum_size", "*size > maximum_size"),
    ("slot", "bad", SP, "  tc_globals.sampled_objects_size_.Add(-neg_objects_bytes)" , "x") ,
    ("r-late-read", "ok", AS, "  const size_t weight = sampled_allocation->sampled_stack.weight;\n  const size_t requested_size =\n      sampled_allocation->sampled_stack.requested_size;\n", "  const StackTrace& st = sampled_allocation->sampled_stack;\n  const size_t weight = st.weight;\n  const size_t requested_size = st.requested_size;\n"),
    ("r-report-first", "ok", AS, "  state.sampled_allocation_recorder().Unregister(sampled_allocation);\n\n  state.deallocation_samples.ReportFree(sampled_alloc_handle);\n", "  state.deallocation_samples.ReportFree(sampled_alloc_handle);\n\n  state.sampled_allocation_recorder().Unregister(sampled_allocation);\n"),
    ("r-swap-reports", "ok", AS, "  state.allocation_samples.ReportMalloc(stack_trace);\n\n  state.deallocation_samples.ReportMalloc(stack_trace);\n", "  state.deallocation_samples.ReportMalloc(stack_trace);\n  state.allocation_samples.ReportMalloc(stack_trace);\n"),
    ("r-ptr", "ok", AS, "  MallocHook::SampledAlloc sampled_alloc = {\n      .handle = stack_trace.sampled_alloc_handle,\n", "  void* const result = (alloc_with_status.alloc != nullptr)\n                           ? alloc_with_status.alloc\n                           : span->start_address();\n  MallocHook::SampledAlloc sampled_alloc = {\n      .handle = stack_trace.sampled_alloc_handle,\n"),
]
M = [m for m in M if m[0] != "slot"]
