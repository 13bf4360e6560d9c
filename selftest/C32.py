L = "tcmalloc/libc_override.h"
T = "tcmalloc/tcmalloc.cc"
M = [
 ("sized-array", "bad", L, "TCMALLOC_ALIAS(TCMallocInternalDeleteArraySizedAligned)", "TCMALLOC_ALIAS(TCMallocInternalDeleteArraySized)"),
 ("nothrow", "bad", L, "TCMALLOC_ALIAS(TCMallocInternalNewArrayNothrow)", "TCMALLOC_ALIAS(TCMallocInternalNewArray)"),
 ("indirect", "bad", T, "    TCMALLOC_ALIAS(TCMallocInternalNewAlignedNothrow);", "    TCMALLOC_ALIAS(TCMallocInternalNewAligned);"),
 ("token", "bad", T, "TCMALLOC_ALIAS(__alloc_token_##id##__ZnwmRKSt9nothrow_t);", "TCMALLOC_ALIAS(__alloc_token_##id##__Znwm);"),
 ("missing", "bad", L, "void free_sized(void* ptr, size_t size) TCMALLOC_NOTHROW\n    TCMALLOC_ALIAS(TCMallocInternalFreeSized);\n", ""),
 ("hook", "bad", L, "  return TCMallocInternalMemalign(align, size);", "  return TCMallocInternalMemalign(size, align);"),
 ("hook2", "bad", L, "__free_hook)(void*,\n                                           const void*) = &glibc_override_free;", "__free_hook)(void*,\n                                           const void*) = nullptr;"),
 ("weak", "bad", L, "int posix_memalign(void** r, size_t a, size_t s) TCMALLOC_NOTHROW\n    TCMALLOC_ALIAS", "__attribute__((weak)) int posix_memalign(void** r, size_t a, size_t s) TCMALLOC_NOTHROW\n    TCMALLOC_ALIAS"),
 ("libc", "bad", L, "TCMALLOC_ALIAS(TCMallocInternalPvalloc);\nint __posix", "TCMALLOC_ALIAS(TCMallocInternalValloc);\nint __posix"),
 ("wrap", "ok", L, "void free(void* ptr) TCMALLOC_NOTHROW TCMALLOC_ALIAS(TCMallocInternalFree);", "void free(void* ptr) TCMALLOC_NOTHROW { TCMallocInternalFree(ptr); }"),
 ("direct", "ok", L, "TCMALLOC_ALIAS(TCMallocInternalDeleteArrayNothrow)", "TCMALLOC_ALIAS(TCMallocInternalDelete)"),
 ("hookret", "ok", L, "  return TCMallocInternalRealloc(ptr, size);", "  void* r = TCMallocInternalRealloc(ptr, size);\n  return r;"),
]
