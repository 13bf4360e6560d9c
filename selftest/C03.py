T = "tcmalloc/tcmalloc.cc"
M = [
 ("copy-new", "bad", T, "memcpy(new_ptr, old_ptr, ((old_size < new_size) ? old_size : new_size));", "memcpy(new_ptr, old_ptr, new_size);"),
 ("copy-max", "bad", T, "memcpy(new_ptr, old_ptr, ((old_size < new_size) ? old_size : new_size));", "memcpy(new_ptr, old_ptr, ((old_size > new_size) ? old_size : new_size));"),
 ("copy-ok", "ok", T, "memcpy(new_ptr, old_ptr, ((old_size < new_size) ? old_size : new_size));", "if (new_size <= old_size) memmove(new_ptr, old_ptr, new_size); else memcpy(new_ptr, old_ptr, old_size);"),
 ("copy-ok-min", "ok", T, "memcpy(new_ptr, old_ptr, ((old_size < new_size) ? old_size : new_size));", "const size_t n = std::min<size_t>(old_size, new_size); memcpy(new_ptr, old_ptr, n);"),
 ("free-early", "bad", T, "    if (new_ptr == nullptr) {\n      return nullptr;\n    }\n    memcpy", "    if (new_ptr == nullptr) {\n      do_free(old_ptr, MallocPolicy());\n      return nullptr;\n    }\n    memcpy"),
 ("free-never-sampled", "bad", T, "    do_free(old_ptr, MallocPolicy());\n    return new_ptr;", "    if (!was_sampled) do_free(old_ptr, MallocPolicy());\n    return new_ptr;"),
 ("keep-larger", "bad", T, "changes_correct_size = actual_new_size != old_size;", "changes_correct_size = actual_new_size > old_size + 4096;"),
 ("keep-ok", "ok", T, "changes_correct_size = actual_new_size != old_size;", "changes_correct_size = !(old_size == actual_new_size);"),
 ("zero", "bad", T, "  if (size == 0) {\n    do_free(ptr, MallocPolicy());\n    return nullptr;\n  }\n  return do_realloc(ptr, size, TokenId::kNoAllocToken);\n}\n\nextern", "  return do_realloc(ptr, size, TokenId::kNoAllocToken);\n}\n\nextern"),
 ("zero-ra", "bad", T, "  if (size == 0) {\n    do_free(ptr, MallocPolicy());\n    return nullptr;\n  }\n  return do_realloc(ptr, size, TokenId::kNoAllocToken);\n}\n\n#ifndef", "  if (elem_size == 0) {\n    do_free(ptr, MallocPolicy());\n    return nullptr;\n  }\n  return do_realloc(ptr, size, TokenId::kNoAllocToken);\n}\n\n#ifndef"),
 ("tok-zero", "bad", T, "    if (size == 0) {                                                           \\\n      do_free(ptr, MallocPolicy().WithSecurityToken<TokenId{id}>());           \\\n", "    if (size == 0) {                                                           \\\n"),
 ("order-ok", "ok", T, "  if (size == 0) {\n    do_free(ptr, MallocPolicy());\n    return nullptr;\n  }\n  return do_realloc(ptr, size, TokenId::kNoAllocToken);\n}\n\nextern", "  if (size != 0) {\n    return do_realloc(ptr, size, TokenId::kNoAllocToken);\n  }\n  do_free(ptr, MallocPolicy());\n  return nullptr;\n}\n\nextern"),
]
