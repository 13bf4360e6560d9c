// Force-included (clang -include) before every analysed translation unit.
// Supplies the few macros that newer Abseil releases define and the installed
// one (20220623) does not.  Only declarations: nothing here changes the meaning
// of tcmalloc's own code.
#pragma once
#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/base/optimization.h"
#include "absl/base/macros.h"
#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() __builtin_unreachable()
#endif
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#endif
#ifndef ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_OWNER
#endif
#ifndef ABSL_ATTRIBUTE_WARN_UNUSED
#define ABSL_ATTRIBUTE_WARN_UNUSED
#endif
#ifndef ABSL_REQUIRE_EXPLICIT_INIT
#define ABSL_REQUIRE_EXPLICIT_INIT
#endif
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
#ifndef ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#endif
#ifndef ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS
#define ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS [[no_unique_address]]
#endif
#ifndef ABSL_DEPRECATE_AND_INLINE
#define ABSL_DEPRECATE_AND_INLINE()
#endif
