// Analysis-only stand-in for a newer Abseil header (see DESIGN.md, "Shims").
#pragma once
#include "absl/base/attributes.h"
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
