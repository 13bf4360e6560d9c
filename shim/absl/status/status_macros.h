#pragma once
#include "absl/status/status.h"
#define VS_CAT2(a,b) a##b
#define VS_CAT(a,b) VS_CAT2(a,b)
#define ABSL_RETURN_IF_ERROR(e) if (absl::Status vs_st = (e); vs_st.ok()) {} else return vs_st
#define ABSL_ASSIGN_OR_RETURN(lhs, e) auto VS_CAT(vs_so,__LINE__) = (e); if (!VS_CAT(vs_so,__LINE__).ok()) return VS_CAT(vs_so,__LINE__).status(); lhs = std::move(VS_CAT(vs_so,__LINE__)).value()
