#pragma once
#include <ostream>
#include <stdlib.h>
namespace verif_shim {
struct NullStream { template <class T> NullStream& operator<<(const T&) { return *this; } };
struct Voidify { void operator&(NullStream&) {} void operator&(NullStream&&) {} };
[[noreturn]] inline void die() { abort(); }
inline NullStream dies() { abort(); }
}
#define CHECK(c) (c) ? (void)0 : ::verif_shim::Voidify() & ::verif_shim::dies()
#define CHECK_EQ(a,b) CHECK((a)==(b))
#define CHECK_NE(a,b) CHECK((a)!=(b))
#define CHECK_LT(a,b) CHECK((a)<(b))
#define CHECK_LE(a,b) CHECK((a)<=(b))
#define CHECK_GT(a,b) CHECK((a)>(b))
#define CHECK_GE(a,b) CHECK((a)>=(b))
#define CHECK_OK(x) CHECK((x).ok())
#define QCHECK CHECK
#define DCHECK CHECK
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
#define ABSL_CHECK_OK CHECK_OK
#ifndef VS_PLOG
#define VS_PLOG
#define PLOG(sev) ::verif_shim::NullStream()
#define LOG(sev) ::verif_shim::NullStream()
#define PCHECK CHECK
#endif
