// Analysis-only stand-in: the str_format surface tcmalloc uses, with %v and
// AbslStringify accepted.
#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <cstddef>
#include <type_traits>
#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class FormatSpecShim {
 public:
  constexpr FormatSpecShim(const char* s) : s_(s) {}
  FormatSpecShim(absl::string_view s) : s_(s.data()) {}
  constexpr const char* c_str() const { return s_; }
 private:
  const char* s_;
};
// Non-deduced on purpose, like the real alias template.
template <typename... Args> struct FormatSpecOf { using type = FormatSpecShim; };
template <typename... Args>
using FormatSpec = typename FormatSpecOf<Args...>::type;
namespace vs_fmt {
struct Arg {
  enum K { kI, kU, kD, kS, kP } k = kI;
  long long i = 0; unsigned long long u = 0; double d = 0; const void* p = nullptr;
  const char* s = nullptr; size_t n = 0;
};
struct StrSink {
  char buf[256]; size_t n = 0;
  void Append(absl::string_view v) { for (char c : v) if (n < sizeof(buf)) buf[n++] = c; }
  void Append(size_t c, char ch) { while (c--) if (n < sizeof(buf)) buf[n++] = ch; }
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StrSink&>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T>
Arg Make(const T& v, StrSink& scratch) {
  Arg a; using U = std::decay_t<T>;
  if constexpr (HasStringify<U>::value) {
    AbslStringify(scratch, v); a.k = Arg::kS; a.s = scratch.buf; a.n = scratch.n;
  } else if constexpr (std::is_same_v<U, bool>) { a.k = Arg::kI; a.i = v; a.u = v;
  } else if constexpr (std::is_enum_v<U>) { a.k = Arg::kI; a.i = static_cast<long long>(v); a.u = a.i;
  } else if constexpr (std::is_floating_point_v<U>) { a.k = Arg::kD; a.d = v;
  } else if constexpr (std::is_integral_v<U>) {
    a.k = std::is_signed_v<U> ? Arg::kI : Arg::kU; a.i = static_cast<long long>(v); a.u = static_cast<unsigned long long>(v);
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
    absl::string_view sv = v; a.k = Arg::kS; a.s = sv.data(); a.n = sv.size(); a.p = a.s;
  } else if constexpr (std::is_pointer_v<U>) { a.k = Arg::kP; a.p = (const void*)v; a.u = (unsigned long long)(uintptr_t)v;
  } else { a.k = Arg::kS; a.s = "?"; a.n = 1; }
  return a;
}
inline size_t Run(char* out, size_t cap, const char* f, const Arg* a, size_t na) {
  size_t w = 0, ai = 0;
  auto put = [&](const char* s, size_t n) { for (size_t k = 0; k < n; ++k, ++w) if (w + 1 < cap) out[w] = s[k]; };
  while (*f) {
    if (*f != '%') { put(f++, 1); continue; }
    if (f[1] == '%') { put("%", 1); f += 2; continue; }
    char spec[32]; size_t sn = 0; spec[sn++] = *f++;
    while (*f && strchr("-+ #0123456789.*", *f) && sn < 20) {
      if (*f == '*') { sn += snprintf(spec + sn, 8, "%d", ai < na ? (int)a[ai++].i : 0); ++f; } else spec[sn++] = *f++;
    }
    while (*f && strchr("hlLqjzt", *f)) ++f;
    char c = *f ? *f++ : 'd'; char t[400]; int n = 0; Arg x; if (ai < na) x = a[ai++];
    if (c == 'v') c = x.k == Arg::kS ? 's' : x.k == Arg::kD ? 'g' : x.k == Arg::kP ? 'p' : x.k == Arg::kU ? 'u' : 'd';
    if (c == 's') { if (sn == 1) { put(x.s ? x.s : "", x.n); continue; }
      char tmp[256]; size_t m = x.n < 255 ? x.n : 255; memcpy(tmp, x.s ? x.s : "", m); tmp[m] = 0; spec[sn++]='s'; spec[sn]=0; n = snprintf(t, sizeof t, spec, tmp);
    } else if (strchr("di", c)) { spec[sn++]='l'; spec[sn++]='l'; spec[sn++]=x.k==Arg::kU?'u':'d'; spec[sn]=0; n = snprintf(t, sizeof t, spec, x.i);
    } else if (strchr("uxXo", c)) { spec[sn++]='l'; spec[sn++]='l'; spec[sn++]=c; spec[sn]=0; n = snprintf(t, sizeof t, spec, x.u);
    } else if (strchr("feEgGaA", c)) { spec[sn++]=c; spec[sn]=0; double d = x.k==Arg::kD ? x.d : (double)x.i; n = snprintf(t, sizeof t, spec, d);
    } else if (c == 'p') { spec[sn++]='p'; spec[sn]=0; n = snprintf(t, sizeof t, spec, x.p);
    } else if (c == 'c') { t[0] = (char)x.i; n = 1; }
    put(t, n < (int)sizeof t ? n : sizeof t - 1);
  }
  if (cap) out[w < cap ? w : cap - 1] = 0;
  return w;
}
template <typename... Args>
size_t Go(char* out, size_t cap, const char* f, const Args&... args) {
  StrSink sinks[sizeof...(Args) + 1]; size_t k = 0; (void)k;
  Arg a[sizeof...(Args) + 1] = {Make(args, sinks[k++])...};
  return Run(out, cap, f, a, sizeof...(Args));
}
}  // namespace vs_fmt
template <typename... Args>
int SNPrintF(char* output, std::size_t size, const FormatSpec<Args...>& format, const Args&... args) {
  return static_cast<int>(vs_fmt::Go(output, size, format.c_str(), args...));
}
template <typename... Args>
int FPrintF(std::FILE* f, const FormatSpec<Args...>& format, const Args&... args) {
  char b[2048]; vs_fmt::Go(b, sizeof b, format.c_str(), args...); return fputs(b, f);
}
template <typename... Args>
int PrintF(const FormatSpec<Args...>& format, const Args&... args) { return FPrintF(stdout, format, args...); }
template <typename... Args>
std::string StrFormat(const FormatSpec<Args...>& format, const Args&... args) {
  char b[2048]; vs_fmt::Go(b, sizeof b, format.c_str(), args...); return b;
}
template <typename... Args>
std::string& StrAppendFormat(std::string* dst, const FormatSpec<Args...>& format, const Args&... args) {
  return *dst += StrFormat(format, args...);
}
template <typename Sink, typename... Args>
bool Format(Sink* sink, const FormatSpec<Args...>& format, const Args&... args) {
  char b[512]; vs_fmt::Go(b, sizeof b, format.c_str(), args...); sink->Append(absl::string_view(b)); return true;
}
class FormatSink;
ABSL_NAMESPACE_END
}  // namespace absl
#endif
