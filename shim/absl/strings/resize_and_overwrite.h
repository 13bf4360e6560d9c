#pragma once
#include <string>
#include <utility>
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename Op>
void StringResizeAndOverwrite(std::string& s, size_t n, Op op) {
  s.resize(n);
  s.resize(std::move(op)(s.data(), n));
}
ABSL_NAMESPACE_END
}
