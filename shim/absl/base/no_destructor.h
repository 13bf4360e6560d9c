#pragma once
#include <new>
#include <utility>
#include <type_traits>
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts> explicit constexpr NoDestructor(Ts&&... a) { new (&space_) T(std::forward<Ts>(a)...); }
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(&space_); }
  const T* get() const { return reinterpret_cast<const T*>(&space_); }
 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
ABSL_NAMESPACE_END
}
