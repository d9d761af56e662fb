#pragma once
#include <mutex>
#include <optional>
#include "realtime_tools/mutex.hpp"
namespace realtime_tools
{
template <class T>
class RealtimeThreadSafeBox
{
public:
  RealtimeThreadSafeBox() = default;
  explicit RealtimeThreadSafeBox(const T & t) : v(t) {}
  bool try_set(const T & x) { v = x; return true; }
  template <class F, class = std::enable_if_t<std::is_invocable_v<F, T &>>>
  bool try_set(const F & f) { f(v); return true; }
  std::optional<T> try_get() const { return v; }
  template <class F>
  bool try_get(const F & f) { f(v); return true; }
  void set(const T & x) { v = x; }
  template <class F, class = std::enable_if_t<std::is_invocable_v<F, T &>>>
  void set(const F & f) { f(v); }
  T get() const { return v; }
  void get(T & o) const { o = v; }
  template <class F, class = std::enable_if_t<std::is_invocable_v<F, const T &>>>
  void get(const F & f) const { f(v); }
  T v{};
};
}  // namespace realtime_tools
