#pragma once
#include <mutex>
namespace realtime_tools
{
template <class T>
class RealtimeBuffer
{
public:
  RealtimeBuffer() = default;
  explicit RealtimeBuffer(const T & t) : v(t) {}
  T * readFromRT() { return &v; }
  T * readFromNonRT() const { return const_cast<T *>(&v); }
  void writeFromNonRT(const T & d) { v = d; }
  void initRT(const T & d) { v = d; }
  void reset() { v = T(); }
  T v;
};
}  // namespace realtime_tools
