#pragma once
#include <mutex>
namespace realtime_tools
{
class prio_inherit_mutex
{
public:
  void lock() { m.lock(); }
  bool try_lock() { return m.try_lock(); }
  void unlock() { m.unlock(); }
  std::mutex m;
};
class prio_inherit_recursive_mutex
{
public:
  void lock() { m.lock(); }
  bool try_lock() { return m.try_lock(); }
  void unlock() { m.unlock(); }
  std::recursive_mutex m;
};
}  // namespace realtime_tools
