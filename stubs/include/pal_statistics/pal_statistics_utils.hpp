#pragma once
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace pal_statistics
{
using IdType = int;
class StatisticsRegistry;
class RegistrationsRAII
{
public:
  void add(IdType i) { ids.push_back(i); }
  bool remove(IdType) { return true; }
  void removeAll() { ids.clear(); }
  bool enable(IdType) { return true; }
  bool disable(IdType) { return true; }
  bool enableAll() { enabled = true; return true; }
  bool disableAll() { enabled = false; return true; }
  std::vector<IdType> ids;
  bool enabled = false;
};
class StatisticsRegistry
{
public:
  template <class T>
  IdType registerVariable(const std::string &, const T *, RegistrationsRAII * b = nullptr, bool = true)
  { if (b) b->add(++n); return n; }
  template <class F>
  IdType registerFunction(const std::string &, F &&, RegistrationsRAII * b = nullptr, bool = true)
  { if (b) b->add(++n); return n; }
  void unregisterVariable(const std::string &, RegistrationsRAII * = nullptr) {}
  void publish() {}
  bool publishAsync() { return true; }
  void startPublishThread() {}
  int n = 0;
};
template <class T>
IdType customRegister(
  StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b = nullptr,
  bool e = true)
{
  return r.registerVariable(n, v, b, e);
}
inline std::shared_ptr<StatisticsRegistry> getRegistry(const std::string &)
{
  static auto r = std::make_shared<StatisticsRegistry>();
  return r;
}
inline void clearAllRegistries() {}
}  // namespace pal_statistics
