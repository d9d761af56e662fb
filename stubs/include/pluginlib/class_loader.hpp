#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace pluginlib
{
class PluginlibException : public std::runtime_error { using std::runtime_error::runtime_error; };
class LibraryLoadException : public PluginlibException { using PluginlibException::PluginlibException; };
class CreateClassException : public PluginlibException { using PluginlibException::PluginlibException; };
template <class T>
using UniquePtr = std::unique_ptr<T, std::function<void(T *)>>;
template <class T>
class ClassLoader
{
public:
  ClassLoader(const std::string & = "", const std::string & = "") {}
  static std::map<std::string, std::function<T *()>> & reg()
  {
    static std::map<std::string, std::function<T *()>> r;
    return r;
  }
  bool isClassAvailable(const std::string & n) { return reg().count(n) > 0; }
  std::shared_ptr<T> createSharedInstance(const std::string & n) { return std::shared_ptr<T>(make(n)); }
  std::unique_ptr<T> createUniqueInstance(const std::string & n) { return std::unique_ptr<T>(make(n)); }
  T * createUnmanagedInstance(const std::string & n) { return make(n); }
  T * make(const std::string & n)
  {
    auto it = reg().find(n);
    if (it == reg().end()) throw LibraryLoadException("no class " + n);
    return it->second();
  }
  std::vector<std::string> getDeclaredClasses()
  { std::vector<std::string> v; for (auto & p : reg()) v.push_back(p.first); return v; }
  std::string getBaseClassType() const { return ""; }
  std::string getName(const std::string & n) { return n; }
  std::string getClassType(const std::string & n) { return n; }
};
}  // namespace pluginlib
