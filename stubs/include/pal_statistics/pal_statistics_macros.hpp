#pragma once
#include "pal_statistics/pal_statistics_utils.hpp"
namespace pal_statistics
{
template <class T>
void stub_register(const std::string & k, const std::string & id, const T * v, RegistrationsRAII * b = nullptr, bool e = true)
{
  customRegister(*getRegistry(k), id, v, b, e);
}
template <class T>
void stub_register(const std::string & k, const std::string & id, const std::function<T()> & f, RegistrationsRAII * b = nullptr, bool e = true)
{
  getRegistry(k)->registerFunction(id, f, b, e);
}
inline void stub_unregister(const std::string &, const std::string &) {}
template <class N>
void stub_init(N, const std::string &, const std::string &) {}
inline void stub_start(const std::string &) {}
inline void stub_publish(const std::string &) {}
}  // namespace pal_statistics
#define REGISTER_ENTITY(KEY, ID, ...) pal_statistics::stub_register(KEY, ID, __VA_ARGS__)
#define UNREGISTER_ENTITY(KEY, ID) pal_statistics::stub_unregister(KEY, ID)
#define CLEAR_ALL_REGISTRIES() pal_statistics::clearAllRegistries()
#define INITIALIZE_REGISTRY(node, topic, key) pal_statistics::stub_init(node, topic, key)
#define START_PUBLISH_THREAD(key) pal_statistics::stub_start(key)
#define PUBLISH_ASYNC_STATISTICS(key) pal_statistics::stub_publish(key)
#define PUBLISH_STATISTICS(key) pal_statistics::stub_publish(key)
