#pragma once
#include <functional>
#include <string>
#include <utility>
#include <vector>
#include "diagnostic_msgs/msg/diagnostic_status.hpp"
#include "rclcpp/rclcpp.hpp"
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  void summary(unsigned char l, const std::string & s) { level = l; message = s; }
  void mergeSummary(unsigned char l, const std::string & s)
  { if ((l > 0) == (level > 0)) { message += "; " + s; } else if (l > level) { message = s; } if (l > level) level = l; }
  template <class T>
  void add(const std::string & k, const T &) { keys.push_back(k); }
  void addf(const std::string & k, const char *, ...) { keys.push_back(k); }
  void clearSummary() { level = 0; message = ""; }
  std::vector<std::string> keys;
};
class Updater
{
public:
  template <class N>
  explicit Updater(N, double = 1.0) {}
  void setHardwareID(const std::string &) {}
  template <class T>
  void add(const std::string &, T * c, void (T::*f)(DiagnosticStatusWrapper &))
  { t.push_back([c, f](DiagnosticStatusWrapper & s) { (c->*f)(s); }); }
  template <class F>
  void add(const std::string &, F f) { t.push_back(f); }
  void force_update() {}
  void broadcast(int, const std::string &) {}
  std::vector<std::function<void(DiagnosticStatusWrapper &)>> t;
};
}  // namespace diagnostic_updater
