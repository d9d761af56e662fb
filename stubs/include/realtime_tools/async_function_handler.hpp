#pragma once
#include <atomic>
#include <chrono>
#include <functional>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "rclcpp/rclcpp.hpp"
namespace realtime_tools
{
class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED, DETACHED };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : v_(v) {}  // NOLINT
  explicit AsyncSchedulingPolicy(const std::string & s)
  {
    v_ = s == "synchronized" ? SYNCHRONIZED : s == "detached" ? DETACHED : UNKNOWN;
  }
  operator Value() const { return v_; }
  explicit operator bool() = delete;
  constexpr bool operator==(AsyncSchedulingPolicy o) const { return v_ == o.v_; }
  constexpr bool operator==(Value o) const { return v_ == o; }
  std::string to_string() const { return v_ == SYNCHRONIZED ? "synchronized" : "detached"; }
  Value v_ = SYNCHRONIZED;
};
struct AsyncFunctionHandlerParams
{
  int thread_priority = 50;
  std::vector<int> cpu_affinity_cores = {};
  AsyncSchedulingPolicy scheduling_policy = AsyncSchedulingPolicy::SYNCHRONIZED;
  unsigned int exec_rate = 0u;
  rclcpp::Clock::SharedPtr clock = nullptr;
  rclcpp::Logger logger = rclcpp::get_logger("AsyncFunctionHandler");
  std::function<bool()> trigger_predicate = []() { return true; };
  bool wait_until_initial_trigger = true;
  bool print_warnings = true;
  template <class N>
  void initialize(N &, const std::string &) {}
  bool validate() const { return true; }
};
template <class T>
class AsyncFunctionHandler
{
public:
  using Cb = std::function<T(const rclcpp::Time &, const rclcpp::Duration &)>;
  void init(Cb cb, int = 50) { cb_ = cb; }
  void init(Cb cb, const AsyncFunctionHandlerParams & p) { cb_ = cb; p_ = p; }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & t, const rclcpp::Duration & p)
  { last_ = t; return {true, cb_(t, p)}; }
  T get_last_return_value() const { return T{}; }
  const rclcpp::Time & get_current_callback_time() const { return last_; }
  const rclcpp::Duration & get_current_callback_period() const { return lastp_; }
  void pause_execution() { paused_ = true; }
  void wait_for_trigger_cycle_to_finish() {}
  void reset_variables() { paused_ = false; }
  void join_async_callback_thread() {}
  void start_thread() { run_ = true; }
  void stop_thread() { run_ = false; }
  std::chrono::nanoseconds get_last_execution_time() const { return std::chrono::nanoseconds(0); }
  bool is_initialized() const { return static_cast<bool>(cb_); }
  bool is_running() const { return run_; }
  bool is_paused() const { return paused_; }
  bool is_stopped() const { return !run_; }
  bool is_trigger_cycle_in_progress() const { return false; }
  const AsyncFunctionHandlerParams & get_params() const { return p_; }
  Cb cb_;
  AsyncFunctionHandlerParams p_;
  rclcpp::Time last_;
  rclcpp::Duration lastp_;
  bool run_ = false, paused_ = false;
};
}  // namespace realtime_tools
