#pragma once
#include "lifecycle_msgs/msg/state.hpp"
#include "lifecycle_msgs/msg/transition.hpp"
#include "rclcpp/rclcpp.hpp"
namespace rclcpp_lifecycle
{
class State
{
public:
  State() = default;
  explicit State(uint8_t id) : id_(id) {}
  State(uint8_t id, const std::string & l) : id_(id), l_(l) {}
  uint8_t id() const { return id_; }
  std::string label() const { return l_; }
  uint8_t id_ = 0;
  std::string l_ = "unknown";
};
namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual ~LifecycleNodeInterface() = default;
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::FAILURE; }
};
}  // namespace node_interfaces
class LifecycleNode : public rclcpp::NodeCommon,
  public node_interfaces::LifecycleNodeInterface,
  public std::enable_shared_from_this<LifecycleNode>
{
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using Cb = std::function<CallbackReturn(const State &)>;
  explicit LifecycleNode(
    const std::string & n, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true)
  : NodeCommon(n, "", o) {}
  LifecycleNode(
    const std::string & n, const std::string & ns,
    const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true)
  : NodeCommon(n, ns, o) {}
  template <class... A>
  static SharedPtr make_shared(A &&... a) { return std::make_shared<LifecycleNode>(std::forward<A>(a)...); }
  const State & get_current_state() const { return st_; }
  const State & configure() { return run(cfg_, 1, 2, 1, "inactive", "unconfigured"); }
  const State & cleanup() { return run(cln_, 2, 1, 2, "unconfigured", "inactive"); }
  const State & activate() { return run(act_, 2, 3, 2, "active", "inactive"); }
  const State & deactivate() { return run(dea_, 3, 2, 3, "inactive", "active"); }
  const State & shutdown() { if (sht_) sht_(st_); st_ = State(4, "finalized"); return st_; }
  bool register_on_configure(Cb f) { cfg_ = f; return true; }
  bool register_on_cleanup(Cb f) { cln_ = f; return true; }
  bool register_on_shutdown(Cb f) { sht_ = f; return true; }
  bool register_on_activate(Cb f) { act_ = f; return true; }
  bool register_on_deactivate(Cb f) { dea_ = f; return true; }
  bool register_on_error(Cb f) { err_ = f; return true; }
  const State & run(Cb & f, int from, int ok, int fail, const char * okl, const char * faill)
  {
    if (st_.id() != from) return st_;
    CallbackReturn r = CallbackReturn::ERROR;
    try { r = f ? f(st_) : CallbackReturn::SUCCESS; } catch (const std::exception &) {}
    if (r == CallbackReturn::SUCCESS) st_ = State(static_cast<uint8_t>(ok), okl);
    else if (r == CallbackReturn::FAILURE) st_ = State(static_cast<uint8_t>(fail), faill);
    else
    {
      CallbackReturn e = CallbackReturn::ERROR;
      try { e = err_ ? err_(st_) : CallbackReturn::FAILURE; } catch (const std::exception &) {}
      st_ = e == CallbackReturn::SUCCESS ? State(1, "unconfigured") : State(4, "finalized");
    }
    return st_;
  }
  State st_{1, "unconfigured"};
  Cb cfg_, cln_, sht_, act_, dea_, err_;
};
}  // namespace rclcpp_lifecycle
