// Analysis stub of the part of rclcpp that ros2_control uses. It exists so that clang can
// type-check /repo without ROS. Semantics are minimal but sane, so the same headers also let
// small programs be linked against real ros2_control sources.
#pragma once
#include <cxxabi.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <iostream>
#include <iterator>
#include <list>
#include <numeric>
#include <regex>
#include <shared_mutex>
#include <string_view>
#include <type_traits>
#include <typeinfo>
#include <unordered_set>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <future>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include "builtin_interfaces/msg/duration.hpp"
#include "builtin_interfaces/msg/time.hpp"
#include "rcl_interfaces/msg/parameter_descriptor.hpp"
#include "rcl_interfaces/msg/set_parameters_result.hpp"

enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
typedef int64_t rcl_time_point_value_t;
typedef int64_t rcl_duration_value_t;
#define RCL_MS_TO_NS(x) ((x) * 1000000LL)
#define RCL_S_TO_NS(x) ((x) * 1000000000LL)

struct rcl_arguments_t { int dummy = 0; };
struct rcl_node_options_t { rcl_arguments_t arguments; };

enum { RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, RMW_QOS_POLICY_HISTORY_KEEP_LAST, RMW_QOS_POLICY_HISTORY_KEEP_ALL };
enum { RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_DURABILITY_VOLATILE };
struct rmw_qos_profile_t { int history; int depth; };
constexpr rmw_qos_profile_t rmw_qos_profile_services_default{};

namespace rclcpp
{
class Context
{
public:
  using SharedPtr = std::shared_ptr<Context>;
  struct PreShutdownCallbackHandle { int id = 0; };
  template <class F>
  PreShutdownCallbackHandle add_pre_shutdown_callback(F f) { cbs.push_back(f); return {}; }
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle &) { return true; }
  bool is_valid() const { return true; }
  std::vector<std::function<void()>> cbs;
};
using PreShutdownCallbackHandle = Context::PreShutdownCallbackHandle;

class Logger
{
public:
  enum class Level { Unset = 0, Debug = 10, Info = 20, Warn = 30, Error = 40, Fatal = 50 };
  Logger() = default;
  explicit Logger(const std::string & n) : name_(n) {}
  Logger get_child(const std::string & s) const { return Logger(name_ + "." + s); }
  const char * get_name() const { return name_.c_str(); }
  void set_level(Level) {}
  Level get_effective_level() const { return Level::Info; }
  std::string name_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }
void stub_log(const Logger & l);
inline void stub_logf(const Logger &, const char *, ...) {}
inline void stub_once() {}

class Duration
{
public:
  Duration() = default;
  Duration(int32_t s, uint32_t ns) : ns_(s * 1000000000LL + ns) {}
  explicit Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns_(d.sec * 1000000000LL + d.nanosec) {}
  template <class Rep, class P>
  Duration(const std::chrono::duration<Rep, P> & d)
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  static Duration from_seconds(double s) { Duration d; d.ns_ = static_cast<int64_t>(s * 1e9); return d; }
  static Duration from_nanoseconds(int64_t n) { Duration d; d.ns_ = n; return d; }
  static Duration max() { return from_nanoseconds(std::numeric_limits<int64_t>::max()); }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  int64_t nanoseconds() const { return ns_; }
  template <class D>
  D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
  operator builtin_interfaces::msg::Duration() const { return {}; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration operator*(double s) const { return from_nanoseconds(static_cast<int64_t>(ns_ * s)); }
  int64_t ns_ = 0;
};

class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(s * 1000000000LL + ns), t_(t) {}
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), t_(t) {}
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME)
  : ns_(m.sec * 1000000000LL + m.nanosec), t_(t) {}
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  int64_t nanoseconds() const { return ns_; }
  rcl_clock_type_t get_clock_type() const { return t_; }
  operator builtin_interfaces::msg::Time() const { return {}; }
  static Time max(rcl_clock_type_t t = RCL_SYSTEM_TIME) { return Time(std::numeric_limits<int64_t>::max(), t); }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time operator+(const Duration & d) const { return Time(ns_ + d.ns_, t_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.ns_, t_); }
  Time & operator+=(const Duration & d) { ns_ += d.ns_; return *this; }
  int64_t ns_ = 0;
  rcl_clock_type_t t_ = RCL_SYSTEM_TIME;
};

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const
  {
    return Time(
      std::chrono::duration_cast<std::chrono::nanoseconds>(
        std::chrono::steady_clock::now().time_since_epoch()).count(), t_);
  }
  bool sleep_until(Time) { return true; }
  bool sleep_for(Duration) { return true; }
  bool wait_until_started() { return true; }
  bool wait_until_started(const Duration &) { return true; }
  bool started() { return true; }
  rcl_clock_type_t get_clock_type() const { return t_; }
  bool ros_time_is_active() { return false; }
  rcl_clock_type_t t_;
};

class Rate
{
public:
  explicit Rate(double, Clock::SharedPtr = nullptr) {}
  bool sleep() { return true; }
};

class QoSInitialization
{
public:
  QoSInitialization() = default;
  QoSInitialization(int, size_t) {}
  static QoSInitialization from_rmw(int) { return {}; }
};
class QoS
{
public:
  explicit QoS(size_t) {}
  template <class... A> QoS(const QoSInitialization &, A &&...) {}
  QoS(const QoSInitialization &) {}
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & transient_local() { return *this; }
  QoS & durability_volatile() { return *this; }
  QoS & keep_all() { return *this; }
  QoS & keep_last(size_t) { return *this; }
};
class KeepLast : public QoSInitialization { public: explicit KeepLast(size_t) {} };
class SystemDefaultsQoS : public QoS { public: SystemDefaultsQoS() : QoS(10) {} };
class ServicesQoS : public QoS { public: ServicesQoS() : QoS(10) {} };

enum class ParameterType {
  PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING,
  PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY,
  PARAMETER_STRING_ARRAY };

namespace exceptions
{
class InvalidParameterTypeException : public std::runtime_error
{
public:
  explicit InvalidParameterTypeException(const std::string & a, const std::string & b = "")
  : std::runtime_error(a + b) {}
};
class ParameterAlreadyDeclaredException : public std::runtime_error { using std::runtime_error::runtime_error; };
class ParameterNotDeclaredException : public std::runtime_error { using std::runtime_error::runtime_error; };
class InvalidParametersException : public std::runtime_error { using std::runtime_error::runtime_error; };
class InvalidParameterValueException : public std::runtime_error { using std::runtime_error::runtime_error; };
class UnknownROSArgsError : public std::runtime_error { using std::runtime_error::runtime_error; };
class RCLError : public std::runtime_error { using std::runtime_error::runtime_error; };
}  // namespace exceptions

class ParameterValue
{
public:
  using V = std::variant<
    std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<bool>,
    std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;
  ParameterValue() = default;
  explicit ParameterValue(bool b) : v(b) {}
  explicit ParameterValue(int b) : v(int64_t(b)) {}
  explicit ParameterValue(int64_t b) : v(b) {}
  explicit ParameterValue(float b) : v(double(b)) {}
  explicit ParameterValue(double b) : v(b) {}
  explicit ParameterValue(const std::string & b) : v(b) {}
  explicit ParameterValue(const char * b) : v(std::string(b)) {}
  explicit ParameterValue(const std::vector<std::string> & b) : v(b) {}
  explicit ParameterValue(const std::vector<double> & b) : v(b) {}
  explicit ParameterValue(const std::vector<int64_t> & b) : v(b) {}
  explicit ParameterValue(const std::vector<bool> & b) : v(b) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v.index()); }
  template <class T>
  T get() const
  {
    if constexpr (std::is_same_v<T, bool>) return std::get<bool>(v);
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(std::get<int64_t>(v));
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::get<double>(v));
    else return std::get<T>(v);
  }
  bool operator==(const ParameterValue & o) const { return v == o.v; }
  bool operator!=(const ParameterValue & o) const { return v != o.v; }
  V v;
};

class Parameter
{
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : n_(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : n_(n), v_(v) {}
  template <class T>
  Parameter(const std::string & n, const T & v) : n_(n), v_(v) {}
  const std::string & get_name() const { return n_; }
  ParameterType get_type() const { return v_.get_type(); }
  std::string get_type_name() const { return ""; }
  const ParameterValue & get_parameter_value() const { return v_; }
  template <class T>
  T get_value() const { return v_.get<T>(); }
  bool as_bool() const { return get_value<bool>(); }
  int64_t as_int() const { return get_value<int64_t>(); }
  double as_double() const { return get_value<double>(); }
  const std::string & as_string() const { return std::get<std::string>(v_.v); }
  const std::vector<double> & as_double_array() const { return std::get<std::vector<double>>(v_.v); }
  const std::vector<std::string> & as_string_array() const { return std::get<std::vector<std::string>>(v_.v); }
  const std::vector<int64_t> & as_integer_array() const { return std::get<std::vector<int64_t>>(v_.v); }
  std::string value_to_string() const { return ""; }
  bool operator==(const Parameter & o) const { return n_ == o.n_ && v_ == o.v_; }
  std::string n_;
  ParameterValue v_;
};

class NodeOptions
{
public:
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
  NodeOptions & automatically_declare_parameters_from_overrides(bool) { return *this; }
  NodeOptions & enable_logger_service(bool) { return *this; }
  NodeOptions & use_global_arguments(bool b) { g_ = b; return *this; }
  bool use_global_arguments() const { return g_; }
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { po_ = p; return *this; }
  std::vector<Parameter> & parameter_overrides() { return po_; }
  const std::vector<Parameter> & parameter_overrides() const { return po_; }
  NodeOptions & append_parameter_override(const std::string & n, const ParameterValue & v)
  { po_.push_back(Parameter(n, v)); return *this; }
  template <class T>
  NodeOptions & append_parameter_override(const std::string & n, const T & v)
  { po_.push_back(Parameter(n, v)); return *this; }
  NodeOptions & context(Context::SharedPtr) { return *this; }
  NodeOptions & clock_type(rcl_clock_type_t) { return *this; }
  NodeOptions & use_intra_process_comms(bool) { return *this; }
  NodeOptions & start_parameter_services(bool) { return *this; }
  NodeOptions & start_parameter_event_publisher(bool) { return *this; }
  const rcl_node_options_t * get_rcl_node_options() const { return &o_; }
  std::vector<std::string> args_;
  std::vector<Parameter> po_;
  bool g_ = true;
  rcl_node_options_t o_;
};

enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup { public: using SharedPtr = std::shared_ptr<CallbackGroup>; };

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  void cancel() { c_ = true; }
  void reset() { c_ = false; }
  bool is_canceled() { return c_; }
  bool c_ = false;
};
class PublisherBase { public: using SharedPtr = std::shared_ptr<PublisherBase>; };
template <class M>
class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  void publish(const M & m) { last = m; ++count; }
  void publish(std::unique_ptr<M> m) { last = *m; ++count; }
  size_t get_subscription_count() const { return 0; }
  const char * get_topic_name() const { return ""; }
  M last; size_t count = 0;
};
template <class M>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  const char * get_topic_name() const { return ""; }
  size_t get_publisher_count() const { return 0; }
};
template <class S>
class Service
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
  using Cb = std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)>;
  Cb cb;
};
enum class FutureReturnCode { SUCCESS, INTERRUPTED, TIMEOUT };
template <class S>
class Client
{
public:
  using SharedPtr = std::shared_ptr<Client<S>>;
};

struct MessageInfo {};

namespace node_interfaces
{
class NodeLoggingInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeLoggingInterface>;
  virtual ~NodeLoggingInterface() = default;
  virtual Logger get_logger() const { return Logger("n"); }
  virtual const char * get_logger_name() const { return "n"; }
};
class NodeClockInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeClockInterface>;
  virtual ~NodeClockInterface() = default;
  virtual Clock::SharedPtr get_clock() { return c; }
  Clock::SharedPtr c = std::make_shared<Clock>(RCL_ROS_TIME);
};
class NodeBaseInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
  virtual ~NodeBaseInterface() = default;
  Context::SharedPtr get_context() { return ctx; }
  std::atomic_bool & get_associated_with_executor_atomic() { return assoc; }
  const char * get_name() const { return name.c_str(); }
  const char * get_namespace() const { return ns.c_str(); }
  const char * get_fully_qualified_name() const { return name.c_str(); }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true) { return nullptr; }
  Context::SharedPtr ctx = std::make_shared<Context>();
  std::atomic_bool assoc{false};
  std::string name, ns;
};
struct OnSetParametersCallbackHandle
{
  using SharedPtr = std::shared_ptr<OnSetParametersCallbackHandle>;
  std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> callback;
};
class NodeParametersInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  virtual ~NodeParametersInterface() = default;
  const ParameterValue & declare_parameter(
    const std::string & n, const ParameterValue & v,
    const rcl_interfaces::msg::ParameterDescriptor & = {}, bool = false)
  { if (!p.count(n)) p[n] = v; return p[n]; }
  const ParameterValue & declare_parameter(
    const std::string & n, ParameterType, const rcl_interfaces::msg::ParameterDescriptor & = {},
    bool = false)
  { return p[n]; }
  void undeclare_parameter(const std::string & n) { p.erase(n); }
  bool has_parameter(const std::string & n) const { return p.count(n) > 0; }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & ps)
  { for (auto & x : ps) p[x.n_] = x.v_; return {}; }
  Parameter get_parameter(const std::string & n) const
  {
    auto it = p.find(n);
    return it == p.end() ? Parameter(n) : Parameter(n, it->second);
  }
  bool get_parameter(const std::string & n, Parameter & out) const
  {
    auto it = p.find(n);
    if (it == p.end()) return false;
    out = Parameter(n, it->second);
    return true;
  }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & n) const
  { std::vector<Parameter> r; for (auto & x : n) r.push_back(get_parameter(x)); return r; }
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const { return p; }
  template <class F>
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(F f)
  { auto h = std::make_shared<OnSetParametersCallbackHandle>(); h->callback = f; return h; }
  std::map<std::string, ParameterValue> p;
};
}  // namespace node_interfaces

class Executor;

class NodeCommon
{
public:
  NodeCommon() = default;
  NodeCommon(const std::string & n, const std::string & ns, const NodeOptions & o) : opts_(o)
  {
    base_->name = n; base_->ns = ns.empty() ? "/" : ns;
    for (auto & p : o.parameter_overrides()) params_->p[p.n_] = p.v_;
  }
  virtual ~NodeCommon() = default;
  Logger get_logger() const { return Logger(base_->name); }
  Clock::SharedPtr get_clock() { return clk_->get_clock(); }
  Time now() const { return clk_->c->now(); }
  const char * get_name() const { return base_->name.c_str(); }
  const char * get_namespace() const { return base_->ns.c_str(); }
  const char * get_fully_qualified_name() const { return base_->name.c_str(); }
  const NodeOptions & get_node_options() const { return opts_; }
  bool has_parameter(const std::string & n) const { return params_->has_parameter(n); }
  const ParameterValue & declare_parameter(
    const std::string & n, const ParameterValue & v,
    const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool i = false)
  { return params_->declare_parameter(n, v, d, i); }
  const ParameterValue & declare_parameter(
    const std::string & n, ParameterType v, const rcl_interfaces::msg::ParameterDescriptor & d = {},
    bool i = false)
  { return params_->declare_parameter(n, v, d, i); }
  template <class T>
  auto declare_parameter(
    const std::string & n, const T & v, const rcl_interfaces::msg::ParameterDescriptor & d = {},
    bool i = false)
  {
    return params_->declare_parameter(n, ParameterValue(v), d, i).template get<T>();
  }
  template <class T>
  auto declare_parameter(
    const std::string & n, const rcl_interfaces::msg::ParameterDescriptor & = {}, bool = false)
  { return params_->get_parameter(n).template get_value<T>(); }
  void undeclare_parameter(const std::string & n) { params_->undeclare_parameter(n); }
  Parameter get_parameter(const std::string & n) const { return params_->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return params_->get_parameter(n, p); }
  template <class T>
  bool get_parameter(const std::string & n, T & out) const
  {
    Parameter p;
    if (!params_->get_parameter(n, p)) return false;
    out = p.get_value<T>();
    return true;
  }
  template <class T>
  bool get_parameter_or(const std::string & n, T & out, const T & alt) const
  { if (get_parameter(n, out)) return true; out = alt; return false; }
  template <class T>
  T get_parameter_or(const std::string & n, const T & alt) const
  { T out; if (get_parameter(n, out)) return out; return alt; }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & n) const { return params_->get_parameters(n); }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p)
  { params_->set_parameters({p}); return {}; }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p)
  { return params_->set_parameters(p); }
  template <class F>
  node_interfaces::OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(F f)
  { return params_->add_on_set_parameters_callback(f); }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true)
  { return std::make_shared<CallbackGroup>(); }
  template <class M>
  typename Publisher<M>::SharedPtr create_publisher(const std::string &, const QoS &)
  { return std::make_shared<Publisher<M>>(); }
  template <class M, class F>
  typename Subscription<M>::SharedPtr create_subscription(const std::string &, const QoS &, F &&)
  { return std::make_shared<Subscription<M>>(); }
  template <class S, class F>
  typename Service<S>::SharedPtr create_service(
    const std::string &, F && f, const QoS & = QoS(10), CallbackGroup::SharedPtr = nullptr)
  { auto s = std::make_shared<Service<S>>(); s->cb = f; return s; }
  template <class S>
  typename Client<S>::SharedPtr create_client(const std::string &) { return std::make_shared<Client<S>>(); }
  template <class D, class F>
  TimerBase::SharedPtr create_wall_timer(D, F &&, CallbackGroup::SharedPtr = nullptr)
  { return std::make_shared<TimerBase>(); }
  template <class D, class F>
  TimerBase::SharedPtr create_timer(D, F &&, CallbackGroup::SharedPtr = nullptr)
  { return std::make_shared<TimerBase>(); }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() { return base_; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() { return params_; }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() { return log_; }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() { return clk_; }
  node_interfaces::NodeBaseInterface::SharedPtr base_ = std::make_shared<node_interfaces::NodeBaseInterface>();
  node_interfaces::NodeParametersInterface::SharedPtr params_ = std::make_shared<node_interfaces::NodeParametersInterface>();
  node_interfaces::NodeLoggingInterface::SharedPtr log_ = std::make_shared<node_interfaces::NodeLoggingInterface>();
  node_interfaces::NodeClockInterface::SharedPtr clk_ = std::make_shared<node_interfaces::NodeClockInterface>();
  NodeOptions opts_;
};

class Node : public NodeCommon, public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & n, const NodeOptions & o = NodeOptions()) : NodeCommon(n, "", o) {}
  Node(const std::string & n, const std::string & ns, const NodeOptions & o = NodeOptions())
  : NodeCommon(n, ns, o) {}
  template <class... A>
  static SharedPtr make_shared(A &&... a) { return std::make_shared<Node>(std::forward<A>(a)...); }
};

struct ExecutorOptions {};
class Executor
{
public:
  using SharedPtr = std::shared_ptr<Executor>;
  using WeakPtr = std::weak_ptr<Executor>;
  virtual ~Executor() = default;
  void add_node(node_interfaces::NodeBaseInterface::SharedPtr, bool = true) { ++nodes; }
  void add_node(std::shared_ptr<Node>, bool = true) { ++nodes; }
  void remove_node(node_interfaces::NodeBaseInterface::SharedPtr, bool = true) { --nodes; }
  void remove_node(std::shared_ptr<Node>, bool = true) { --nodes; }
  void spin() {}
  void spin_some(std::chrono::nanoseconds = std::chrono::nanoseconds(0)) {}
  void cancel() {}
  template <class F>
  FutureReturnCode spin_until_future_complete(const F &, std::chrono::nanoseconds = std::chrono::nanoseconds(-1))
  { return FutureReturnCode::SUCCESS; }
  int nodes = 0;
};
namespace executors
{
class SingleThreadedExecutor : public Executor
{ public: explicit SingleThreadedExecutor(const ExecutorOptions & = {}) {} };
class MultiThreadedExecutor : public Executor
{ public: explicit MultiThreadedExecutor(const ExecutorOptions & = {}, size_t = 0) {} };
}  // namespace executors

inline void init(int, char const * const *) {}
inline bool ok() { return true; }
inline bool shutdown() { return true; }
inline void spin(std::shared_ptr<Node>) {}
}  // namespace rclcpp

#define RCLCPP_VERSION_MAJOR 28
#define RCLCPP_VERSION_MINOR 3
#define RCLCPP_VERSION_PATCH 0
#define RCLCPP_VERSION_GTE(a, b, c) ((a) <= 28)

#define VSTUB_LOG(lg, ...) do { ::rclcpp::stub_logf((lg), __VA_ARGS__); } while (0)
#define VSTUB_LOGS(lg, s) do { std::stringstream vstub_ss; vstub_ss << s; ::rclcpp::stub_logf((lg), "%s", vstub_ss.str().c_str()); } while (0)
#define VSTUB_LOGE(lg, e, ...) do { if (e) { ::rclcpp::stub_logf((lg), __VA_ARGS__); } } while (0)
#define VSTUB_LOGT(lg, c, d, ...) do { ::rclcpp::stub_logf((lg), __VA_ARGS__); } while (0)
#define VSTUB_LOGST(lg, c, d, s) VSTUB_LOGS(lg, s)
#define VSTUB_LOGF(lg, f, ...) do { ::rclcpp::stub_logf((lg), __VA_ARGS__); } while (0)
#define VSTUB_LOGSE(lg, e, s) do { if (e) { VSTUB_LOGS(lg, s); } } while (0)
#define RCLCPP_DEBUG(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_EXPRESSION(...) VSTUB_LOGE(__VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_DEBUG_STREAM_THROTTLE(...) VSTUB_LOGST(__VA_ARGS__)
#define RCLCPP_DEBUG_STREAM_ONCE(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_DEBUG_FUNCTION(...) VSTUB_LOGF(__VA_ARGS__)
#define RCLCPP_DEBUG_SKIPFIRST(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_SKIPFIRST_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_DEBUG_STREAM_EXPRESSION(...) VSTUB_LOGSE(__VA_ARGS__)
#define RCLCPP_INFO(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO_STREAM(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_INFO_ONCE(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(...) VSTUB_LOGE(__VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_INFO_STREAM_THROTTLE(...) VSTUB_LOGST(__VA_ARGS__)
#define RCLCPP_INFO_STREAM_ONCE(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_INFO_FUNCTION(...) VSTUB_LOGF(__VA_ARGS__)
#define RCLCPP_INFO_SKIPFIRST(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO_SKIPFIRST_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_INFO_STREAM_EXPRESSION(...) VSTUB_LOGSE(__VA_ARGS__)
#define RCLCPP_WARN(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN_STREAM(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_WARN_ONCE(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(...) VSTUB_LOGE(__VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_WARN_STREAM_THROTTLE(...) VSTUB_LOGST(__VA_ARGS__)
#define RCLCPP_WARN_STREAM_ONCE(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_WARN_FUNCTION(...) VSTUB_LOGF(__VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_WARN_STREAM_EXPRESSION(...) VSTUB_LOGSE(__VA_ARGS__)
#define RCLCPP_ERROR(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR_STREAM(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_ERROR_ONCE(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(...) VSTUB_LOGE(__VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_ERROR_STREAM_THROTTLE(...) VSTUB_LOGST(__VA_ARGS__)
#define RCLCPP_ERROR_STREAM_ONCE(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_ERROR_FUNCTION(...) VSTUB_LOGF(__VA_ARGS__)
#define RCLCPP_ERROR_SKIPFIRST(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR_SKIPFIRST_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_ERROR_STREAM_EXPRESSION(...) VSTUB_LOGSE(__VA_ARGS__)
#define RCLCPP_FATAL(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_FATAL_STREAM(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_FATAL_ONCE(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_FATAL_EXPRESSION(...) VSTUB_LOGE(__VA_ARGS__)
#define RCLCPP_FATAL_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_FATAL_STREAM_THROTTLE(...) VSTUB_LOGST(__VA_ARGS__)
#define RCLCPP_FATAL_STREAM_ONCE(...) VSTUB_LOGS(__VA_ARGS__)
#define RCLCPP_FATAL_FUNCTION(...) VSTUB_LOGF(__VA_ARGS__)
#define RCLCPP_FATAL_SKIPFIRST(...) VSTUB_LOG(__VA_ARGS__)
#define RCLCPP_FATAL_SKIPFIRST_THROTTLE(...) VSTUB_LOGT(__VA_ARGS__)
#define RCLCPP_FATAL_STREAM_EXPRESSION(...) VSTUB_LOGSE(__VA_ARGS__)
