#pragma once
#include <memory>
#include "rclcpp/rclcpp.hpp"
namespace realtime_tools
{
template <class M>
class RealtimePublisher
{
public:
  using SharedPtr = std::shared_ptr<RealtimePublisher<M>>;
  explicit RealtimePublisher(typename rclcpp::Publisher<M>::SharedPtr p) : p_(p) {}
  bool try_publish(const M & m) { p_->publish(m); return true; }
  bool trylock() { return true; }
  void unlock() {}
  void unlockAndPublish() {}
  M msg_;
  typename rclcpp::Publisher<M>::SharedPtr p_;
};
}  // namespace realtime_tools
