// driver (parsed and interpreted abstractly, never compiled or run): lifecycle and cyclic access of hardware components
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include "hardware_interface/hardware_component.hpp"
#include "hardware_interface/hardware_component_interface.hpp"
#include "hardware_interface/types/hardware_component_params.hpp"
#include "rclcpp/rclcpp.hpp"
#include "rclcpp_lifecycle/state.hpp"
namespace verif_tr
{
using hardware_interface::HardwareComponent;
using hardware_interface::HardwareComponentInterface;
using hardware_interface::HardwareComponentParams;
using hardware_interface::return_type;
void mark();
uint8_t hw_transition(HardwareComponent & c, int op, const HardwareComponentParams & params)
{
  if (op == 0) return c.initialize(params).id();
  if (op == 1) return c.configure().id();
  if (op == 2) return c.cleanup().id();
  if (op == 3) return c.shutdown().id();
  if (op == 4) return c.activate().id();
  if (op == 5) return c.deactivate().id();
  return c.error().id();
}
// one request in an arbitrary state
void hw_step(
  HardwareComponentInterface * p, uint8_t start, const std::string & label, int op, const HardwareComponentParams & params, uint8_t & ret,
  uint8_t & after, uint8_t & cached, std::string & name)
{
  HardwareComponent c{std::unique_ptr<HardwareComponentInterface>(p)};
  p->set_lifecycle_state(rclcpp_lifecycle::State(start, label));
  ret = hw_transition(c, op, params);
  after = p->get_lifecycle_state().id();
  cached = p->get_lifecycle_id();
  name = p->get_lifecycle_state().label();
}
// one cyclic access in an arbitrary state
return_type hw_cycle(
  HardwareComponentInterface * p, uint8_t start, const std::string & label, int op, const rclcpp::Time & t, const rclcpp::Duration & d, uint8_t & after)
{
  HardwareComponent c{std::unique_ptr<HardwareComponentInterface>(p)};
  p->set_lifecycle_state(rclcpp_lifecycle::State(start, label));
  const return_type r = op == 0 ? c.read(t, d) : c.write(t, d);
  after = p->get_lifecycle_id();
  return r;
}
// a component with an asynchronous worker: the state is set after the worker was created
return_type hw_async(
  HardwareComponentInterface * p, const hardware_interface::HardwareInfo & info, uint8_t start, const std::string & label, const rclcpp::Time & t,
  const rclcpp::Duration & d, uint8_t & after)
{
  HardwareComponentParams params;
  params.hardware_info = info;
  params.hardware_info.is_async = true;
  params.hardware_info.hardware_parameters.clear();
  HardwareComponent c{std::unique_ptr<HardwareComponentInterface>(p)};
  p->set_lifecycle_state(rclcpp_lifecycle::State(lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN, "unknown"));
  (void)c.initialize(params);
  mark();
  p->set_lifecycle_state(rclcpp_lifecycle::State(start, label));
  const return_type r = c.read(t, d);
  const return_type w = c.write(t, d);
  after = p->get_lifecycle_id();
  return r == return_type::OK ? w : r;
}
// results of the worker are seen one cycle later, and only once
void hw_async_seq(
  HardwareComponentInterface * p, const hardware_interface::HardwareInfo & info, const std::string & type, int op, const rclcpp::Time & t, const rclcpp::Duration & d,
  return_type & r1, return_type & r2, return_type & r3, uint8_t & after)
{
  HardwareComponentParams params;
  params.hardware_info = info;
  params.hardware_info.is_async = true;
  params.hardware_info.type = type;
  params.hardware_info.async_params.print_warnings = false;
  params.hardware_info.hardware_parameters.clear();
  HardwareComponent c{std::unique_ptr<HardwareComponentInterface>(p)};
  p->set_lifecycle_state(rclcpp_lifecycle::State(lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN, "unknown"));
  (void)c.initialize(params);
  p->prepare_for_activation();
  p->set_lifecycle_state(rclcpp_lifecycle::State(lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE, "active"));
  r1 = c.read(t, d);
  if (op == 1)
  {
    mark();
    r2 = c.write(t, d);
    after = p->get_lifecycle_id();
    return;
  }
  mark();
  r2 = c.read(t, d);
  after = p->get_lifecycle_id();
  if (after == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
  {
    mark();
    (void)c.configure();
    if (op == 2) (void)c.activate();
    r3 = c.read(t, d);
  }
}
// destroying a component
void hw_destroy(HardwareComponentInterface * p)
{
  HardwareComponent c{std::unique_ptr<HardwareComponentInterface>(p)};
}
}  // namespace verif_tr
