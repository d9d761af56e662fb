// Translation unit that makes the header-only templates of the repository concrete, so that the
// extractor sees their instantiated (type-checked) bodies.  It is parsed, never linked nor run.
#include <limits>
#include <cmath>
#include <unordered_set>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include "rclcpp/rclcpp.hpp"
#include "hardware_interface/handle.hpp"
#include "hardware_interface/helpers.hpp"
#include "hardware_interface/hardware_info.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "hardware_interface/hardware_component_interface.hpp"
#include "hardware_interface/lexical_casts.hpp"
#include "hardware_interface/lifecycle_helpers.hpp"
#include "hardware_interface/types/statistics_types.hpp"
#include "hardware_interface/introspection.hpp"
#include "controller_interface/helpers.hpp"
#include "controller_interface/tf_prefix.hpp"
#include "controller_interface/controller_interface_base.hpp"
#include "semantic_components/range_sensor.hpp"
#include "semantic_components/led_rgb_device.hpp"
#include "semantic_components/gps_sensor.hpp"
#include "semantic_components/force_torque_sensor.hpp"
#include "semantic_components/pose_sensor.hpp"
#include "semantic_components/magnetic_field_sensor.hpp"
#include "semantic_components/imu_sensor.hpp"
#include "joint_limits/joint_limits_rosparam.hpp"
#include "joint_limits/joint_limits_urdf.hpp"
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "joint_limits/data_structures.hpp"
#include "transmission_interface/accessor.hpp"
#include "transmission_interface/transmission_interface_exception.hpp"

namespace verif_inst
{
using hardware_interface::Handle;
template <typename T>
void handle_uses(hardware_interface::CommandInterface & c, hardware_interface::StateInterface & s, T v)
{
  std::shared_lock<std::shared_mutex> sl(s.get_mutex());
  std::unique_lock<std::shared_mutex> ul(c.get_mutex());
  (void)s.template get_optional<T>();
  (void)s.template get_optional<T>(sl);
  (void)s.template get_value<T>(v, true);
  (void)c.template set_value<T>(v, true);
  (void)c.template set_value<T>(v);
  (void)c.template set_value<T>(ul, v);
  (void)c.template set_limited_value<T>(v);
}
template void handle_uses<double>(hardware_interface::CommandInterface &, hardware_interface::StateInterface &, double);
template void handle_uses<bool>(hardware_interface::CommandInterface &, hardware_interface::StateInterface &, bool);
template void handle_uses<float>(hardware_interface::CommandInterface &, hardware_interface::StateInterface &, float);
template void handle_uses<int32_t>(hardware_interface::CommandInterface &, hardware_interface::StateInterface &, int32_t);
template <typename T>
void loaned_uses(hardware_interface::LoanedCommandInterface & c, hardware_interface::LoanedStateInterface & s, T v)
{
  (void)c.template set_value<T>(v);
  (void)c.template get_optional<T>();
  (void)s.template get_optional<T>();
}
template void loaned_uses<double>(hardware_interface::LoanedCommandInterface &, hardware_interface::LoanedStateInterface &, double);
template void loaned_uses<bool>(hardware_interface::LoanedCommandInterface &, hardware_interface::LoanedStateInterface &, bool);
template void loaned_uses<int32_t>(hardware_interface::LoanedCommandInterface &, hardware_interface::LoanedStateInterface &, int32_t);
template <typename T>
void component_uses(hardware_interface::HardwareComponentInterface & h, T v, T w)
{
  hardware_interface::StateInterface::SharedPtr sp;
  hardware_interface::CommandInterface::SharedPtr cp;
  (void)h.template set_state<T>(sp, v, true);
  (void)h.template get_state<T>(sp, w, true);
  (void)h.template set_command<T>(cp, v, true);
  (void)h.template get_command<T>(cp, w, true);
  h.template set_state<T>(std::string("x"), v);
  (void)h.template get_state<T>(std::string("x"));
  h.template set_command<T>(std::string("x"), v);
  (void)h.template get_command<T>(std::string("x"));
}
template void component_uses<double>(hardware_interface::HardwareComponentInterface &, double, double);
template void component_uses<bool>(hardware_interface::HardwareComponentInterface &, bool, bool);

void helper_uses()
{
  std::vector<std::string> v;
  std::string s;
  std::map<std::string, double> m;
  std::unordered_map<std::string, double> um;
  (void)ros2_control::get_item_iterator(v, s);
  (void)ros2_control::get_item_iterator(m, s);
  (void)ros2_control::get_item_iterator(um, s);
  (void)ros2_control::has_item(v, s);
  (void)ros2_control::has_item(m, s);
  (void)ros2_control::has_item(um, s);
  ros2_control::add_item(v, s);
  ros2_control::add_items(v, v);
  (void)ros2_control::remove_item(v, s);
  (void)ros2_control::has_any_item(v, v);
  (void)ros2_control::has_all_items(v, v);
  (void)ros2_control::has_any_item(m, v);
  (void)ros2_control::has_all_items(m, v);
  (void)ros2_control::has_any_item(um, v);
  (void)ros2_control::has_all_items(um, v);
  (void)ros2_control::is_unique(v);
  std::vector<hardware_interface::LoanedStateInterface> ls;
  std::vector<hardware_interface::LoanedCommandInterface> lc;
  std::vector<std::reference_wrapper<hardware_interface::LoanedStateInterface>> lsr;
  std::vector<std::reference_wrapper<hardware_interface::LoanedCommandInterface>> lcr;
  (void)controller_interface::get_ordered_interfaces(ls, v, s, lsr);
  (void)controller_interface::get_ordered_interfaces(lc, v, s, lcr);
  (void)controller_interface::interface_list_contains_interface_type(v, s);
  (void)hardware_interface::parse_array<std::string>(s);
  (void)hardware_interface::parse_array<int>(s);
  (void)hardware_interface::parse_array<double>(s);
  (void)hardware_interface::parse_array<bool>(s);
}
using GpsNoCov = semantic_components::GPSSensor<semantic_components::GPSSensorOption::WithoutCovariance>;
using GpsCov = semantic_components::GPSSensor<semantic_components::GPSSensorOption::WithCovariance>;
void semantic_uses(
  GpsNoCov & a, GpsCov & b, semantic_components::RangeSensor & r, semantic_components::LedRgbDevice & l,
  semantic_components::ForceTorqueSensor & f, semantic_components::PoseSensor & p,
  semantic_components::MagneticFieldSensor & mg, semantic_components::IMUSensor & i,
  std::vector<hardware_interface::LoanedStateInterface> & ls,
  std::vector<hardware_interface::LoanedCommandInterface> & lc)
{
  GpsNoCov ga{"x"};
  GpsCov gb{"x"};
  sensor_msgs::msg::NavSatFix nf;
  (void)a.get_values_as_message(nf);
  (void)b.get_values_as_message(nf);
  (void)a.get_status(); (void)a.get_service(); (void)a.get_latitude(); (void)a.get_longitude(); (void)a.get_altitude();
  (void)b.get_status(); (void)b.get_service(); (void)b.get_latitude(); (void)b.get_longitude(); (void)b.get_altitude();
  (void)b.get_covariance();
  (void)r.assign_loaned_state_interfaces(ls); r.release_interfaces(); (void)r.get_state_interface_names();
  (void)l.assign_loaned_command_interfaces(lc); l.release_interfaces(); (void)l.get_command_interface_names();
  (void)f; (void)p; (void)mg; (void)i; (void)ga; (void)gb;
}
}  // namespace verif_inst
template class semantic_components::GPSSensor<semantic_components::GPSSensorOption::WithoutCovariance>;
template class semantic_components::SemanticComponentInterface<sensor_msgs::msg::Imu>;
template class semantic_components::SemanticComponentInterface<sensor_msgs::msg::NavSatFix>;
template class semantic_components::SemanticComponentInterface<sensor_msgs::msg::Range>;
template class semantic_components::SemanticComponentInterface<sensor_msgs::msg::MagneticField>;
template class semantic_components::SemanticComponentInterface<geometry_msgs::msg::Wrench>;
template class semantic_components::SemanticComponentInterface<geometry_msgs::msg::Pose>;
template class semantic_components::SemanticComponentCommandInterface<std_msgs::msg::ColorRGBA>;
template class joint_limits::JointLimiterInterface<joint_limits::JointControlInterfacesData>;
