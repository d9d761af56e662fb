// driver (parsed and interpreted abstractly, never compiled or run): the conversions of a configured transmission
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>
#include <set>
#include <sstream>
#include <iterator>
#include <fmt/format.h>
#include "transmission_interface/differential_transmission.hpp"
namespace verif_tr
{
using transmission_interface::ActuatorHandle;
using transmission_interface::JointHandle;
using transmission_interface::DifferentialTransmission;
void diff_a2j(
  const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off,
  const std::vector<JointHandle> & j, const std::vector<ActuatorHandle> & a)
{
  DifferentialTransmission t(ar, jr, off);
  t.configure(j, a);
  t.actuator_to_joint();
}
void diff_j2a(
  const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off,
  const std::vector<JointHandle> & j, const std::vector<ActuatorHandle> & a)
{
  DifferentialTransmission t(ar, jr, off);
  t.configure(j, a);
  t.joint_to_actuator();
}
void diff_make(const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off)
{
  DifferentialTransmission t(ar, jr, off);
}
}  // namespace verif_tr
#include "transmission_interface/differential_transmission_loader.hpp"
namespace verif_tr
{
void diff_load(
  const hardware_interface::TransmissionInfo & info, const std::vector<JointHandle> & j,
  const std::vector<ActuatorHandle> & a)
{
  transmission_interface::DifferentialTransmissionLoader l;
  auto t = l.load(info);
  if (t)
  {
    t->configure(j, a);
    t->actuator_to_joint();
  }
}
}  // namespace verif_tr
