// driver (parsed and interpreted abstractly, never compiled or run): the conversions of a configured transmission
#include <string>
#include <vector>
#include "transmission_interface/simple_transmission.hpp"
namespace verif_tr
{
using transmission_interface::ActuatorHandle;
using transmission_interface::JointHandle;
using transmission_interface::SimpleTransmission;
void simple_a2j(double r, double off, const std::vector<JointHandle> & j, const std::vector<ActuatorHandle> & a)
{
  SimpleTransmission t(r, off);
  t.configure(j, a);
  t.actuator_to_joint();
}
void simple_j2a(double r, double off, const std::vector<JointHandle> & j, const std::vector<ActuatorHandle> & a)
{
  SimpleTransmission t(r, off);
  t.configure(j, a);
  t.joint_to_actuator();
}
void simple_make(double r, double off) { SimpleTransmission t(r, off); }
}  // namespace verif_tr
#include "transmission_interface/simple_transmission_loader.hpp"
namespace verif_tr
{
void simple_load(
  const hardware_interface::TransmissionInfo & info, const std::vector<JointHandle> & j,
  const std::vector<ActuatorHandle> & a)
{
  transmission_interface::SimpleTransmissionLoader l;
  auto t = l.load(info);
  if (t)
  {
    t->configure(j, a);
    t->actuator_to_joint();
  }
}
}  // namespace verif_tr
