// driver (parsed and interpreted abstractly, never compiled or run): claiming and releasing interfaces of the resource manager
#include <string>
#include <utility>
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
namespace verif_tr
{
using hardware_interface::LoanedCommandInterface;
using hardware_interface::LoanedStateInterface;
using hardware_interface::ResourceManager;
void probe(int);
// a loan that is claimed and then given back
void rm_claim(ResourceManager & rm, const std::string & key, bool & before, bool & during, bool & after)
{
  before = rm.command_interface_is_claimed(key);
  {
    LoanedCommandInterface loan = rm.claim_command_interface(key);
    probe(1);
    during = rm.command_interface_is_claimed(key);
  }
  probe(2);
  after = rm.command_interface_is_claimed(key);
}
// a second claim while the first loan is held
void rm_claim_two(ResourceManager & rm, const std::string & key, const std::string & other)
{
  LoanedCommandInterface loan = rm.claim_command_interface(key);
  probe(1);
  LoanedCommandInterface second = rm.claim_command_interface(other);
  probe(2);
}
// a second claim after the first loan was returned
void rm_claim_again(ResourceManager & rm, const std::string & key)
{
  {
    LoanedCommandInterface loan = rm.claim_command_interface(key);
  }
  probe(1);
  LoanedCommandInterface second = rm.claim_command_interface(key);
  probe(2);
}
void rm_claim_state(ResourceManager & rm, const std::string & key)
{
  LoanedStateInterface loan = rm.claim_state_interface(key);
  probe(1);
  LoanedStateInterface second = rm.claim_state_interface(key);
  probe(2);
}
}  // namespace verif_tr
