// driver (parsed and interpreted abstractly, never compiled or run): uses of interfaces and loans
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <string>
#include <utility>
#include "hardware_interface/handle.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
namespace verif_tr
{
using hardware_interface::CommandInterface;
using hardware_interface::Handle;
using hardware_interface::LoanedCommandInterface;
using hardware_interface::LoanedStateInterface;
using hardware_interface::StateInterface;
template <typename T>
bool put(CommandInterface & h, int how, const T & v)
{
  if (how == 0) return h.set_value(v, true);
  if (how == 1) return h.set_value(v, false);
  if (how == 2) return h.set_value(v);
  if (how == 3) return h.set_limited_value(v);
  if (how == 4)
  {
    std::unique_lock<std::shared_mutex> l(h.get_mutex());
    return h.set_value(l, v);
  }
  std::unique_lock<std::shared_mutex> l(h.get_mutex(), std::try_to_lock);
  return h.set_value(l, v);
}
template <typename T>
bool take(const Handle & h, int how, T & out)
{
  if (how == 0) return h.get_value(out, true);
  if (how == 1) return h.get_value(out, false);
  if (how == 2)
  {
    const std::optional<T> o = h.template get_optional<T>();
    if (!o.has_value()) return false;
    out = o.value();
    return true;
  }
  std::shared_lock<std::shared_mutex> l(h.get_mutex(), std::try_to_lock);
  const std::optional<T> o = h.template get_optional<T>(l);
  if (!o.has_value()) return false;
  out = o.value();
  return true;
}
template <typename T>
bool handle_put(const std::string & type, int how, const T & v)
{
  CommandInterface h("p", "i", type, "");
  return put<T>(h, how, v);
}
template <typename T>
bool handle_take(const std::string & type, int how, T & out)
{
  const CommandInterface h("p", "i", type, "");
  return take<T>(h, how, out);
}
// what is written is read back, also as another type
template <typename T, typename U>
bool handle_rw(const std::string & type, int w, int r, const T & v, U & out)
{
  CommandInterface h("p", "i", type, "");
  if (!put<T>(h, w, v)) return false;
  return take<U>(h, r, out);
}
bool handle_ptr_rw(double * p, int w, int r, const double & v, double & out)
{
  CommandInterface h("p", "i", p);
  if (!put<double>(h, w, v)) return false;
  return take<double>(h, r, out);
}
bool handle_ptr_take(double * p, int r, double & out)
{
  const CommandInterface h("p", "i", p);
  return take<double>(h, r, out);
}
bool handle_none_put(int w, const double & v)
{
  CommandInterface h(std::string("i"));
  return put<double>(h, w, v);
}
bool handle_none_take(int r, double & out)
{
  const CommandInterface h(std::string("i"));
  return take<double>(h, r, out);
}
template <typename T>
void handle_all(const std::string & s, const T & v, T & out)
{
  (void)handle_put<T>(s, 0, v);
  (void)handle_take<T>(s, 0, out);
  (void)handle_rw<T, T>(s, 0, 0, v, out);
}
template void handle_all<double>(const std::string &, const double &, double &);
template void handle_all<float>(const std::string &, const float &, float &);
template void handle_all<bool>(const std::string &, const bool &, bool &);
template void handle_all<uint8_t>(const std::string &, const uint8_t &, uint8_t &);
template void handle_all<int8_t>(const std::string &, const int8_t &, int8_t &);
template void handle_all<uint16_t>(const std::string &, const uint16_t &, uint16_t &);
template void handle_all<int16_t>(const std::string &, const int16_t &, int16_t &);
template void handle_all<uint32_t>(const std::string &, const uint32_t &, uint32_t &);
template void handle_all<int32_t>(const std::string &, const int32_t &, int32_t &);
template bool handle_rw<bool, double>(const std::string &, int, int, const bool &, double &);

// ---- copies and moves: `how` selects the operation, v1 is stored before, v2 in the source afterwards
template <typename T>
bool transfer(int how, StateInterface & dst0, StateInterface & src)
{
  if (how == 0) static_cast<Handle &>(dst0) = static_cast<const Handle &>(src);
  else static_cast<Handle &>(dst0) = std::move(static_cast<Handle &>(src));
  return true;
}
template <typename T>
void handle_copy_ctor(const std::string & type, const T & v1, const T & v2, const T & v3, T & o1, T & o2, T & o3, T & o4, std::string & n, std::string & t)
{
  StateInterface a("p", "i", type, "");
  (void)a.set_value(v1, true);
  StateInterface b(a);
  (void)b.get_value(o1, true);
  (void)a.set_value(v2, true);
  (void)b.get_value(o2, true);
  (void)b.set_value(v3, true);
  (void)a.get_value(o3, true);
  (void)b.get_value(o4, true);
  n = b.get_name();
  t = b.get_data_type().to_string();
}
template <typename T>
void handle_move_ctor(const std::string & type, const T & v1, const T & v3, T & o1, T & o4, std::string & n, std::string & t)
{
  StateInterface a("p", "i", type, "");
  (void)a.set_value(v1, true);
  StateInterface b(std::move(a));
  (void)b.get_value(o1, true);
  (void)b.set_value(v3, true);
  (void)b.get_value(o4, true);
  n = b.get_name();
  t = b.get_data_type().to_string();
}
template <typename T>
void handle_move_cmd(const std::string & type, const T & v1, const T & v3, T & o1, T & o4, std::string & n, std::string & t)
{
  CommandInterface a("p", "i", type, "");
  (void)a.set_value(v1, true);
  CommandInterface b(std::move(a));
  (void)b.get_value(o1, true);
  (void)b.set_value(v3, true);
  (void)b.get_value(o4, true);
  n = b.get_name();
  t = b.get_data_type().to_string();
}
// the target had a value of its own (of type type0) before
template <typename T>
void handle_copy_asg(const std::string & q, const std::string & j, const std::string & type0, const std::string & type, const T & v1, const T & v2, const T & v3, T & o1, T & o2, T & o3, T & o4, std::string & n, std::string & t)
{
  Handle b(q, j, type0, "");
  Handle a("p", "i", type, "");
  (void)a.set_value(v1, true);
  b = a;
  (void)b.get_value(o1, true);
  (void)a.set_value(v2, true);
  (void)b.get_value(o2, true);
  (void)b.set_value(v3, true);
  (void)a.get_value(o3, true);
  (void)b.get_value(o4, true);
  n = b.get_name();
  t = b.get_data_type().to_string();
}
template <typename T>
void handle_move_asg(const std::string & q, const std::string & j, const std::string & type0, const std::string & type, const T & v1, const T & v3, T & o1, T & o4, std::string & n, std::string & t)
{
  Handle b(q, j, type0, "");
  Handle a("p", "i", type, "");
  (void)a.set_value(v1, true);
  b = std::move(a);
  (void)b.get_value(o1, true);
  (void)b.set_value(v3, true);
  (void)b.get_value(o4, true);
  n = b.get_name();
  t = b.get_data_type().to_string();
}
// the moved-from interface is destroyed and its place reused by another value
template <typename T>
void handle_move_reuse(const std::string & type, const T & v1, const T & v2, T & o1)
{
  StateInterface a("p", "i", type, "");
  (void)a.set_value(v1, true);
  Handle b(std::move(a));
  static_cast<Handle &>(a) = Handle("r", "k", type, "");
  (void)a.set_value(v2, true);
  (void)b.get_value(o1, true);
}
template <typename T>
void handle_self(const std::string & type, int how, const T & v1, T & o1, std::string & n)
{
  Handle a("p", "i", type, "");
  (void)a.set_value(v1, true);
  Handle & b = a;
  if (how == 0) a = b;
  else a = std::move(b);
  (void)a.get_value(o1, true);
  n = a.get_name();
}
template <typename T>
void copies(const std::string & s, const T & v1, const T & v2, const T & v3, T & o1, T & o2, T & o3, T & o4, std::string & n, std::string & t)
{
  handle_copy_ctor<T>(s, v1, v2, v3, o1, o2, o3, o4, n, t);
  handle_move_ctor<T>(s, v1, v3, o1, o4, n, t);
  handle_move_cmd<T>(s, v1, v3, o1, o4, n, t);
  handle_copy_asg<T>(s, s, s, s, v1, v2, v3, o1, o2, o3, o4, n, t);
  handle_move_asg<T>(s, s, s, s, v1, v3, o1, o4, n, t);
  handle_move_reuse<T>(s, v1, v2, o1);
  handle_self<T>(s, 0, v1, o1, n);
}
template void copies<double>(const std::string &, const double &, const double &, const double &, double &, double &, double &, double &, std::string &, std::string &);
template void copies<bool>(const std::string &, const bool &, const bool &, const bool &, bool &, bool &, bool &, bool &, std::string &, std::string &);
template void copies<int32_t>(const std::string &, const int32_t &, const int32_t &, const int32_t &, int32_t &, int32_t &, int32_t &, int32_t &, std::string &, std::string &);
template void copies<float>(const std::string &, const float &, const float &, const float &, float &, float &, float &, float &, std::string &, std::string &);
// externally owned storage stays shared
void handle_ptr_copy(double * p, int how, const double & v1, const double & v2, double & o1, double & o2)
{
  StateInterface a("p", "i", p);
  (void)a.set_value(v1, true);
  if (how == 0)
  {
    StateInterface b(a);
    (void)b.get_value(o1, true);
    (void)b.set_value(v2, true);
    (void)a.get_value(o2, true);
    return;
  }
  if (how == 1)
  {
    StateInterface b(std::move(a));
    (void)b.get_value(o1, true);
    (void)b.set_value(v2, true);
    o2 = *p;
    return;
  }
  Handle b("q", "j", how >= 4 ? "bool" : "double", "");
  if (how == 2 || how == 4)
  {
    static_cast<Handle &>(b) = static_cast<const Handle &>(a);
    (void)b.get_value(o1, true);
    (void)b.set_value(v2, true);
    (void)a.get_value(o2, true);
    return;
  }
  b = std::move(static_cast<Handle &>(a));
  (void)b.get_value(o1, true);
  (void)b.set_value(v2, true);
  o2 = *p;
}

// ---- loans
template <typename T>
bool loan_set(const std::string & type, unsigned int tries, const T & v, T & out)
{
  CommandInterface::SharedPtr c(new CommandInterface("p", "i", type, ""));
  LoanedCommandInterface l(c);
  if (!l.set_value(v, tries)) return false;
  return c->get_value(out, true);
}
template <typename T>
bool loan_get(const std::string & type, unsigned int tries, const T & v, T & out)
{
  CommandInterface::SharedPtr c(new CommandInterface("p", "i", type, ""));
  (void)c->set_value(v, true);
  LoanedCommandInterface l(c);
  const std::optional<T> o = l.template get_optional<T>(tries);
  if (!o.has_value()) return false;
  out = o.value();
  return true;
}
template <typename T>
bool loan_get_state(const std::string & type, unsigned int tries, const T & v, T & out)
{
  StateInterface::SharedPtr c(new StateInterface("p", "i", type, ""));
  (void)c->set_value(v, true);
  LoanedStateInterface l(c);
  const std::optional<T> o = l.template get_optional<T>(tries);
  if (!o.has_value()) return false;
  out = o.value();
  return true;
}
template <typename T>
void loans(const std::string & type, const T & v, T & out)
{
  (void)loan_set<T>(type, 1, v, out);
  (void)loan_get<T>(type, 1, v, out);
  (void)loan_get_state<T>(type, 1, v, out);
}
template void loans<double>(const std::string &, const double &, double &);
template void loans<bool>(const std::string &, const bool &, bool &);
template void loans<int32_t>(const std::string &, const int32_t &, int32_t &);

template <typename L, typename I>
void loan_moves(std::shared_ptr<I> c, std::function<void(void)> release, int moves)
{
  L a(c, std::move(release));
  if (moves == 0) return;
  L b(std::move(a));
  if (moves == 1) return;
  L d(std::move(b));
}
template void loan_moves<LoanedCommandInterface, CommandInterface>(std::shared_ptr<CommandInterface>, std::function<void(void)>, int);
template void loan_moves<LoanedStateInterface, const StateInterface>(std::shared_ptr<const StateInterface>, std::function<void(void)>, int);
// a move into a longer living loan: nothing is released before the last holder goes away
template <typename L, typename I>
void loan_inner(std::shared_ptr<I> c, std::function<void(void)> release, std::function<void(void)> mark)
{
  L * keep = nullptr;
  {
    L a(c, std::move(release));
    keep = new L(std::move(a));
  }
  mark();
  delete keep;
}
template void loan_inner<LoanedCommandInterface, CommandInterface>(std::shared_ptr<CommandInterface>, std::function<void(void)>, std::function<void(void)>);
template void loan_inner<LoanedStateInterface, const StateInterface>(std::shared_ptr<const StateInterface>, std::function<void(void)>, std::function<void(void)>);
template <typename L, typename I>
void loan_plain(std::shared_ptr<I> c)
{
  L a(c);
}
template void loan_plain<LoanedCommandInterface, CommandInterface>(std::shared_ptr<CommandInterface>);
template void loan_plain<LoanedStateInterface, const StateInterface>(std::shared_ptr<const StateInterface>);

// accesses in between do not change when a loan is released
void loan_used(std::shared_ptr<CommandInterface> c, std::function<void(void)> release, const double & v)
{
  LoanedCommandInterface a(c, std::move(release));
  (void)a.set_value(v, 1u);
  LoanedCommandInterface b(std::move(a));
  (void)b.set_value(v, 1u);
  (void)b.template get_optional<double>(1u);
}
void loan_state_used(std::shared_ptr<const StateInterface> c, std::function<void(void)> release)
{
  LoanedStateInterface a(c, std::move(release));
  (void)a.template get_optional<double>(1u);
  LoanedStateInterface b(std::move(a));
  (void)b.template get_optional<double>(1u);
}
// ---- initial values
template <typename T>
void handle_init(const std::string & type, const std::string & init, T & out)
{
  StateInterface h("p", "i", type, init);
  (void)h.get_value(out, true);
}
template void handle_init<double>(const std::string &, const std::string &, double &);
template void handle_init<float>(const std::string &, const std::string &, float &);
template void handle_init<bool>(const std::string &, const std::string &, bool &);
template void handle_init<uint8_t>(const std::string &, const std::string &, uint8_t &);
template void handle_init<int8_t>(const std::string &, const std::string &, int8_t &);
template void handle_init<uint16_t>(const std::string &, const std::string &, uint16_t &);
template void handle_init<int16_t>(const std::string &, const std::string &, int16_t &);
template void handle_init<uint32_t>(const std::string &, const std::string &, uint32_t &);
template void handle_init<int32_t>(const std::string &, const std::string &, int32_t &);

// an interface made from its description
template <typename I, typename T>
void handle_init_desc(const std::string & type, const std::string & init, T & out, std::string & n, std::string & t)
{
  InterfaceInfo info;
  info.name = "i";
  info.data_type = type;
  info.initial_value = init;
  InterfaceDescription d("p", info);
  I h(d);
  (void)h.get_value(out, true);
  n = h.get_name();
  t = h.get_data_type().to_string();
}
template void handle_init_desc<StateInterface, double>(const std::string &, const std::string &, double &, std::string &, std::string &);
template void handle_init_desc<CommandInterface, double>(const std::string &, const std::string &, double &, std::string &, std::string &);
template void handle_init_desc<StateInterface, int32_t>(const std::string &, const std::string &, int32_t &, std::string &, std::string &);
template void handle_init_desc<CommandInterface, int32_t>(const std::string &, const std::string &, int32_t &, std::string &, std::string &);

// ---- limiter
bool limited_set(int how, unsigned int tries, const std::string & type, std::function<double(double, bool &)> lim, const double & v, double & out, bool & flag)
{
  CommandInterface::SharedPtr c(new CommandInterface("p", "i", type, ""));
  c->set_on_set_command_limiter(lim);
  bool r;
  if (how == 0)
  {
    r = c->set_limited_value(v);
  }
  else
  {
    LoanedCommandInterface l(c);
    r = l.set_value(v, tries);
  }
  flag = c->is_limited();
  (void)c->get_value(out, true);
  return r;
}
bool limited_moved(std::function<double(double, bool &)> lim, const double & v, double & out, bool & flag)
{
  CommandInterface a("p", "i", std::string("double"), "");
  a.set_on_set_command_limiter(lim);
  CommandInterface c(std::move(a));
  const bool r = c.set_limited_value(v);
  flag = c.is_limited();
  (void)c.get_value(out, true);
  return r;
}
bool limited_default(const double & v, double & out, bool & flag)
{
  CommandInterface c("p", "i", std::string("double"), "");
  const bool r = c.set_limited_value(v);
  flag = c.is_limited();
  (void)c.get_value(out, true);
  return r;
}
}  // namespace verif_tr
