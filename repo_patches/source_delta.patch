From 15d4adeb638137d94cc310717e7656c574754468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 01/40] fix: reject real numbers written with two signs ('+-1')

---
 hardware_interface/src/lexical_casts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/lexical_casts.cpp b/hardware_interface/src/lexical_casts.cpp
index 5afd197..698bc10 100644
--- a/hardware_interface/src/lexical_casts.cpp
+++ b/hardware_interface/src/lexical_casts.cpp
@@ -44,7 +44,8 @@ std::optional<FloatingPointType> parse_floating_point_with_from_chars(const std:
   if (*begin == '+')
   {
     ++begin;
-    if (begin == end)
+    // a second sign is not part of a number, but std::from_chars would accept "-"
+    if (begin == end || *begin == '-')
     {
       return std::nullopt;
     }
-- 
2.43.0


From 07535e0af30aa5a5f21ce047314affd0a6c88caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 02/40] fix: do not wrap negative numbers when parsing unsigned
 integers

---
 .../include/hardware_interface/lexical_casts.hpp              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 9826f19..b8596ad 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -83,7 +83,9 @@ T stoui_generic(const std::string & s)
   {
     throw std::invalid_argument("Invalid characters in string");
   }
-  if (v > std::numeric_limits<T>::max())
+  // std::stoul wraps negative numbers around instead of rejecting them
+  const bool is_negative = v != 0 && s.find('-') != std::string::npos;
+  if (is_negative || v > std::numeric_limits<T>::max())
   {
     throw std::out_of_range("value not in range of target type");
   }
-- 
2.43.0


From f8b1965e610a8c87b4bc31ec0cc47b5229eb1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 03/40] fix: reject array elements an integer type cannot
 represent

---
 .../include/hardware_interface/lexical_casts.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index b8596ad..daf4006 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -15,6 +15,7 @@
 #ifndef HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 #define HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <regex>
@@ -167,8 +168,19 @@ std::vector<T> parse_array(const std::string & array_string)
     {
       try
       {
-        const T value = static_cast<T>(hardware_interface::stod(value_str));
-        result.push_back(value);
+        const double value = hardware_interface::stod(value_str);
+        if constexpr (std::is_integral_v<T>)
+        {
+          // a conversion that changes the value must not go unnoticed
+          if (
+            value < static_cast<double>(std::numeric_limits<T>::min()) ||
+            value > static_cast<double>(std::numeric_limits<T>::max()) ||
+            value != std::trunc(value))
+          {
+            throw std::out_of_range("value not representable in target type");
+          }
+        }
+        result.push_back(static_cast<T>(value));
       }
       catch (const std::exception &)
       {
-- 
2.43.0


From a32294051962c1e10dfba4b8aa0face9c94872b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 04/40] fix: remove every leading separator of a tf prefix and
 accept an empty namespace

---
 .../include/controller_interface/tf_prefix.hpp           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/controller_interface/include/controller_interface/tf_prefix.hpp b/controller_interface/include/controller_interface/tf_prefix.hpp
index 3f769b1..5981f2a 100644
--- a/controller_interface/include/controller_interface/tf_prefix.hpp
+++ b/controller_interface/include/controller_interface/tf_prefix.hpp
@@ -40,15 +40,12 @@ inline std::string resolve_tf_prefix(const std::string & prefix, const std::stri
   }
 
   // ensure trailing '/'
-  if (nprefix.back() != '/')
+  if (nprefix.empty() || nprefix.back() != '/')
   {
     nprefix.push_back('/');
   }
-  // remove leading '/'
-  if (nprefix.front() == '/')
-  {
-    nprefix.erase(0, 1);
-  }
+  // remove leading '/', several with a root namespace ("~/robot" in "/")
+  nprefix.erase(0, nprefix.find_first_not_of('/'));
   return nprefix;
 }
 }  // namespace controller_interface
-- 
2.43.0


From 0b4b14bda6319fb8053301cf1a4b09649ff4a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 05/40] fix: do not lose a limit change to a later parameter of
 the same update

---
 .../joint_limits/joint_limits_rosparam.hpp    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 6009cb9..e584a9a 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -452,37 +452,37 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".min_position")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_position")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_velocity")
       {
-        changed = updated_limits.max_velocity != parameter.get_value<double>();
+        changed |= updated_limits.max_velocity != parameter.get_value<double>();
         updated_limits.max_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_acceleration")
       {
-        changed = updated_limits.max_acceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_acceleration != parameter.get_value<double>();
         updated_limits.max_acceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_deceleration")
       {
-        changed = updated_limits.max_deceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_deceleration != parameter.get_value<double>();
         updated_limits.max_deceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_jerk")
       {
-        changed = updated_limits.max_jerk != parameter.get_value<double>();
+        changed |= updated_limits.max_jerk != parameter.get_value<double>();
         updated_limits.max_jerk = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_effort")
       {
-        changed = updated_limits.max_effort != parameter.get_value<double>();
+        changed |= updated_limits.max_effort != parameter.get_value<double>();
         updated_limits.max_effort = parameter.get_value<double>();
       }
     }
@@ -818,22 +818,22 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".k_position")
       {
-        changed = updated_limits.k_position != parameter.get_value<double>();
+        changed |= updated_limits.k_position != parameter.get_value<double>();
         updated_limits.k_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".k_velocity")
       {
-        changed = updated_limits.k_velocity != parameter.get_value<double>();
+        changed |= updated_limits.k_velocity != parameter.get_value<double>();
         updated_limits.k_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_lower_limit")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_upper_limit")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
     }
-- 
2.43.0


From 2b4ecc7834031540a25119c9a64aa0926c0509f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 06/40] fix: report disabling position limits as a change of
 the limits

---
 joint_limits/include/joint_limits/joint_limits_rosparam.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index e584a9a..3f4d11b 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -525,6 +525,10 @@ inline bool check_for_limits_update(
             changed = true;
           }
         }
+        else
+        {
+          changed = true;
+        }
       }
       else if (param_name == param_base_name + ".has_velocity_limits")
       {
-- 
2.43.0


From ead2c7b39d011d6727d3953f32070a9c1252256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 07/40] fix: keep the velocity window of a joint within its
 velocity limits

---
 joint_limits/src/joint_limits_helpers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..2da6e17 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -193,6 +193,10 @@ VelocityLimits compute_velocity_limits(
     vel_limits.upper_limit = std::min(prev_command_vel.value() + delta_vel, vel_limits.upper_limit);
   }
   internal::check_and_swap_limits(vel_limits.lower_limit, vel_limits.upper_limit);
+  // The previous command can be out of the velocity limits, but the new one never should be
+  const double max_vel = std::fabs(limits.max_velocity);
+  vel_limits.lower_limit = std::clamp(vel_limits.lower_limit, -max_vel, max_vel);
+  vel_limits.upper_limit = std::clamp(vel_limits.upper_limit, -max_vel, max_vel);
   return vel_limits;
 }
 
-- 
2.43.0


From a40d2c055095d82b9b0d34028a4eac2c43a0165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 08/40] fix: keep the windows of the soft joint limiter ordered
 and within the hard limits

---
 joint_limits/src/joint_soft_limiter.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..993e1a0 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -198,6 +198,12 @@ bool JointSoftLimiter::on_enforce(
     {
       pos_low = vel_clamped_pos_low;
       pos_high = vel_clamped_pos_high;
+      if (hard_limits.has_position_limits)
+      {
+        // the fallback has to respect the hard position limits as well
+        pos_low = std::clamp(pos_low, hard_limits.min_position, hard_limits.max_position);
+        pos_high = std::clamp(pos_high, hard_limits.min_position, hard_limits.max_position);
+      }
     }
 
     limits_enforced = is_limited(desired.position.value(), pos_low, pos_high);
@@ -220,8 +226,16 @@ bool JointSoftLimiter::on_enforce(
         std::min(actual.velocity.value() + hard_limits.max_acceleration * dt_seconds, soft_max_vel);
     }
 
-    soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
-    soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // The soft limits can be out of the hard ones (or empty) when the actual velocity is out of the
+    // limits, so keep both bounds within the hard limits and in order
+    soft_min_vel =
+      std::clamp(soft_min_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    soft_max_vel =
+      std::clamp(soft_max_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    if (soft_min_vel > soft_max_vel)
+    {
+      std::swap(soft_min_vel, soft_max_vel);
+    }
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
-- 
2.43.0


From 80474360193711f73a6d94f15e2a363aca16b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 09/40] fix: do not limit the jerk of joints without jerk
 limits

---
 joint_limits/src/joint_range_limiter.cpp | 2 +-
 joint_limits/src/joint_soft_limiter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 5b94914..6d775a6 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -166,7 +166,7 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (joint_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -joint_limits.max_jerk, joint_limits.max_jerk) ||
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 993e1a0..4a0bf42 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -282,7 +282,7 @@ bool JointSoftLimiter::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (hard_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -hard_limits.max_jerk, hard_limits.max_jerk) ||
-- 
2.43.0


From a4481ee06394220aa3c43e4ff271db4f68ee2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 10/40] fix: let moved interfaces refer to their own value

---
 .../include/hardware_interface/handle.hpp          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..1b9104b 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -278,7 +278,10 @@ public:
 
   Handle & operator=(Handle && other)
   {
-    swap(*this, other);
+    if (this != &other)
+    {
+      swap(*this, other);
+    }
     return *this;
   }
 
@@ -616,6 +619,15 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // a value stored in the handle itself has to be accessed in its new place
+    if (!std::holds_alternative<std::monostate>(first.value_))
+    {
+      first.value_ptr_ = std::get_if<double>(&first.value_);
+    }
+    if (!std::holds_alternative<std::monostate>(second.value_))
+    {
+      second.value_ptr_ = std::get_if<double>(&second.value_);
+    }
   }
 
 protected:
-- 
2.43.0


From 53665dd9dbaaad5fb536e0be3a2aedbb78e89c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 11/40] fix: bound the number of tries to set a command also
 when it is zero

---
 .../include/hardware_interface/loaned_command_interface.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
index 3decdb6..5ecc5e4 100644
--- a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
+++ b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
@@ -106,7 +106,7 @@ public:
     {
       ++set_value_statistics_.failed_counter;
       ++nr_tries;
-      if (nr_tries == max_tries)
+      if (nr_tries >= max_tries)
       {
         ++set_value_statistics_.timeout_counter;
         return false;
-- 
2.43.0


From 39444aabe51aad1dd86046505e4fd87ac2686ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 12/40] fix: do not report a handled asynchronous error again
 after configuring

---
 hardware_interface/src/hardware_component.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..56ba675 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -85,6 +85,8 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
   {
     impl_->pause_async_operations();
+    // results of asynchronous cycles before the (re)configuration have already been handled
+    impl_->prepare_for_activation();
     switch (impl_->on_configure(impl_->get_lifecycle_state()))
     {
       case CallbackReturn::SUCCESS:
-- 
2.43.0


From 79635279a55523eec2be0161940bcad4db1e8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 13/40] fix: keep a write error when a later component asks for
 deactivation

---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..298376a 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2590,7 +2590,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // an error of another component must not be hidden by a deactivation request
+        if (read_write_status.result != return_type::ERROR)
+        {
+          read_write_status.result = ret_val;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From c7661e06b0cd0a70842327a7acf6c76632ce331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 14/40] fix: make interfaces unavailable when a failed
 transition leaves the hardware unconfigured or finalized

---
 hardware_interface/src/resource_manager.cpp | 30 +++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 298376a..62e39e1 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -442,6 +442,20 @@ public:
     }
   }
 
+  /// Makes the interfaces of a hardware unavailable if a failed transition left it unconfigured
+  /// or finalized.
+  template <class HardwareT>
+  void remove_interfaces_if_not_configured(HardwareT & hardware)
+  {
+    const auto state_id = hardware.get_lifecycle_id();
+    if (
+      state_id != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE &&
+      state_id != lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
+  }
+
   template <class HardwareT>
   bool cleanup_hardware(HardwareT & hardware)
   {
@@ -471,6 +485,10 @@ public:
     {
       remove_all_hardware_interfaces_from_available_list(hardware.get_name());
     }
+    else
+    {
+      remove_interfaces_if_not_configured(hardware);
+    }
     if (!hardware.get_group_name().empty())
     {
       hw_group_state_[hardware.get_group_name()] = return_type::OK;
@@ -515,6 +533,10 @@ public:
         hw_group_state_[hardware.get_group_name()] = return_type::OK;
       }
     }
+    else
+    {
+      remove_interfaces_if_not_configured(hardware);
+    }
     return result;
   }
 
@@ -542,6 +564,10 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    if (!result)
+    {
+      remove_interfaces_if_not_configured(hardware);
+    }
     return result;
   }
 
@@ -575,6 +601,10 @@ public:
       // TODO(destogl): make all command interfaces unavailable that should be present only
       // when active (currently are all available) also at inactive
     }
+    else
+    {
+      remove_interfaces_if_not_configured(hardware);
+    }
     return result;
   }
 
-- 
2.43.0


From cd2c70c336c0cb0ebfae76fce564691c22351ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 15/40] fix: contain exceptions of a hardware's error handling
 in the control cycle

---
 hardware_interface/src/resource_manager.cpp | 28 +++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 62e39e1..9887dbc 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -608,6 +608,30 @@ public:
     return result;
   }
 
+  /// Runs the error handling of a hardware whose cyclic access failed, containing its exceptions.
+  template <class HardwareT>
+  void trigger_error_handling(HardwareT & hardware)
+  {
+    try
+    {
+      hardware.error();
+    }
+    catch (const std::exception & ex)
+    {
+      RCLCPP_ERROR(
+        get_logger(), "Exception of type : %s occurred in the error handling of hardware '%s': %s",
+        typeid(ex).name(), hardware.get_name().c_str(), ex.what());
+      handle_exception_ ? void() : throw;
+    }
+    catch (...)
+    {
+      RCLCPP_ERROR(
+        get_logger(), "Unknown exception occurred in the error handling of hardware '%s'",
+        hardware.get_name().c_str());
+      handle_exception_ ? void() : throw;
+    }
+  }
+
   template <class HardwareT>
   bool set_component_state(HardwareT & hardware, const rclcpp_lifecycle::State & target_state)
   {
@@ -2511,7 +2535,7 @@ HardwareReadWriteStatus ResourceManager::read(
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
       if (ret_val != return_type::OK)
       {
-        component.error();
+        resource_storage_->trigger_error_handling(component);
         read_write_status.result = return_type::ERROR;
         read_write_status.failed_hardware_names.push_back(component_name);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
@@ -2610,7 +2634,7 @@ HardwareReadWriteStatus ResourceManager::write(
       }
       if (ret_val == return_type::ERROR)
       {
-        component.error();
+        resource_storage_->trigger_error_handling(component);
         read_write_status.result = ret_val;
         read_write_status.failed_hardware_names.push_back(component_name);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
-- 
2.43.0


From d725a45b3145770dc1042b54cb80e7675d2317bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 16/40] fix: a component that raises fails its hardware group
 like one that returns an error

---
 hardware_interface/src/resource_manager.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 9887dbc..084f21d 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1406,7 +1406,8 @@ public:
     const std::string & group_name, const return_type & value)
   {
     // This is for the components that has no configured group
-    if (group_name.empty())
+    const auto group_it = hw_group_state_.find(group_name);
+    if (group_name.empty() || group_it == hw_group_state_.end())
     {
       return value;
     }
@@ -1414,9 +1415,9 @@ public:
     // to the respective return type
     if (value != return_type::OK)
     {
-      hw_group_state_.at(group_name) = value;
+      group_it->second = value;
     }
-    return hw_group_state_.at(group_name);
+    return group_it->second;
   }
 
   /// Gets the logger for the resource storage
@@ -2510,9 +2511,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2530,6 +2528,8 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      const auto component_group = component.get_group_name();
+      ret_val = resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2612,9 +2612,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2632,6 +2629,8 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      const auto component_group = component.get_group_name();
+      ret_val = resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       if (ret_val == return_type::ERROR)
       {
         resource_storage_->trigger_error_handling(component);
-- 
2.43.0


From d1baea48558a186242d4c5c62d61cca1da0f0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 17/40] fix: do not hold the interfaces lock while shutting
 down components

shutdown_components held resource_interfaces_lock_ while set_component_state
acquired resources_lock_ and joint_limiters_lock_ (and, via the state switch
callback, the controller list's lock); loading components and unloading
controllers take them in the opposite order, so a shutdown meanwhile could
deadlock. hardware_info_map_ is filled under resources_lock_.
---
 hardware_interface/src/resource_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 084f21d..8e71c07 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1566,7 +1566,7 @@ ResourceManager::ResourceManager(
 
 bool ResourceManager::shutdown_components()
 {
-  std::unique_lock<std::recursive_mutex> guard(resource_interfaces_lock_);
+  std::unique_lock<std::recursive_mutex> guard(resources_lock_);
   bool shutdown_status = true;
   for (auto const & hw_info : resource_storage_->hardware_info_map_)
   {
-- 
2.43.0


From 9632fb807d00b43e108cf742c84d7db02b744ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 18/40] fix: use the control loop's controller list when
 hardware asks for deactivation

write() locked the controller list blockingly (and copied it); a concurrent
switch request holds that lock while it waits for the control loop, so the
loop stalled until the request timed out.
---
 controller_manager/src/controller_manager.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..2cdd991 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3639,7 +3639,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
     rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
     for (const auto & hardware_name : failed_hardware_names)
     {
@@ -3647,10 +3648,10 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       for (const auto & controller : controllers)
       {
         auto controller_spec = std::find_if(
-          loaded_controllers.begin(), loaded_controllers.end(),
+          rt_controller_list.begin(), rt_controller_list.end(),
           [&](const controller_manager::ControllerSpec & spec)
           { return spec.c->get_name() == controller; });
-        if (controller_spec == loaded_controllers.end())
+        if (controller_spec == rt_controller_list.end())
         {
           RCLCPP_WARN(
             get_logger(),
@@ -3674,9 +3675,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
-
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-- 
2.43.0


From 33efcc750a99c78d3f08b475fb24d203fca0a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 19/40] fix: publish the activity from the control loop without
 locking the controller list

After a failed update the control loop locked the controller list to publish
the activity. Threads changing the list hold that lock while they wait for the
control loop to move to the new list, so both waited for each other.
---
 .../controller_manager/controller_manager.hpp |  7 +++++
 controller_manager/src/controller_manager.cpp | 30 ++++++++++---------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..00e32fe 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -537,6 +537,13 @@ private:
    */
   void publish_activity();
 
+  /// Publish the activity message with the states of the given controllers.
+  /**
+   * For the control loop, which must not wait for the lock of the controller list but can use its
+   * own list.
+   */
+  void publish_activity_of_controllers(const std::vector<ControllerSpec> & controllers);
+
   void controller_activity_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
 
   void hardware_components_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2cdd991..0a198a4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3577,7 +3577,7 @@ controller_interface::return_type ControllerManager::update(
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
     }
     // To publish the activity of the failing controllers and the fallback controllers
-    publish_activity();
+    publish_activity_of_controllers(rt_controller_list);
   }
   resource_manager_->enforce_command_limits(period);
 
@@ -4284,23 +4284,25 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
 }
 
 void ControllerManager::publish_activity()
+{
+  // lock controllers
+  std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
+    rt_controllers_wrapper_.controllers_lock_);
+  publish_activity_of_controllers(rt_controllers_wrapper_.get_updated_list(guard));
+}
+
+void ControllerManager::publish_activity_of_controllers(
+  const std::vector<ControllerSpec> & controllers)
 {
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
   status_msg.header.stamp = get_clock()->now();
+  for (const auto & controller : controllers)
   {
-    // lock controllers
-    std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
-      rt_controllers_wrapper_.controllers_lock_);
-    const std::vector<ControllerSpec> & controllers =
-      rt_controllers_wrapper_.get_updated_list(guard);
-    for (const auto & controller : controllers)
-    {
-      controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
-      lifecycle_info.name = controller.info.name;
-      lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
-      lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
-      status_msg.controllers.push_back(lifecycle_info);
-    }
+    controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
+    lifecycle_info.name = controller.info.name;
+    lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
+    lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
+    status_msg.controllers.push_back(lifecycle_info);
   }
   {
     const auto hw_components_info = resource_manager_->get_components_status();
-- 
2.43.0


From f4d6c5020e98ca8db443ec710181fc25f3a47b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 20/40] fix: make a chainable controller's interfaces
 unavailable again if its activation cannot claim its interfaces

---
 controller_manager/src/controller_manager.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 0a198a4..6f7e15b 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2720,6 +2720,12 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      if (controller->is_chainable() && !is_controller_active(*controller))
+      {
+        // make all the exported interfaces of the controller unavailable
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
       continue;
     }
 
@@ -2748,6 +2754,12 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      if (controller->is_chainable() && !is_controller_active(*controller))
+      {
+        // make all the exported interfaces of the controller unavailable
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
       continue;
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
-- 
2.43.0


From b26e71353e7a980683d78a6fd158810a2a982414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 21/40] fix: determine chained mode requests from the final
 switch request

Deactivating one of several preceding controllers, restarting a preceding
controller or dropping a controller from a BEST_EFFORT request left following
controllers outside of (or in) chained mode although their reference interfaces
were still (or no longer) used.
---
 .../controller_manager/controller_manager.hpp |  10 +-
 controller_manager/src/controller_manager.cpp | 142 +++++++-----------
 2 files changed, 61 insertions(+), 91 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 00e32fe..1c70922 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -412,12 +412,13 @@ private:
     const std::string & rt_cycle_name);
 
   /**
-   * If a controller is deactivated all following controllers (if any exist) should be switched
-   * 'from' the chained mode.
+   * Determine from the final (de)activate requests which controllers are switched 'to' or 'from'
+   * the chained mode: a following controller has to be in the chained mode as long as an active
+   * controller uses one of its reference interfaces.
    *
    * \param[in] controllers list with controllers.
    */
-  void propagate_deactivation_of_chained_mode(const std::vector<ControllerSpec> & controllers);
+  void determine_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
 
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
@@ -426,9 +427,6 @@ private:
    * - are already active,
    * - will not be deactivated,
    * - or will be activated.
-   * The following controllers are added to the request to switch in the chained mode or removed
-   * from the request to switch from the chained mode.
-   *
    * For each controller the whole chain of following controllers is checked.
    *
    * NOTE: The automatically adding of following controller into activate list is not implemented
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6f7e15b..5430f95 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2038,11 +2038,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
-  // if a preceding controller is deactivated, all first-level controllers should be switched 'from'
-  // chained mode
-  propagate_deactivation_of_chained_mode(controllers);
-
-  // check if controllers should be switched 'to' chained mode when controllers are activated
+  // check if the following controllers of the controllers to activate are active after the switch
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
   {
@@ -2186,6 +2182,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   }
   message.clear();
 
+  // the following controllers of (de)activated controllers are switched 'to' or 'from' chained mode
+  determine_chained_mode_requests(controllers);
+
   for (const auto & controller : controllers)
   {
     auto to_chained_mode_list_it = std::find(
@@ -2214,7 +2213,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       if (is_active && !in_deactivate_list)
       {
         switch_params_.deactivate_request.push_back(controller.info.name);
-        switch_params_.activate_request.push_back(controller.info.name);
+        ros2_control::add_item(switch_params_.activate_request, controller.info.name);
       }
     }
 
@@ -3844,58 +3843,61 @@ void ControllerManager::perform_hardware_command_mode_change(
   }
 }
 
-void ControllerManager::propagate_deactivation_of_chained_mode(
+void ControllerManager::determine_chained_mode_requests(
   const std::vector<ControllerSpec> & controllers)
 {
+  // controllers whose reference interfaces are used by the controllers that are activated, that
+  // stay active and that are deactivated
+  std::vector<std::string> used_by_activated, used_by_active, used_by_deactivated;
   for (const auto & controller : controllers)
   {
-    // get pointers to places in deactivate and activate lists ((de)activate lists have changed)
-    auto deactivate_list_it = std::find(
-      switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-      controller.info.name);
-
-    if (deactivate_list_it != switch_params_.deactivate_request.end())
+    const bool activate =
+      ros2_control::has_item(switch_params_.activate_request, controller.info.name);
+    const bool deactivate =
+      ros2_control::has_item(switch_params_.deactivate_request, controller.info.name);
+    if (!activate && !is_controller_active(controller.c))
     {
-      // if controller is not active then skip adding following-controllers to "from" chained mode
-      // request
-      if (!is_controller_active(controller.c))
+      continue;
+    }
+    auto & following_controllers =
+      activate ? used_by_activated : (deactivate ? used_by_deactivated : used_by_active);
+    for (const auto & ctrl_itf_name : get_command_interfaces_names(controller.c, resource_manager_))
+    {
+      ControllersListIterator following_ctrl_it;
+      if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
       {
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Controller with name '%s' can not be deactivated since is not active. "
-          "The controller will be removed from the list later."
-          "Skipping adding following controllers to 'from' chained mode request.",
-          controller.info.name.c_str());
-        break;
+        ros2_control::add_item(following_controllers, following_ctrl_it->info.name);
       }
+    }
+  }
 
-      const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-      const auto ctrl_state_itf_names = get_state_interfaces_names(controller.c, resource_manager_);
-      auto ctrl_itf_names = ctrl_cmd_itf_names;
-      ctrl_itf_names.insert(
-        ctrl_itf_names.end(), ctrl_state_itf_names.begin(), ctrl_state_itf_names.end());
-      for (const auto & ctrl_itf_name : ctrl_itf_names)
+  for (const auto & controller : controllers)
+  {
+    if (!controller.c->is_chainable())
+    {
+      continue;
+    }
+    const std::string & name = controller.info.name;
+    if (ros2_control::has_item(used_by_activated, name))
+    {
+      // a controller that is restarted leaves the chained mode when it is deactivated
+      if (
+        !controller.c->is_in_chained_mode() ||
+        ros2_control::has_item(switch_params_.deactivate_request, name))
       {
-        // controller that 'cmd_tf_name' belongs to
-        ControllersListIterator following_ctrl_it;
-        if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
-        {
-          // currently iterated "controller" is preceding controller --> add following controller
-          // with matching interface name to "from" chained mode list (if not already in it)
-          if (
-            std::find(
-              switch_params_.from_chained_mode_request.begin(),
-              switch_params_.from_chained_mode_request.end(),
-              following_ctrl_it->info.name) == switch_params_.from_chained_mode_request.end())
-          {
-            switch_params_.from_chained_mode_request.push_back(following_ctrl_it->info.name);
-            RCLCPP_DEBUG(
-              get_logger(), "Adding controller '%s' in 'from chained mode' request.",
-              following_ctrl_it->info.name.c_str());
-          }
-        }
+        switch_params_.to_chained_mode_request.push_back(name);
+        RCLCPP_DEBUG(
+          get_logger(), "Adding controller '%s' in 'to chained mode' request.", name.c_str());
       }
     }
+    else if (
+      controller.c->is_in_chained_mode() && ros2_control::has_item(used_by_deactivated, name) &&
+      !ros2_control::has_item(used_by_active, name))
+    {
+      switch_params_.from_chained_mode_request.push_back(name);
+      RCLCPP_DEBUG(
+        get_logger(), "Adding controller '%s' in 'from chained mode' request.", name.c_str());
+    }
   }
 }
 
@@ -3995,8 +3997,7 @@ controller_interface::return_type ControllerManager::check_following_controllers
       return controller_interface::return_type::ERROR;
     }
 
-    // Trigger recursion to check all the following controllers only if they are OK, add this
-    // controller update chained mode requests
+    // Trigger recursion to check all the following controllers
     if (
       check_following_controllers_for_activate(
         controllers, strictness, following_ctrl_it, message) ==
@@ -4015,44 +4016,15 @@ controller_interface::return_type ControllerManager::check_following_controllers
     // }
     if (!following_ctrl_it->c->is_in_chained_mode())
     {
-      auto found_it = std::find(
-        switch_params_.to_chained_mode_request.begin(),
-        switch_params_.to_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it == switch_params_.to_chained_mode_request.end())
+      // if it is a chainable controller, make the reference interfaces available on preactivation
+      // (This is needed when you activate a couple of chainable controller altogether)
+      // make all the exported interfaces of the controller available
+      resource_manager_->make_controller_exported_state_interfaces_available(
+        following_ctrl_it->info.name);
+      if (ros2_control::has_item(controller_cmd_interfaces, ctrl_itf_name))
       {
-        // if it is a chainable controller, make the reference interfaces available on preactivation
-        // (This is needed when you activate a couple of chainable controller altogether)
-        // make all the exported interfaces of the controller available
-        resource_manager_->make_controller_exported_state_interfaces_available(
+        resource_manager_->make_controller_reference_interfaces_available(
           following_ctrl_it->info.name);
-        if (
-          std::find(
-            controller_cmd_interfaces.begin(), controller_cmd_interfaces.end(), ctrl_itf_name) !=
-          controller_cmd_interfaces.end())
-        {
-          resource_manager_->make_controller_reference_interfaces_available(
-            following_ctrl_it->info.name);
-          switch_params_.to_chained_mode_request.push_back(following_ctrl_it->info.name);
-          RCLCPP_DEBUG(
-            get_logger(), "Adding controller '%s' in 'to chained mode' request.",
-            following_ctrl_it->info.name.c_str());
-        }
-      }
-    }
-    else
-    {
-      // Check if following controller is in 'from' chained mode list and remove it, if so
-      auto found_it = std::find(
-        switch_params_.from_chained_mode_request.begin(),
-        switch_params_.from_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it != switch_params_.from_chained_mode_request.end())
-      {
-        switch_params_.from_chained_mode_request.erase(found_it);
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Removing controller '%s' in 'from chained mode' request because it "
-          "should stay in chained mode.",
-          following_ctrl_it->info.name.c_str());
       }
     }
   }
-- 
2.43.0


From 29a80488c4ad653e4d52e0caf766b345041f31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 22/40] fix: check the remaining controllers again when
 BEST_EFFORT drops one

A controller that was accepted because of a controller that is dropped from the
request later was switched without it.
---
 controller_manager/src/controller_manager.cpp | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5430f95..44b6713 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2040,7 +2040,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   // check if the following controllers of the controllers to activate are active after the switch
   for (auto ctrl_it = switch_params_.activate_request.begin();
-       ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.activate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2106,11 +2106,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         // TODO(destogl): automatic manipulation of the chain:
         // || strictness ==
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be activated from the activation request and check the
+        // remaining ones again, as they can depend on it
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.activate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2120,11 +2121,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // check if controllers should be deactivated if used in chained mode
   for (auto ctrl_it = switch_params_.deactivate_request.begin();
-       ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.deactivate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2156,11 +2158,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         (*ctrl_it).c_str());
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
       {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be deactivated from the deactivation request and check
+        // the remaining ones again, as they can depend on it
         switch_params_.deactivate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.deactivate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2170,6 +2173,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // Check after the check if the activate and deactivate list is empty or not
-- 
2.43.0


From 152a7ab7050cc8431c92c8bfb6799c4c4e3b8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 23/40] fix: check following controllers of restarted
 controllers

---
 controller_manager/src/controller_manager.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 44b6713..9ca6466 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2071,6 +2071,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         status = controller_interface::return_type::ERROR;
       }
+      else
+      {
+        // the controller is restarted
+        status =
+          check_following_controllers_for_activate(controllers, strictness, controller_it, message);
+      }
     }
     else if (!is_controller_inactive(controller_it->c))
     {
@@ -3959,11 +3965,10 @@ controller_interface::return_type ControllerManager::check_following_controllers
 
     if (is_controller_active(following_ctrl_it->c))
     {
-      // will following controller be deactivated?
+      // will following controller be deactivated and not restarted?
       if (
-        std::find(
-          switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          following_ctrl_it->info.name) != switch_params_.deactivate_request.end())
+        ros2_control::has_item(switch_params_.deactivate_request, following_ctrl_it->info.name) &&
+        !ros2_control::has_item(switch_params_.activate_request, following_ctrl_it->info.name))
       {
         if (
           (ros2_control::has_item(controller_state_interfaces, ctrl_itf_name) &&
-- 
2.43.0


From 7c56ed7336c643d5ad312e31496a25876ce3113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 24/40] fix: consider interfaces of restarted controllers in
 the availability check

The interfaces of a restarted controller could be given to another controller of
the same request, after which one of both failed to activate.
---
 controller_manager/src/controller_manager.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9ca6466..932bb64 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4342,11 +4342,9 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
   }
   for (const auto & controller_name : activation_list)
   {
-    if (ros2_control::has_item(deactivation_list, controller_name))
-    {
-      // skip controllers that are being deactivated and activated in the same request
-      continue;
-    }
+    // controllers that are being deactivated and activated in the same request use their interfaces
+    // already, they only have to get them back
+    const bool is_restarted = ros2_control::has_item(deactivation_list, controller_name);
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
@@ -4366,7 +4364,7 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
     // check if the interfaces are available in the first place
     for (const auto & cmd_itf : controller_cmd_interfaces)
     {
-      if (!resource_manager_->command_interface_is_available(cmd_itf))
+      if (!is_restarted && !resource_manager_->command_interface_is_available(cmd_itf))
       {
         message = fmt::format(
           FMT_COMPILE(
@@ -4377,7 +4375,7 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
         return controller_interface::return_type::ERROR;
       }
       if (
-        resource_manager_->command_interface_is_claimed(cmd_itf) &&
+        !is_restarted && resource_manager_->command_interface_is_claimed(cmd_itf) &&
         !ros2_control::has_item(future_available_cmd_interfaces, cmd_itf))
       {
         message = fmt::format(
@@ -4402,7 +4400,7 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
     }
     for (const auto & state_itf : controller_state_interfaces)
     {
-      if (!resource_manager_->state_interface_is_available(state_itf))
+      if (!is_restarted && !resource_manager_->state_interface_is_available(state_itf))
       {
         message = fmt::format(
           FMT_COMPILE(
-- 
2.43.0


From 2a4a069afba821a3cd59491a8447987c517fd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 25/40] fix: make exported interfaces unavailable again after a
 rejected switch

---
 .../controller_manager/controller_manager.hpp |  2 +
 controller_manager/src/controller_manager.cpp | 47 ++++++++++++-------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 1c70922..d050af8 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -765,6 +765,8 @@ private:
     std::vector<std::string> deactivate_request;
     std::vector<std::string> to_chained_mode_request;
     std::vector<std::string> from_chained_mode_request;
+    // Following controllers whose exported interfaces were made available to check the request
+    std::vector<std::string> preactivated_controllers;
     std::vector<std::string> activate_command_interface_request;
     std::vector<std::string> deactivate_command_interface_request;
   };
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 932bb64..043d29e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1843,6 +1843,7 @@ void ControllerManager::clear_requests()
   switch_params_.activate_request.clear();
   switch_params_.to_chained_mode_request.clear();
   switch_params_.from_chained_mode_request.clear();
+  switch_params_.preactivated_controllers.clear();
   switch_params_.activate_command_interface_request.clear();
   switch_params_.deactivate_command_interface_request.clear();
 }
@@ -2038,6 +2039,24 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
+  // interfaces that were only made available for the checks are not available if their controller
+  // is not active in the end
+  const auto finish_request = [&]()
+  {
+    for (const auto & controller : controllers)
+    {
+      if (
+        !is_controller_active(controller.c) &&
+        ros2_control::has_item(switch_params_.preactivated_controllers, controller.info.name))
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(
+          controller.info.name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller.info.name);
+      }
+    }
+    clear_requests();
+  };
+
   // check if the following controllers of the controllers to activate are active after the switch
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end();)
@@ -2123,7 +2142,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
         // reset all lists
-        clear_requests();
+        finish_request();
         return controller_interface::return_type::ERROR;
       }
     }
@@ -2175,7 +2194,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
         // reset all lists
-        clear_requests();
+        finish_request();
         return controller_interface::return_type::ERROR;
       }
     }
@@ -2187,7 +2206,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   {
     message = "After checking the controllers, no controllers need to be activated or deactivated.";
     RCLCPP_INFO(get_logger(), "%s", message.c_str());
-    clear_requests();
+    finish_request();
     return controller_interface::return_type::OK;
   }
   message.clear();
@@ -2244,12 +2263,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         message = msg;
         RCLCPP_ERROR(get_logger(), "%s", msg.c_str());
-        switch_params_.deactivate_request.clear();
-        switch_params_.deactivate_command_interface_request.clear();
-        switch_params_.activate_request.clear();
-        switch_params_.activate_command_interface_request.clear();
-        switch_params_.to_chained_mode_request.clear();
-        switch_params_.from_chained_mode_request.clear();
+        finish_request();
         return controller_interface::return_type::ERROR;
       }
       RCLCPP_WARN(get_logger(), "%s", msg.c_str());
@@ -2330,7 +2344,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   {
     message = "After checking the controllers, no controllers need to be activated or deactivated.";
     RCLCPP_INFO(get_logger(), "Empty activate and deactivate list, not requesting switch");
-    clear_requests();
+    finish_request();
     return controller_interface::return_type::OK;
   }
 
@@ -2339,7 +2353,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       controllers, switch_params_.activate_request, switch_params_.deactivate_request, message) !=
     controller_interface::return_type::OK)
   {
-    clear_requests();
+    finish_request();
     return controller_interface::return_type::ERROR;
   }
 
@@ -2376,7 +2390,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     {
       message = "Could not switch controllers since prepare command mode switch was rejected.";
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-      clear_requests();
+      finish_request();
       return controller_interface::return_type::ERROR;
     }
   }
@@ -2408,7 +2422,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         FMT_COMPILE("Switch controller timed out after {} seconds!"),
         static_cast<double>(switch_params_.timeout.count()) / 1e9);
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-      clear_requests();
+      finish_request();
       return controller_interface::return_type::ERROR;
     }
   }
@@ -2423,7 +2437,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
           FMT_COMPILE("Switch controller timed out after {} seconds!"),
           static_cast<double>(switch_params_.timeout.count()) / 1e9);
         RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-        clear_requests();
+        finish_request();
         return controller_interface::return_type::ERROR;
       }
       // wait for the realtime loop to be ready for switching controllers
@@ -2443,13 +2457,13 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     resource_manager_, switch_params_.activate_request, switch_params_.deactivate_request,
     strictness, get_logger(), to, message);
 
+  finish_request();
+
   // switch lists
   rt_controllers_wrapper_.switch_updated_list(guard);
   // clear unused list
   rt_controllers_wrapper_.get_unused_list(guard).clear();
 
-  clear_requests();
-
   return switch_result;
 }
 
@@ -4028,6 +4042,7 @@ controller_interface::return_type ControllerManager::check_following_controllers
       // if it is a chainable controller, make the reference interfaces available on preactivation
       // (This is needed when you activate a couple of chainable controller altogether)
       // make all the exported interfaces of the controller available
+      ros2_control::add_item(switch_params_.preactivated_controllers, following_ctrl_it->info.name);
       resource_manager_->make_controller_exported_state_interfaces_available(
         following_ctrl_it->info.name);
       if (ros2_control::has_item(controller_cmd_interfaces, ctrl_itf_name))
-- 
2.43.0


From 330653fc117d1116005e1d4c36ed9583ed3ff8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 26/40] fix: trigger async controllers again when they are not
 deactivated

prepare_for_deactivation() stops the triggers of a controller. If the switch was
rejected, timed out or failed afterwards, the controller stayed active but was
never updated again.
---
 .../controller_interface/controller_interface_base.hpp    | 6 ++++++
 controller_interface/src/controller_interface_base.cpp    | 5 +++++
 controller_manager/src/controller_manager.cpp             | 8 +++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 7b3dc04..89a1b4c 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -376,6 +376,12 @@ public:
    */
   void prepare_for_deactivation();
 
+  /**
+   * Method to be called if the deactivation announced with prepare_for_deactivation() is not carried
+   * out and the controller stays active, so that its update is triggered again.
+   */
+  void cancel_deactivation();
+
   std::string get_name() const;
 
   /**
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..c7b1be9 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -429,6 +429,11 @@ void ControllerInterfaceBase::prepare_for_deactivation()
   this->wait_for_trigger_update_to_finish();
 }
 
+void ControllerInterfaceBase::cancel_deactivation()
+{
+  impl_->skip_async_triggers_.store(false, std::memory_order_release);
+}
+
 void ControllerInterfaceBase::stop_async_handler_thread()
 {
   if (is_async() && impl_->async_handler_ && impl_->async_handler_->is_running())
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 043d29e..b6b0f6f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2040,7 +2040,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
   // interfaces that were only made available for the checks are not available if their controller
-  // is not active in the end
+  // is not active in the end, and controllers that are still active have to be triggered again
   const auto finish_request = [&]()
   {
     for (const auto & controller : controllers)
@@ -2053,6 +2053,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
           controller.info.name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller.info.name);
       }
+      if (
+        is_controller_active(controller.c) &&
+        ros2_control::has_item(switch_params_.deactivate_request, controller.info.name))
+      {
+        controller.c->cancel_deactivation();
+      }
     }
     clear_requests();
   };
-- 
2.43.0


From e74e86d57ac52cb17bd03232e57c606924162941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 27/40] fix: reject activation of a controller whose following
 controller is not configured

Making the exported interfaces of a following controller that was never
configured available raised std::out_of_range out of the switch service.
---
 controller_manager/src/controller_manager.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b6b0f6f..a52fdf4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4011,6 +4011,17 @@ controller_interface::return_type ControllerManager::check_following_controllers
         return controller_interface::return_type::ERROR;
       }
     }
+    // check if following controller can be activated at all
+    else if (!is_controller_inactive(following_ctrl_it->c))
+    {
+      message = fmt::format(
+        FMT_COMPILE(
+          "The following controller with name '{}' is not in 'inactive' state and can not be "
+          "activated."),
+        following_ctrl_it->info.name);
+      RCLCPP_WARN(get_logger(), "%s", message.c_str());
+      return controller_interface::return_type::ERROR;
+    }
     // check if following controller will not be activated
     else if (
       std::find(
-- 
2.43.0


From 91b9887e25e45b278b9a7ca9992ea7ccaa6f67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:34 +0000
Subject: [PATCH 28/40] fix: keep exported interfaces of a chainable controller
 that stays inactive

---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a52fdf4..64d7c54 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1486,8 +1486,12 @@ controller_interface::return_type ControllerManager::cleanup_controller(
 {
   try
   {
-    cleanup_controller_exported_interfaces(controller);
     const auto new_state = controller.c->get_node()->cleanup();
+    // an inactive controller can still be activated, so it keeps its exported interfaces
+    if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
+    {
+      cleanup_controller_exported_interfaces(controller);
+    }
     if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
     {
       RCLCPP_ERROR(
-- 
2.43.0


From 0571007a4e032abdbd7412822ac72f53181d0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:34 +0000
Subject: [PATCH 29/40] fix: remove exported interfaces of an unconfigured
 controller on unload

---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 64d7c54..4e42f13 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1454,6 +1454,8 @@ controller_interface::return_type ControllerManager::unload_controller(
   {
     return controller_interface::return_type::ERROR;
   }
+  // For cases, when the controller ends up in the unconfigured state from any other state
+  cleanup_controller_exported_interfaces(controller);
 
   RCLCPP_DEBUG(get_logger(), "Shutdown controller");
   controller_chain_spec_cleanup(controller_chain_spec_, controller_name);
-- 
2.43.0


From 35c39665f2e4be7bd0c44b9f53ae432b998802e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:34 +0000
Subject: [PATCH 30/40] fix: register controller statistics only once the
 controller is loaded

---
 controller_manager/src/controller_manager.cpp | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4e42f13..c3763d3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1304,20 +1304,6 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
     std::make_shared<rclcpp::Time>(0, 0, this->get_trigger_clock()->get_clock_type());
   controller_spec.execution_time_statistics = std::make_shared<MovingAverageStatistics>();
   controller_spec.periodicity_statistics = std::make_shared<MovingAverageStatistics>();
-  const std::string controller_exec_time_prefix = controller_name + ".stats/execution_time";
-  const std::string controller_periodicity_prefix = controller_name + ".stats/periodicity";
-  register_controller_manager_statistics(
-    controller_exec_time_prefix,
-    &controller_spec.execution_time_statistics->get_statistics_const_ptr());
-  REGISTER_ENTITY(
-    hardware_interface::CM_STATISTICS_KEY, controller_exec_time_prefix + "/current_value",
-    &controller_spec.execution_time_statistics->get_current_measurement_const_ptr());
-  register_controller_manager_statistics(
-    controller_periodicity_prefix,
-    &controller_spec.periodicity_statistics->get_statistics_const_ptr());
-  REGISTER_ENTITY(
-    hardware_interface::CM_STATISTICS_KEY, controller_periodicity_prefix + "/current_value",
-    &controller_spec.periodicity_statistics->get_current_measurement_const_ptr());
 
   // We have to fetch the parameters_file at the time of loading the controller, because this way we
   // can load them at the creation of the LifeCycleNode and this helps in using the features such as
@@ -1381,7 +1367,29 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
     controller_spec.info.node_options_args = node_options_args;
   }
 
-  return add_controller_impl(controller_spec);
+  const auto loaded_controller = add_controller_impl(controller_spec);
+  if (!loaded_controller)
+  {
+    return nullptr;
+  }
+
+  // The statistics of a controller that is not loaded must not be registered, as they are destroyed
+  const std::string controller_exec_time_prefix = controller_name + ".stats/execution_time";
+  const std::string controller_periodicity_prefix = controller_name + ".stats/periodicity";
+  register_controller_manager_statistics(
+    controller_exec_time_prefix,
+    &controller_spec.execution_time_statistics->get_statistics_const_ptr());
+  REGISTER_ENTITY(
+    hardware_interface::CM_STATISTICS_KEY, controller_exec_time_prefix + "/current_value",
+    &controller_spec.execution_time_statistics->get_current_measurement_const_ptr());
+  register_controller_manager_statistics(
+    controller_periodicity_prefix,
+    &controller_spec.periodicity_statistics->get_statistics_const_ptr());
+  REGISTER_ENTITY(
+    hardware_interface::CM_STATISTICS_KEY, controller_periodicity_prefix + "/current_value",
+    &controller_spec.periodicity_statistics->get_current_measurement_const_ptr());
+
+  return loaded_controller;
 }
 
 controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_controller(
-- 
2.43.0


From 9d123345e42ad0443be7a11a9c17eb7f3d1236d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:34 +0000
Subject: [PATCH 31/40] fix: order controllers after all controllers that
 precede them

---
 .../controller_manager/controller_manager.hpp | 14 +--
 controller_manager/src/controller_manager.cpp | 91 ++++---------------
 2 files changed, 23 insertions(+), 82 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index d050af8..f7bcb52 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -501,15 +501,12 @@ private:
    * @brief Inserts a controller into an ordered list based on dependencies to compute the
    * controller chain.
    *
-   * This method computes the controller chain by inserting the provided controller name into an
-   * ordered list of controllers based on dependencies. It ensures that controllers are inserted in
-   * the correct order so that dependencies are satisfied.
+   * This method computes the controller chain by appending the provided controller name to an
+   * ordered list of controllers, after all the controllers that precede it. It ensures that
+   * controllers are inserted in the correct order so that dependencies are satisfied.
    *
    * @param ctrl_name The name of the controller to be inserted into the chain.
-   * @param controller_iterator An iterator pointing to the position in the ordered list where the
-   * controller should be inserted.
-   * @param append_to_controller Flag indicating whether the controller should be appended or
-   * prepended to the parsed iterator.
+   * @param visited_controllers The controllers that are already processed.
    * @note The specification of controller dependencies is in the ControllerChainSpec,
    * containing information about following and preceding controllers. This struct should include
    * the neighboring controllers with their relationships to the provided controller.
@@ -517,8 +514,7 @@ private:
    * `preceding_controllers` specify controllers that come before the provided controller.
    */
   void update_list_with_controller_chain(
-    const std::string & ctrl_name, std::vector<std::string>::iterator controller_iterator,
-    bool append_to_controller);
+    const std::string & ctrl_name, std::vector<std::string> & visited_controllers);
 
   /**
    * @brief Build the controller chain topology information based on the provided controllers.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c3763d3..18e0922 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1795,14 +1795,10 @@ controller_interface::return_type ControllerManager::configure_controller(
 
   // clear the list before reordering it again
   ordered_controllers_names_.clear();
+  std::vector<std::string> visited_controllers;
   for (const auto & [ctrl_name, chain_spec] : controller_chain_spec_)
   {
-    auto it =
-      std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-    if (it == ordered_controllers_names_.end())
-    {
-      update_list_with_controller_chain(ctrl_name, ordered_controllers_names_.end(), false);
-    }
+    update_list_with_controller_chain(ctrl_name, visited_controllers);
   }
 
   std::vector<ControllerSpec> new_list;
@@ -4852,77 +4848,26 @@ void ControllerManager::controller_manager_diagnostic_callback(
 }
 
 void ControllerManager::update_list_with_controller_chain(
-  const std::string & ctrl_name, std::vector<std::string>::iterator controller_iterator,
-  bool append_to_controller)
+  const std::string & ctrl_name, std::vector<std::string> & visited_controllers)
 {
-  auto new_ctrl_it =
-    std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-  if (new_ctrl_it == ordered_controllers_names_.end())
+  if (ros2_control::has_item(visited_controllers, ctrl_name))
   {
-    RCLCPP_DEBUG(get_logger(), "Adding controller chain : %s", ctrl_name.c_str());
-
-    auto iterator = controller_iterator;
-    for (const auto & ctrl : controller_chain_spec_[ctrl_name].following_controllers)
-    {
-      auto it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl);
-      if (it != ordered_controllers_names_.end())
-      {
-        if (
-          std::distance(ordered_controllers_names_.begin(), it) <
-          std::distance(ordered_controllers_names_.begin(), iterator))
-        {
-          iterator = it;
-        }
-      }
-    }
-    for (const auto & ctrl : controller_chain_spec_[ctrl_name].preceding_controllers)
-    {
-      auto it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl);
-      if (it != ordered_controllers_names_.end())
-      {
-        if (
-          std::distance(ordered_controllers_names_.begin(), it) >
-          std::distance(ordered_controllers_names_.begin(), iterator))
-        {
-          iterator = it;
-        }
-      }
-    }
-
-    if (append_to_controller)
-    {
-      ordered_controllers_names_.insert(iterator + 1, ctrl_name);
-    }
-    else
-    {
-      ordered_controllers_names_.insert(iterator, ctrl_name);
-    }
+    return;
+  }
+  visited_controllers.push_back(ctrl_name);
+  RCLCPP_DEBUG(get_logger(), "Adding controller chain : %s", ctrl_name.c_str());
 
-    RCLCPP_DEBUG_EXPRESSION(
-      get_logger(), !controller_chain_spec_[ctrl_name].following_controllers.empty(),
-      "\t[%s] Following controllers : %ld", ctrl_name.c_str(),
-      controller_chain_spec_[ctrl_name].following_controllers.size());
-    for (const std::string & flwg_ctrl : controller_chain_spec_[ctrl_name].following_controllers)
-    {
-      new_ctrl_it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-      RCLCPP_DEBUG(get_logger(), "\t\t[%s] : %s", ctrl_name.c_str(), flwg_ctrl.c_str());
-      update_list_with_controller_chain(flwg_ctrl, new_ctrl_it, true);
-    }
-    RCLCPP_DEBUG_EXPRESSION(
-      get_logger(), !controller_chain_spec_[ctrl_name].preceding_controllers.empty(),
-      "\t[%s] Preceding controllers : %ld", ctrl_name.c_str(),
-      controller_chain_spec_[ctrl_name].preceding_controllers.size());
-    for (const std::string & preced_ctrl : controller_chain_spec_[ctrl_name].preceding_controllers)
-    {
-      new_ctrl_it =
-        std::find(ordered_controllers_names_.begin(), ordered_controllers_names_.end(), ctrl_name);
-      RCLCPP_DEBUG(get_logger(), "\t\t[%s]: %s", ctrl_name.c_str(), preced_ctrl.c_str());
-      update_list_with_controller_chain(preced_ctrl, new_ctrl_it, false);
-    }
+  // A controller can only be added once all its preceding controllers are in the list
+  const auto & preceding_controllers = controller_chain_spec_[ctrl_name].preceding_controllers;
+  RCLCPP_DEBUG_EXPRESSION(
+    get_logger(), !preceding_controllers.empty(), "\t[%s] Preceding controllers : %ld",
+    ctrl_name.c_str(), preceding_controllers.size());
+  for (const std::string & preced_ctrl : preceding_controllers)
+  {
+    RCLCPP_DEBUG(get_logger(), "\t\t[%s]: %s", ctrl_name.c_str(), preced_ctrl.c_str());
+    update_list_with_controller_chain(preced_ctrl, visited_controllers);
   }
+  ordered_controllers_names_.push_back(ctrl_name);
 }
 
 void ControllerManager::build_controllers_topology_info(
-- 
2.43.0


From aca6766ec090f12fb89e65a1ef3702e53e9f06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:16 +0000
Subject: [PATCH 32/40] fix: handle unknown exceptions while loading a
 controller as configured

---
 controller_manager/src/controller_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 18e0922..4c15bb7 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1293,7 +1293,8 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
       get_logger(),
       "Caught unknown exception while loading the controller '%s' of plugin type '%s'",
       controller_name.c_str(), controller_type.c_str());
-    throw;
+    params_->handle_exceptions ? void() : throw;
+    return nullptr;
   }
 
   ControllerSpec controller_spec;
-- 
2.43.0


From 995f3738cc28671005bc951be83c403eab6320b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 33/40] fix: compare a controller's update rate with the
 controller manager's

A controller configured once with a reduced update rate could never be
given a higher one again: the request was compared with the rate it had
before instead of with the rate of the controller manager.
---
 controller_interface/src/controller_interface_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index c7b1be9..64b77b6 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -204,7 +204,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
-    if (params.update_rate != 0u && update_rate > params.update_rate)
+    if (
+      params.controller_manager_update_rate != 0u &&
+      update_rate > params.controller_manager_update_rate)
     {
       RCLCPP_WARN(
         get_node()->get_logger(), "%s",
@@ -212,8 +214,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
           "The update rate of the controller : '{} Hz' cannot be higher than the update rate of "
           "the controller manager : '{} Hz'. Setting it to the update rate of the controller "
           "manager.",
-          update_rate, params.update_rate)
+          update_rate, params.controller_manager_update_rate)
           .c_str());
+      params.update_rate = params.controller_manager_update_rate;
     }
     else
     {
-- 
2.43.0


From 42f44ba34be83508c5097576298fe76cf13ba8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 34/40] fix: list only a connection's own references in its
 chain connection

---
 controller_manager/src/controller_manager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4c15bb7..69c33cd 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2903,7 +2903,9 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
+  // for each controller, the references it uses of each controller it is connected to
+  std::unordered_map<std::string, std::unordered_map<std::string, std::vector<std::string>>>
+    controller_chain_interface_map;
   std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
@@ -2942,7 +2944,7 @@ void ControllerManager::list_controllers_srv_cb(
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
           controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_interface_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -2988,7 +2990,8 @@ void ControllerManager::list_controllers_srv_cb(
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces =
+        controller_chain_interface_map[controller_state.name][chained_name];
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0


From b0a87b376ac6cfea37a4bbc0a99415546702a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:05 +0000
Subject: [PATCH 35/40] fix: report values of a semantic component that cannot
 be read instead of throwing

---
 .../semantic_components/semantic_component_interface.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/semantic_component_interface.hpp b/controller_interface/include/semantic_components/semantic_component_interface.hpp
index c502a41..5ed45ff 100644
--- a/controller_interface/include/semantic_components/semantic_component_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_interface.hpp
@@ -98,7 +98,13 @@ public:
     // insert all the values
     for (auto i = 0u; i < state_interfaces_.size(); ++i)
     {
-      values.emplace_back(state_interfaces_[i].get().get_optional().value());
+      const auto value = state_interfaces_[i].get().get_optional();
+      if (!value.has_value())
+      {
+        values.clear();
+        return false;
+      }
+      values.emplace_back(value.value());
     }
     return true;
   }
-- 
2.43.0


From 102c3841735541bd083129f4ce5541f6de22379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:30 +0000
Subject: [PATCH 36/40] fix: report a controller's refused params_file setting
 instead of ignoring it

---
 .../controller_manager/controller_manager_services.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 4e64ffa..6031daf 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -486,13 +486,14 @@ def set_controller_parameters_from_param_files(
         node, controller_name, spawner_namespace, parameter_files
     )
     if controller_parameter_files:
-        set_controller_parameters(
+        if not set_controller_parameters(
             node,
             controller_manager_name,
             controller_name,
             "params_file",
             controller_parameter_files,
-        )
+        ):
+            return False
 
         controller_type = get_parameter_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
-- 
2.43.0


From e502f26098d7f19ccf884e646fe91522f046605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:48 +0000
Subject: [PATCH 37/40] fix: parse the switch timeout of the switch_controllers
 verb as a number

---
 ros2controlcli/ros2controlcli/verb/switch_controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros2controlcli/ros2controlcli/verb/switch_controllers.py b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
index 0e90925..0e6aeb8 100644
--- a/ros2controlcli/ros2controlcli/verb/switch_controllers.py
+++ b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
@@ -55,6 +55,7 @@ class SwitchControllersVerb(VerbExtension):
         parser.add_argument("--activate-asap", action="store_true", help="Start asap controllers")
         parser.add_argument(
             "--switch-timeout",
+            type=float,
             default=5.0,
             required=False,
             help="Timeout for switching controllers",
-- 
2.43.0


From aede8604dbb1db5b7c0904e999ca01367891e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:36 +0000
Subject: [PATCH 38/40] fix: do not deactivate load-only controllers when the
 spawner is interrupted

---
 controller_manager/controller_manager/spawner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 28c11c6..2bf1545 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -592,7 +592,9 @@ def main(args=None):
             logger.info("KeyboardInterrupt successfully captured!")
 
             # Determine which controllers to deactivate
-            controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
+            controllers_to_deactivate = [
+                c["name"] for c in controllers if not c["inactive"] and not c["load_only"]
+            ]
 
             if controllers_to_deactivate:
                 logger.info("Deactivating and unloading controllers...")
-- 
2.43.0


From eb0d2cf392b3e8f163fe36520ec7d0d216a3d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:36 +0000
Subject: [PATCH 39/40] fix: do not unload controllers when the spawner is
 interrupted before it has a node

---
 controller_manager/controller_manager/spawner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 2bf1545..47b2c37 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -588,7 +588,7 @@ def main(args=None):
             signal.signal(signal.SIGTERM, signal.SIG_IGN)
         except (KeyboardInterrupt, Exception):
             pass
-        if unload_on_kill:
+        if unload_on_kill and node is not None:
             logger.info("KeyboardInterrupt successfully captured!")
 
             # Determine which controllers to deactivate
-- 
2.43.0


From c1229767b4cd186b6bf5bc4992b65530bd08d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 40/40] fix: take the lock when published statistics are
 cleared

MovingAverageStatisticsData::reset() wrote the statistics without holding the mutex that protects them.
---
 .../include/hardware_interface/types/statistics_types.hpp        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 78601ff..4304dcc 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -259,6 +259,7 @@ public:
 
   void reset()
   {
+    std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
     statistics_data_.average = std::numeric_limits<double>::quiet_NaN();
     statistics_data_.min = std::numeric_limits<double>::quiet_NaN();
     statistics_data_.max = std::numeric_limits<double>::quiet_NaN();
-- 
2.43.0

