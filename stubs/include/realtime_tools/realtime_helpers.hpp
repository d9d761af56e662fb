#pragma once
#include <string>
#include <utility>
#include <vector>
namespace realtime_tools
{
inline bool has_realtime_kernel() { return false; }
inline bool configure_sched_fifo(int) { return true; }
inline std::pair<bool, std::string> lock_memory() { return {true, ""}; }
inline std::pair<bool, std::string> set_current_thread_affinity(const std::vector<int> &) { return {true, ""}; }
inline std::pair<bool, std::string> set_current_thread_affinity(int) { return {true, ""}; }
}  // namespace realtime_tools
