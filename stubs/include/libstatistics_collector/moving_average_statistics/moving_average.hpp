#pragma once
#include "libstatistics_collector/moving_average_statistics/types.hpp"
namespace libstatistics_collector::moving_average_statistics
{
class MovingAverageStatistics
{
public:
  virtual ~MovingAverageStatistics() = default;
  virtual double average() const { return 0; }
  virtual void add_measurement(double) {}
  virtual StatisticData get_statistics() const { return {}; }
  virtual void reset() {}
};
}  // namespace libstatistics_collector::moving_average_statistics
