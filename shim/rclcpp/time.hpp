// Stand-in for rclcpp::Time / rclcpp::Duration (ROS 2 is not installed): the members used by compat/ros.hpp with the
// semantics of rclcpp (int64 nanoseconds, from_seconds truncates, to_chrono is a duration_cast).
#pragma once
#include <chrono>
#include <cstdint>

namespace rclcpp {
class Duration
{
public:
  explicit Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  static Duration from_seconds(double s) { return Duration(std::chrono::nanoseconds(static_cast<int64_t>(s * 1e9))); }
  static Duration from_nanoseconds(int64_t n) { return Duration(std::chrono::nanoseconds(n)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  template<class D>
  D to_chrono() const
  {
    return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));
  }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }

private:
  int64_t ns_;
};
class Time
{
public:
  explicit Time(int64_t ns = 0) : ns_(ns) {}
  Time(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000 + ns) {}
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds()); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }

private:
  int64_t ns_;
};
}  // namespace rclcpp
