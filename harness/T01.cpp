#include <rclcpp/time.hpp>
#include <smooth/feedback/compat/ros.hpp>
#include <smooth/feedback/time.hpp>

#include "engine.hpp"

using namespace smooth::feedback;
namespace ch = std::chrono;

const eng::CheckInfo eng::check_info{
  "T01",
  "cases: time type (24 types: floating point, durations and time points of integer and floating representations and various periods, a "
  "stand-in for the ROS time type) x base time over the range of the type x offsets from sub-tick to the range of the type; non-trivial: "
  "the offset is at least one tick (or rounding unit) and the base time is not zero",
  2000000,
  60000000,
  {"times and offsets stay within the range of the type", "the ROS time type is represented by a stand-in with the documented semantics"}};

namespace {

struct FakeClock
{
  using duration   = ch::duration<int64_t, std::ratio<1, 3>>;
  using rep        = duration::rep;
  using period     = duration::period;
  using time_point = ch::time_point<FakeClock>;
};

/// Description of a time type: tick in seconds, how to make a time from ticks, rounding error of the type at t.
template<typename T>
struct Tr;

template<std::floating_point F>
struct Tr<F>
{
  static constexpr bool integer = false;
  static constexpr long double tick = 1;
  static F make(long double t) { return static_cast<F>(t); }
  static long double sec(F t) { return t; }
  static long double eps() { return std::numeric_limits<F>::epsilon(); }
  static long double range() { return 1e6L; }
};
template<typename R, typename P>
struct Tr<ch::duration<R, P>>
{
  using D                       = ch::duration<R, P>;
  static constexpr bool integer = std::is_integral_v<R>;
  static constexpr long double tick = static_cast<long double>(P::num) / P::den;
  static D make(long double t) { return D(static_cast<R>(t)); }  // in ticks
  static long double sec(D t) { return static_cast<long double>(t.count()) * tick; }
  static long double eps() { return integer ? 0 : static_cast<long double>(std::numeric_limits<R>::epsilon()); }
  static long double range() { return integer ? static_cast<long double>(std::numeric_limits<R>::max()) / 4 : 1e6L; }  // ticks
};
template<typename C, typename D>
struct Tr<ch::time_point<C, D>>
{
  using T                       = ch::time_point<C, D>;
  static constexpr bool integer = Tr<D>::integer;
  static constexpr long double tick = Tr<D>::tick;
  static T make(long double t) { return T(Tr<D>::make(t)); }
  static long double sec(T t) { return Tr<D>::sec(t.time_since_epoch()); }
  static long double eps() { return Tr<D>::eps(); }
  static long double range() { return Tr<D>::range(); }
};
template<>
struct Tr<rclcpp::Time>
{
  static constexpr bool integer     = true;
  static constexpr long double tick = 1e-9L;
  static rclcpp::Time make(long double t) { return rclcpp::Time(static_cast<int64_t>(t)); }
  static long double sec(rclcpp::Time t) { return static_cast<long double>(t.nanoseconds()) * 1e-9L; }
  static long double eps() { return 0; }
  static long double range() { return 2e18L; }
};

/// magnitude up to hi with a log-uniform distribution, either sign, round or not
long double spread(eng::Src & s, long double lo, long double hi)
{
  switch (s.weighted({1, 2, 4})) {
  case 0: return 0;
  case 1: return lo * static_cast<long double>(s.small(20));
  default: {
    const long double m = lo * std::exp(static_cast<long double>(s.unif(0, 1)) * std::log(hi / lo));
    const long double v = s.coin() ? std::floor(m) : m;
    return s.coin() ? -v : v;
  }
  }
}

template<typename T>
void laws(eng::Src & s, const char * name)
{
  static_assert(Time<T>);
  using X = Tr<T>;
  using A = time_trait<T>;
  s.cls(name);
  s.note("type", name);
  const long double tick = X::tick;
  const long double R    = X::range();
  const long double lo   = X::integer ? 1 : 1e-6L;
  const long double t0   = spread(s, lo, R), t1 = spread(s, lo, R), t2 = spread(s, lo, R);  // ticks
  const T a = X::make(t0), b = X::make(t1), c = X::make(t2);
  double d = static_cast<double>(spread(s, X::integer ? lo / 8 : lo, R) * tick);
  const auto err = [&](std::initializer_list<long double> l) {  // representation error of quantities of this size
    long double m = 0;
    for (auto v : l) m = std::max(m, std::fabs(v));
    return 4 * m * std::max(X::eps(), 3e-16L) + (X::integer ? tick : 0);
  };
  const auto rerr = [&](std::initializer_list<long double> l) {  // no tick: differences are exact in ticks
    long double m = 0;
    for (auto v : l) m = std::max(m, std::fabs(v));
    return 4 * m * std::max(X::eps(), 3e-16L);
  };
  const long double A0 = X::sec(a), B0 = X::sec(b), C0 = X::sec(c);
  s.note("t", static_cast<double>(A0)).note("t'", static_cast<double>(B0)).note("t''", static_cast<double>(C0)).note("d", d);
  if (t0 != 0 && std::fabs(d) >= static_cast<double>(tick) * (X::integer ? 1. : 1e-6)) s.nontrivial();

  const T p        = A::plus(a, d);
  const double pm  = A::minus(p, a);
  s.require(std::fabs(pm - static_cast<long double>(d)) <= err({A0, d, A0 + d}), "plus-minus",
    [&] { return eng::cat(name, ": minus(plus(t,d),t) = ", pm, " for d = ", d); });
  s.require(std::fabs(X::sec(p) - A0 - d) <= err({A0, d, A0 + d}), "plus", [&] { return eng::cat(name, ": plus(t,d) is off by ", static_cast<double>(X::sec(p) - A0 - d)); });
  s.require(!(d >= 0 && A::minus(p, a) < 0) && !(d >= 0 && X::sec(p) < A0), "backwards", [&] { return eng::cat(name, ": adding ", d, " s moves backwards"); });
  s.require(!(d <= 0 && X::sec(p) > A0), "forwards", [&] { return eng::cat(name, ": adding ", d, " s moves forward"); });
  s.require(A::plus(a, 0.) == a && A::plus(a, -0.) == a, "zero", [&] { return eng::cat(name, ": adding 0 is not the identity"); });
  const double e = d * s.unif(0, 1);
  const T q      = A::plus(a, e);
  s.require(d >= 0 ? X::sec(q) <= X::sec(p) : X::sec(q) >= X::sec(p), "monotone", [&] { return eng::cat(name, ": adding ", e, " goes further than adding ", d); });

  const double ab = A::minus(a, b), ba = A::minus(b, a);
  s.require(ab == -ba, "antisymmetric", [&] { return eng::cat(name, ": ", ab, " and ", ba); });
  s.require(A::minus(a, a) == 0, "self", [&] { return eng::cat(name, ": minus(t,t) = ", A::minus(a, a)); });
  s.require(std::fabs(ab - (A0 - B0)) <= rerr({A0, B0}), "difference", [&] { return eng::cat(name, ": minus = ", ab, " should be ", static_cast<double>(A0 - B0)); });
  const double bc = A::minus(b, c), ac = A::minus(a, c);
  s.require(std::fabs(ab + bc - ac) <= rerr({A0, B0, C0}), "additive", [&] { return eng::cat(name, ": ", ab, " + ", bc, " != ", ac); });

  // the tick of the type
  if constexpr (X::integer) {
    const auto k       = static_cast<long double>(s.small(1000));
    const T a0         = X::make(std::trunc(t0 / 2));
    const T ak         = X::make(std::trunc(t0 / 2) + k);
    const double secs  = A::minus(ak, a0);
    s.require(std::fabs(secs - k * tick) <= 1e-12L * std::fabs(k * tick), "tick", [&] { return eng::cat(name, ": ", static_cast<double>(k), " ticks are ", secs, " s"); });
    // half a tick more than k ticks is k ticks or k+1 ticks
    const T r           = A::plus(a0, static_cast<double>((k + 0.5L) * tick));
    const long double n = std::round((X::sec(r) - X::sec(a0)) / tick);
    s.require(n == k || n == k + 1, "round", [&] { return eng::cat(name, ": adding ", static_cast<double>(k), ".5 ticks adds ", static_cast<double>(n)); });
  }
}

#define TYPE(NAME, ...) PROP(NAME, 1) { laws<__VA_ARGS__>(s, #NAME); }
TYPE(t_float, float)
TYPE(t_double, double)
TYPE(t_long_double, long double)
TYPE(nanoseconds, ch::nanoseconds)
TYPE(microseconds, ch::microseconds)
TYPE(milliseconds, ch::duration<int32_t, std::milli>)
TYPE(milliseconds64, ch::milliseconds)
TYPE(seconds, ch::duration<int64_t>)
TYPE(seconds16, ch::duration<int16_t>)
TYPE(minutes, ch::minutes)
TYPE(hours, ch::duration<int32_t, std::ratio<3600>>)
TYPE(thirds, ch::duration<int64_t, std::ratio<1, 3>>)
TYPE(odd, ch::duration<int64_t, std::ratio<30000, 1001>>)
TYPE(dbl_seconds, ch::duration<double>)
TYPE(flt_millis, ch::duration<float, std::milli>)
TYPE(dbl_minutes, ch::duration<double, std::ratio<60>>)
TYPE(ldbl_nanos, ch::duration<long double, std::nano>)
TYPE(steady, ch::steady_clock::time_point)
TYPE(system, ch::system_clock::time_point)
TYPE(sys_days, ch::sys_days)
TYPE(sys_millis, ch::time_point<ch::system_clock, ch::milliseconds>)
TYPE(steady_dbl, ch::time_point<ch::steady_clock, ch::duration<double>>)
TYPE(fake_clock, FakeClock::time_point)
TYPE(ros, rclcpp::Time)

}  // namespace
