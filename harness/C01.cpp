#include <chrono>
#include <functional>
#include <optional>
#include <tuple>

#include <smooth/feedback/pid.hpp>

#include "liegen.hpp"
using namespace lg;
using smooth::feedback::PID;
using smooth::feedback::PIDParams;

const eng::CheckInfo eng::check_info{
  "C01",
  "cases: histories of 1-25 operations (samples with increasing, repeated and backward time stamps, gain and reference setters in every "
  "overload, integral resets, copies, moves and assignments between controllers) on PID controllers over 6 state spaces and 8 time types; "
  "every output is compared with a model that keeps the integral of the error; non-trivial: a sample with nonzero integral gain was taken "
  "after the integral became nonzero",
  150000,
  8000000,
  {"the Lie-group library is a stand-in (shim/smooth)"}};

namespace {

// clang-format off
template<typename T> constexpr int unit = 8;  // ticks per second; times are whole numbers of ticks
template<> constexpr int unit<std::chrono::seconds> = 1;
template<typename T> T make_time(long k)
{
  if constexpr (std::is_floating_point_v<T>)
    return T(k) / unit<T>;
  else if constexpr (requires { typename T::clock; })
    return T(std::chrono::duration_cast<typename T::duration>(std::chrono::milliseconds(k * 1000 / unit<T>)));
  else
    return std::chrono::duration_cast<T>(std::chrono::milliseconds(k * 1000 / unit<T>));
}
// clang-format on

/// trajectory (position, velocity, acceleration) at k ticks, with arbitrary but smooth components
template<typename G, typename T>
struct Ref
{
  G g0      = smooth::Identity<G>();
  Tangent<G> a = Tangent<G>::Zero(), b = a, c = a, d = a;
  std::optional<smooth::Spline<3, G>> spl;
  long t0 = 0;

  std::tuple<G, Tangent<G>, Tangent<G>> at(long k) const
  {
    const double t = double(k) / unit<T>;
    if (spl) {
      Tangent<G> v, w;
      const G g = (*spl)(double(k - t0) / unit<T>, v, w);
      return {g, v, w};
    }
    const double u = std::sin(t);
    return {g0 + Tangent<G>(a * u), b + d * u, c - d * u};
  }
};

template<typename G, typename T>
struct Model
{
  double limit;
  Tangent<G> kp = Tangent<G>::Ones(), kd = Tangent<G>::Ones(), ki = Tangent<G>::Zero();
  Tangent<G> I = Tangent<G>::Zero();
  double mag = 0;  // magnitude of what entered the integral
  std::optional<long> last;
  Ref<G, T> ref;

  Tangent<G> operator()(long k, const G & x, const Tangent<G> & v)
  {
    const auto [gd, vd, ad] = ref.at(k);
    const Tangent<G> e      = smooth::log(composition(smooth::inverse(x), gd));
    if (last && k > *last) {
      const double dt = double(k - *last) / unit<T>;
      for (Index i = 0; i < Dof<G>; ++i) I(i) = std::clamp(I(i) + dt * e(i), -limit, limit);
      mag += dt * e.norm();
    }
    last = k;
    Tangent<G> u;
    for (Index i = 0; i < Dof<G>; ++i) u(i) = ad(i) + kp(i) * e(i) + kd(i) * (vd(i) - v(i)) + ki(i) * I(i);
    return u;
  }
};

template<typename T, typename G>
void history(eng::Src & s)
{
  using Ctl = PID<T, G>;
  struct Unit
  {
    Ctl c;
    Model<G, T> m;
  };
  s.cls(gname<G>());
  s.note("space", gname<G>());
  const auto make = [&] {
    PIDParams prm;
    if (s.coin()) prm.windup_limit = s.pick({0.5, 0.0, 0.1, 2., 1e-3});
    Model<G, T> m;
    m.limit = prm.windup_limit;
    s.note("limit", prm.windup_limit);
    return Unit{Ctl(prm), m};
  };
  std::vector<Unit> us;
  us.push_back(make());
  // start near zero, far away, or at a negative time
  long now = s.pick({0l, 40l, -100l, 100000l});

  const auto nops = s.range(1, 25);
  for (int op = 0; op < nops; ++op) {
    const auto w = us.size() == 1 ? 0 : s.range(0, static_cast<int64_t>(us.size()) - 1);
    Unit & u     = us[static_cast<std::size_t>(w)];
    const auto gains = [&](const char * name, auto set, Tangent<G> & model) {
      if (s.coin()) {
        const double k = s.real(3);
        s.note(name, k);
        set(k);
        model.setConstant(k);
      } else {
        const Tangent<G> k = tangent<G>(s, 3);
        s.note(name, show(k));
        if (s.coin())
          set(k);
        else
          set(k + Tangent<G>::Zero());
        model = k;
      }
    };
    switch (s.weighted({12, 1, 1, 3, 1, 2, 1, 1})) {
    case 0: {
      now += s.weighted({4, 1, 1}) == 0 ? s.range(1, 12) : s.coin() ? 0 : -s.range(0, 9);
      const G x          = element<G>(s, s.pick({0.8, 0.0, 2.}));
      const Tangent<G> v = tangent<G>(s, 2);
      s.note("sample", eng::cat("[", w, "] t ", now, "/", unit<T>, " x ", show_g(x), " v ", show(v)));
      const bool back  = u.m.last && now <= *u.m.last;
      const bool first = !u.m.last;
      const Tangent<G> want = u.m(now, x, v);
      const Tangent<G> got  = u.c(make_time<T>(now), x, v);
      const auto [gd, vd, ad] = u.m.ref.at(now);
      const double sc = 1 + ad.norm() + vd.norm() + v.norm() + (1 + u.m.kp.norm() + u.m.kd.norm() + u.m.ki.norm()) * (4 + u.m.mag);
      s.require((got - want).norm() <= 1e-9 * sc, back ? "backward-sample" : first ? "first-sample" : "sample",
        [&] { return eng::cat("output ", show(got), " instead of ", show(want)); });
      if (back) s.cls("sample not later than the last");
      if (u.m.I.cwiseAbs().maxCoeff() == u.m.limit && u.m.limit > 0) s.cls("at the windup limit");
      if (!u.m.I.isZero(0) && !u.m.ki.cwiseProduct(u.m.I).isZero(0)) s.nontrivial();
      break;
    }
    case 1: gains("kp", [&](const auto & k) { u.c.set_kp(k); }, u.m.kp); break;
    case 2: gains("kd", [&](const auto & k) { u.c.set_kd(k); }, u.m.kd); break;
    case 3: gains("ki", [&](const auto & k) { u.c.set_ki(k); }, u.m.ki); break;
    case 4:
      s.note("reset", w);
      u.c.reset_integral();
      u.m.I.setZero();
      u.m.mag = 0;
      s.cls("reset");
      break;
    case 5: {
      Ref<G, T> r;
      if (s.coin()) {
        r.g0 = element<G>(s), r.a = tangent<G>(s, 0.5), r.b = tangent<G>(s, 1), r.c = tangent<G>(s, 1), r.d = tangent<G>(s, 0.5);
        const std::function<std::tuple<G, Tangent<G>, Tangent<G>>(T)> f = [r](T t) { return r.at(std::lround(smooth::feedback::time_trait<T>::minus(t, make_time<T>(0)) * unit<T>)); };
        if (s.coin())
          u.c.set_xdes(f);
        else
          u.c.set_xdes([f](T t) { return f(t); });
        s.note("reference", eng::cat("[", w, "] ", show_g(r.g0), " ", show(r.a), " ", show(r.b), " ", show(r.c), " ", show(r.d)));
        s.cls("function reference");
      } else {
        r.t0  = now - s.range(0, 8);
        const G g0           = element<G>(s);
        const Tangent<G> c1 = tangent<G>(s, 0.5), c2 = tangent<G>(s, 0.1), c3 = tangent<G>(s, 0.02);
        r.spl                = smooth::Spline<3, G>(g0, {c1, c2, c3});
        if (s.coin())
          u.c.set_xdes(make_time<T>(r.t0), *r.spl);
        else
          u.c.set_xdes(make_time<T>(r.t0), smooth::Spline<3, G>(*r.spl));
        s.note("reference", eng::cat("[", w, "] spline from ", r.t0, " ", show_g(g0), " ", show(c1), " ", show(c2), " ", show(c3)));
        s.cls("spline reference");
      }
      u.m.ref = r;
      break;
    }
    case 6:
      if (us.size() < 3) {
        s.note("copy", w);
        if (s.coin()) {
          us.push_back(Unit{Ctl(u.c), u.m});
        } else {
          Unit tmp{Ctl(u.c), u.m};
          us.push_back(Unit{std::move(tmp.c), tmp.m});
        }
        s.cls("copy");
      }
      break;
    default: {
      const auto v = s.range(0, static_cast<int64_t>(us.size()) - 1);
      Unit & o     = us[static_cast<std::size_t>(v)];
      if (us.size() > 1 && v != w) {
        s.note("assign", eng::cat(v, " := ", w));
        if (s.coin()) {
          o.c = u.c;
        } else {
          Ctl tmp(u.c);
          o.c = std::move(tmp);
        }
        o.m = u.m;
        s.cls("assign");
      } else if (us.size() < 3) {
        us.push_back(make());
      }
    }
    }
  }
}

using NsClock = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;

}  // namespace

PROP(vector_double, 2) { history<double, V2>(s); }
PROP(scalar_float, 1) { history<float, V1>(s); }
PROP(vector_ms, 1) { history<std::chrono::milliseconds, V3>(s); }
PROP(SO3_duration, 2) { history<std::chrono::duration<double>, smooth::SO3<double>>(s); }
PROP(SE2_ns, 2) { history<std::chrono::nanoseconds, smooth::SE2<double>>(s); }
PROP(SE2_steady, 1) { history<std::chrono::steady_clock::time_point, smooth::SE2<double>>(s); }
PROP(bundle_system, 1) { history<NsClock, BSV>(s); }
PROP(SO2_seconds, 1) { history<std::chrono::seconds, smooth::SO2<double>>(s); }
