#pragma once
#include <functional>
#include <optional>

#include <Eigen/Eigenvalues>
#include <boost/numeric/odeint.hpp>
#include <smooth/compat/odeint.hpp>
#include <smooth/feedback/ekf.hpp>

#include "liegen.hpp"
using namespace lg;
using smooth::feedback::EKF;

namespace {

namespace ode = boost::numeric::odeint;
template<typename G>
using Cov = Eigen::Matrix<double, Dof<G>, Dof<G>>;

/// dynamics f(t, g) = a + c sin(2 t) + B Ad(g) v    (plus A x + N sin(x) on vector spaces)
template<typename G>
struct Dyn
{
  static constexpr int n = int(Dof<G>);
  Tangent<G> a, c, v;
  Cov<G> B, A, N;

  Dyn(eng::Src & s, bool linear)
  {
    a = tangent<G>(s, 1);
    c = s.coin() ? tangent<G>(s, 1) : Tangent<G>(Tangent<G>::Zero());
    v = tangent<G>(s, 1);
    B.setZero(), A.setZero(), N.setZero();
    if constexpr (is_flat<G>) {
      A = matrix<n, n>(s, 1);
      if (!linear) N = matrix<n, n>(s, 1);
    } else if (!linear) {
      B = matrix<n, n>(s, 0.7);
    }
  }
  Tangent<G> f(double t, const G & g) const
  {
    Tangent<G> r = a + c * std::sin(2 * t);
    if constexpr (is_flat<G>)
      r += A * g + N * g.array().sin().matrix();
    else
      r += B * (smooth::Ad(g) * v);
    return r;
  }
  /// system matrix of the linearized error dynamics
  Cov<G> F(double t, const G & g) const
  {
    if constexpr (is_flat<G>)
      return A + N * g.array().cos().matrix().asDiagonal();
    else
      return -smooth::ad<G>(f(t, g)) - B * smooth::Ad(g) * smooth::ad<G>(v);
  }
};

/// measurement h(g) = C Ad(g) w + d (C x + D sin(x) on vector spaces)
template<typename G, int Ny>
struct Meas
{
  static constexpr int n = int(Dof<G>);
  Eigen::Matrix<double, Ny, n> C, D;
  Tangent<G> w;
  Eigen::Vector<double, Ny> d;

  Meas(eng::Src & s, bool linear)
  {
    C = matrix<Ny, n>(s, 1);
    D.setZero();
    if (!linear && is_flat<G>) D = matrix<Ny, n>(s, 1);
    w = tangent<G>(s, 1);
    d = matrix<Ny, 1>(s, 1);
  }
  Eigen::Vector<double, Ny> operator()(const G & g) const
  {
    if constexpr (is_flat<G>)
      return C * g + D * g.array().sin().matrix() + d;
    else
      return C * (smooth::Ad(g) * w) + d;
  }
  Eigen::Matrix<double, Ny, n> jac(const G & g) const
  {
    if constexpr (is_flat<G>)
      return C + D * g.array().cos().matrix().asDiagonal();
    else
      return -C * smooth::Ad(g) * smooth::ad<G>(w);
  }
};
/// the same with a member jacobian, for filters with analytic derivatives
template<typename G, int Ny>
struct MeasA : Meas<G, Ny>
{
  using Meas<G, Ny>::Meas;
  Eigen::Matrix<double, Ny, int(Dof<G>)> jacobian(const G & g) const { return this->jac(g); }
};

double dist(const auto & a, const auto & b)
{
  if constexpr (requires { a.norm(); })
    return (a - b).norm();
  else
    return (a - b).norm();
}
template<typename M>
double min_eig(const M & P)
{
  return Eigen::SelfAdjointEigenSolver<MatrixXd>(MatrixXd(0.5 * (P + P.transpose())), Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
}

/// replace the strict lower triangle by garbage
template<typename M>
M upper_only(eng::Src & s, M m)
{
  if (!s.coin()) return m;
  for (Index i = 0; i < m.rows(); ++i)
    for (Index j = 0; j < i; ++j) m(i, j) = s.pick({0., 1e3, -7., 55.});
  s.cls("noise by its upper triangle");
  return m;
}

template<typename G>
struct State
{
  G g;
  Cov<G> P;
};

template<typename G>
Cov<G> lyap(const Cov<G> & F, const Cov<G> & P, const Cov<G> & Q)
{
  return F * P + P * F.transpose() + Q;
}

enum class Kind { Euler, RK4, CK };

/// fine solution of the coupled ODE of estimate and covariance
template<typename G>
State<G> exact(const Dyn<G> & d, State<G> x, const Cov<G> & Q, double tau)
{
  const int N    = 200;
  const double h = tau / N;
  for (int k = 0; k < N; ++k) {
    const double t = k * h;
    // RK4 in exponential coordinates around the current estimate (Crouch-Grossman style: enough here with tiny steps)
    const auto g1 = d.f(t, x.g);
    const G ga    = x.g + Tangent<G>(g1 * (h / 2));
    const auto g2 = d.f(t + h / 2, ga);
    const G gb    = x.g + Tangent<G>(g2 * (h / 2));
    const auto g3 = d.f(t + h / 2, gb);
    const G gc    = x.g + Tangent<G>(g3 * h);
    const auto g4 = d.f(t + h, gc);
    const Cov<G> k1 = lyap<G>(d.F(t, x.g), x.P, Q);
    const Cov<G> k2 = lyap<G>(d.F(t + h / 2, gb), x.P + k1 * (h / 2), Q);
    const Cov<G> k3 = lyap<G>(d.F(t + h / 2, gb), x.P + k2 * (h / 2), Q);
    const Cov<G> k4 = lyap<G>(d.F(t + h, gc), x.P + k3 * h, Q);
    x.g             = x.g + Tangent<G>((g1 + 2 * g2 + 2 * g3 + g4) * (h / 6));
    x.P += (k1 + 2 * k2 + 2 * k3 + k4) * (h / 6);
  }
  return x;
}

/// one step of the stepper; only for linear systems when not Euler
template<typename G>
State<G> step(const Dyn<G> & d, const State<G> & x, const Cov<G> & Q, double t, double h, Kind k)
{
  State<G> r = x;
  if (k == Kind::Euler) {
    r.g = x.g + Tangent<G>(d.f(t, x.g) * h);
    r.P = x.P + h * lyap<G>(d.F(t, x.g), x.P, Q);
  } else if constexpr (is_flat<G>) {
    const auto g1   = d.f(t, x.g);
    const auto g2   = d.f(t + h / 2, x.g + g1 * (h / 2));
    const auto g3   = d.f(t + h / 2, x.g + g2 * (h / 2));
    const auto g4   = d.f(t + h, x.g + g3 * h);
    const Cov<G> F  = d.F(t, x.g);
    const Cov<G> k1 = lyap<G>(F, x.P, Q);
    const Cov<G> k2 = lyap<G>(F, x.P + k1 * (h / 2), Q);
    const Cov<G> k3 = lyap<G>(F, x.P + k2 * (h / 2), Q);
    const Cov<G> k4 = lyap<G>(F, x.P + k3 * h, Q);
    r.g             = x.g + (g1 + 2 * g2 + 2 * g3 + g4) * (h / 6);
    r.P += (k1 + 2 * k2 + 2 * k3 + k4) * (h / 6);
  }
  return r;
}

template<typename G>
void compare(eng::Src & s, const State<G> & want, const G & g, const Cov<G> & P, double tol, const char * tag, const std::string & what)
{
  const double sc = 1 + want.P.norm();
  double gs       = 1;
  if constexpr (is_flat<G>) gs += want.g.norm();
  const double eg = dist(want.g, g), ep = (want.P - P).norm();
  s.require(eg <= tol * gs, std::string(tag) + "-mean", [&] { return eng::cat(what, ": estimate ", show_g(g), " is ", eg, " away from ", show_g(want.g)); });
  s.require(ep <= tol * sc, std::string(tag) + "-cov", [&] { return eng::cat(what, ": covariance ", show(P), " instead of ", show(want.P)); });
}

template<typename G, template<typename...> typename Stpr, Kind K>
void history(eng::Src & s)
{
  using Filter = EKF<G, diff::Type::Default, Stpr>;
  constexpr int n = int(Dof<G>);
  s.cls(gname<G>());
  s.note("space", gname<G>()).note("stepper", K == Kind::Euler ? "euler" : K == Kind::RK4 ? "rk4" : "cash-karp");
  Filter ekf;
  std::optional<Filter> fresh;  // sees only the operations since the last reset

  const auto nops = s.range(1, 8);
  for (int op = 0; op < nops; ++op) {
    const State<G> pre{ekf.estimate(), ekf.covariance()};
    switch (op == 0 ? s.weighted({3, 1, 1}) : s.weighted({1, 4, 4})) {
    case 0: {
      const State<G> x{element<G>(s, 0.8), spd<n>(s, 1, s.pick({0.01, 0.1, 1.}))};
      s.note("reset", show_g(x.g) + " P " + show(x.P));
      ekf.reset(x.g, x.P);
      s.require(dist(ekf.estimate(), x.g) <= 1e-9 && ekf.covariance() == x.P, "reset", "reset does not set the state it is given");
      fresh.emplace();
      fresh->reset(x.g, x.P);
      s.cls("reset");
      break;
    }
    case 1: {
      const bool linear = s.coin();
      const Dyn<G> d(s, linear);
      const Cov<G> Q = s.coin() ? spd<n>(s, 0.7, 0) : Cov<G>(Cov<G>::Zero());
      const double tau = s.pick({0.25, 0.0, 0.125, 0.5, 0.0625});
      const auto Qg    = upper_only(s, Q);
      s.note("predict", eng::cat(linear ? "linear" : "nonlinear", " tau ", tau, " a ", show(d.a), " c ", show(d.c), " v ", show(d.v), " B ", show(d.B), " A ", show(d.A), " N ", show(d.N), " Q ", show(Qg)));
      double tlast = 0, tmax = 0, gap = 0, tmin = 0;
      const auto f = [&](const auto & t, const auto & g) {
        tmin  = std::min(tmin, double(t));
        tmax  = std::max(tmax, double(t));
        gap   = std::max(gap, double(t) - tlast);
        tlast = double(t);
        return d.f(double(t), g);
      };
      const bool flat_lin = is_flat<G> && linear;
      const bool autonomous = d.c.isZero(0);
      const auto mode = s.weighted({3, 3, 3});
      const double tol = 2e-8;
      std::function<void(Filter &)> redo;
      if (mode == 0) {  // one step
        const int how = static_cast<int>(s.range(0, 3));
        const std::optional<double> dt = how == 0 ? std::optional<double>{} : how == 1 ? tau : how == 2 ? 3 * tau + 1e-3 : 1.;
        redo = [&, dt, how](Filter & k) { how == 0 ? k.predict(f, Qg, tau) : k.predict(f, Qg, tau, dt); };
        if (how == 1 && tau == 0) break;  // a maximal step of zero is not a step size
        redo(ekf);
        if (K == Kind::Euler || (K == Kind::RK4 && flat_lin)) {
          compare(s, step(d, pre, Q, 0, tau, K), ekf.estimate(), ekf.covariance(), tol, "predict", "one step");
          s.cls(linear ? "one step, linear" : "one step, nonlinear");
          if (tau > 0) s.nontrivial();
        }
      } else if (mode == 1) {  // k equal steps
        const int k     = static_cast<int>(1 << s.range(0, 3));
        const double dt = tau / k;
        if (tau == 0) break;
        redo = [&, dt](Filter & x) { x.predict(f, Qg, tau, dt); };
        Filter sub = ekf;
        redo(ekf);
        s.require(tmin >= 0 && tmax <= tau * (1 + 1e-12), "predict-time", [&] { return eng::cat("dynamics evaluated at times ", tmin, "..", tmax, " for tau = ", tau); });
        if (K == Kind::Euler || (K == Kind::RK4 && flat_lin)) {
          State<G> w = pre;
          for (int i = 0; i < k; ++i) w = step(d, w, Q, i * dt, dt, K);
          compare(s, w, ekf.estimate(), ekf.covariance(), tol * k, "predict", eng::cat(k, " steps"));
          s.cls(linear ? "several steps, linear" : "several steps, nonlinear");
          s.nontrivial();
        }
        if (autonomous) {  // the same as k predictions
          for (int i = 0; i < k; ++i) s.coin() ? sub.predict(f, Qg, dt) : sub.predict(f, Qg, dt, dt);
          compare(s, {sub.estimate(), sub.covariance()}, ekf.estimate(), ekf.covariance(), tol * k, "split", eng::cat("split into ", k));
          s.cls("split");
        }
      } else {  // any maximal step size: converges to the solution of the ODE
        if (tau == 0) break;
        const double dt = tau / s.unif(8, 24);
        Filter half     = ekf;
        redo            = [&, dt](Filter & x) { x.predict(f, Qg, tau, dt); };
        redo(ekf);
        s.require(tmin >= 0 && tmax <= tau * (1 + 1e-12), "predict-time", [&] { return eng::cat("dynamics evaluated at times ", tmin, "..", tmax, " for tau = ", tau); });
        s.require(gap <= dt * (1 + 1e-9), "predict-step", [&] { return eng::cat("a step of ", gap, " exceeds the maximum of ", dt); });
        // equal steps so that the error has an expansion in the step size
        const int k = static_cast<int>(s.range(16, 32));
        Filter a = half, b = half;
        a.predict(f, Qg, tau, tau / k);
        b.predict(f, Qg, tau, tau / (2 * k));
        const State<G> w = exact(d, pre, Q, tau);
        const double h = tau / k, sc = 1 + pre.P.norm();
        const double C = 60 * (1 + d.f(0, pre.g).norm() + d.F(0, pre.g).norm() + d.B.norm() * d.v.norm() + d.N.norm() + 2 * d.c.norm());
        const double C2 = C * C / 60;
        const Cov<G> Pe = 2 * b.covariance() - a.covariance();
        const G ge      = b.estimate() + Tangent<G>(b.estimate() - a.estimate());
        compare(s, w, ge, Pe, 1e-8 + C2 * C * h * h * tau / sc * sc / 60, "converge", eng::cat("extrapolated from steps of ", h));
        compare(s, w, ekf.estimate(), ekf.covariance(), 1e-8 + C2 * dt * tau, "accuracy", eng::cat("steps of ", dt));
        s.cls("converge");
        if (!linear) s.nontrivial();
      }
      if (fresh && redo) redo(*fresh);
      break;
    }
    default: {
      const auto upd = [&]<int Ny>() {
        const bool linear = s.coin();
        const auto run    = [&](auto h) {
          const Eigen::Matrix<double, Ny, Ny> R = spd<Ny>(s, 0.7, s.pick({0.05, 0.5}));
          const auto Rg                         = upper_only(s, R);
          const Eigen::Vector<double, Ny> y     = h(pre.g) + matrix<Ny, 1>(s, 0.7);
          const auto H                          = h.jac(pre.g);
          s.note("update", eng::cat("C ", show(h.C), " D ", show(h.D), " w ", show(h.w), " d ", show(h.d), " y ", show(y), " R ", show(Rg)));
          const MatrixXd S = H * pre.P * H.transpose() + R;
          const MatrixXd W = S.inverse();
          const MatrixXd Kg = pre.P * H.transpose() * W;
          State<G> w;
          w.g = pre.g + Tangent<G>(Kg * (y - h(pre.g)));
          w.P = pre.P - Kg * H * pre.P;
          ekf.update(h, y, Rg);
          if (fresh) fresh->update(h, y, Rg);
          const double amp = 1 + Kg.norm() * H.norm() + Kg.norm();
          compare(s, w, ekf.estimate(), ekf.covariance(), 1e-8 * amp * amp * (1 + pre.P.norm()), "update", "update");
          const double inc = -min_eig(MatrixXd(pre.P - ekf.covariance()));
          s.require(inc <= 1e-8 * amp * (1 + pre.P.norm()), "update-increases", [&] { return eng::cat("the update increased the covariance by ", inc); });
          s.cls(linear ? "update, linear" : "update, nonlinear");
          if (!H.isZero(0)) s.nontrivial();
        };
        run(Meas<G, Ny>(s, linear));
      };
      switch (s.range(0, 3)) {
      case 0: upd.template operator()<1>(); break;
      case 1: upd.template operator()<2>(); break;
      case 2: upd.template operator()<3>(); break;
      default: {  // a measurement on the group itself
        const G off                      = element<G>(s, 0.5);
        const Eigen::Matrix<double, n, n> R = spd<n>(s, 0.5, 0.3);
        const auto Rg                    = upper_only(s, R);
        const auto h                     = [&](const auto & g) { return composition(g, off); };
        const Tangent<G> e               = tangent<G>(s, 0.3);
        const G y                        = h(pre.g) + e;
        const Cov<G> H                   = smooth::Ad(smooth::inverse(off));
        s.note("update on the group", eng::cat("offset ", show_g(off), " e ", show(e), " R ", show(Rg)));
        const MatrixXd S  = H * pre.P * H.transpose() + R;
        const MatrixXd Kg = pre.P * H.transpose() * MatrixXd(S.inverse());
        State<G> w;
        w.g = pre.g + Tangent<G>(Kg * (y - h(pre.g)));
        w.P = pre.P - Kg * H * pre.P;
        ekf.update(h, y, Rg);
        if (fresh) fresh->update(h, y, Rg);
        const double amp = 1 + Kg.norm() * H.norm() + Kg.norm();
        compare(s, w, ekf.estimate(), ekf.covariance(), 1e-8 * amp * amp * (1 + pre.P.norm()), "update", "update on the group");
        s.cls("update on the group");
        s.nontrivial();
      }
      }
    }
    }
    const G g       = ekf.estimate();
    const Cov<G> P  = ekf.covariance();
    const double sc = 1 + P.norm();
    s.require(P.allFinite(), "finite", "covariance not finite");
    s.require((P - P.transpose()).norm() <= 1e-12 * sc, "symmetric", [&] { return "covariance not symmetric: " + show(P); });
    if (fresh)
      s.require(dist(fresh->estimate(), g) <= 1e-9 && (fresh->covariance() - P).norm() <= 1e-12 * sc, "reset-independent",
        "a filter that was reset behaves differently from a fresh one");
    // explicit integration may leave the cone (by its discretization error): start over from there
    if (min_eig(P) < 1e-4 || P.norm() > 50 || smooth::log(g).norm() > 20) {
      const State<G> x{Default<G>(), Cov<G>::Identity()};
      ekf.reset(x.g, x.P);
      fresh.reset();
    }
  }
}

template<typename G>
void steppers(eng::Src & s)
{
  switch (s.weighted({4, 2, 1})) {
  case 0: history<G, ode::euler, Kind::Euler>(s); break;
  case 1: history<G, ode::runge_kutta4, Kind::RK4>(s); break;
  default: history<G, ode::runge_kutta_cash_karp54, Kind::CK>(s); break;
  }
}

/// analytic measurement derivatives are used when asked for
template<typename G>
void fusion(eng::Src & s)
{
  constexpr int n = int(Dof<G>);
  EKF<G, diff::Type::Analytic> ekf;
  State<G> x{element<G>(s, 0.8), spd<n>(s, 1, 0.1)};
  ekf.reset(x.g, x.P);
  for (auto k = s.range(1, 4); k > 0; --k) {
    const MeasA<G, 2> h(s, s.coin());
    const Eigen::Matrix2d R   = spd<2>(s, 0.7, 0.2);
    const Eigen::Vector2d y   = h(x.g) + matrix<2, 1>(s, 0.5);
    const auto H              = h.jac(x.g);
    const Eigen::Matrix2d S   = H * x.P * H.transpose() + R;
    const Eigen::Matrix<double, n, 2> K = x.P * H.transpose() * S.inverse();
    const double amp = 1 + K.norm() * H.norm() + K.norm();
    const State<G> w{x.g + Tangent<G>(K * (y - h(x.g))), x.P - K * H * x.P};
    ekf.update(h, y, upper_only(s, R));
    compare(s, w, ekf.estimate(), ekf.covariance(), 1e-9 * amp * amp * (1 + x.P.norm()), "update-analytic", "update with analytic derivative");
    s.nontrivial();
    x = {ekf.estimate(), ekf.covariance()};
  }
}

}  // namespace

