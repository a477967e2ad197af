#pragma once
#include <optional>

#include <smooth/feedback/asif.hpp>

#include "liegen.hpp"
using namespace lg;
using namespace smooth::feedback;

namespace {

template<typename T>
using Fn1 = std::function<VectorXd(const T &)>;

/// 5-point derivative of fn(x (+) e) at 0
template<typename X>
MatrixXd numdiff(const Fn1<X> & fn, const X & x, double h = 2e-3)
{
  const VectorXd f0 = fn(x);
  MatrixXd J(f0.size(), Dof<X>);
  for (Index i = 0; i < Dof<X>; ++i) {
    Tangent<X> e = Tangent<X>::Zero();
    const auto at = [&](double s) {
      e(i) = s;
      return fn(smooth::rplus(x, e));
    };
    J.col(i) = (8. * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
  }
  return J;
}

/// feature vector of a state: x itself on vector spaces, Ad(x) w on groups
template<typename X>
Tangent<X> feat(const X & x, [[maybe_unused]] const Tangent<X> & w)
{
  if constexpr (is_flat<X>)
    return x;
  else
    return smooth::Ad(x) * w;
}
template<typename U>
Tangent<U> uvec(const U & u)
{
  if constexpr (is_flat<U>)
    return u;
  else
    return Tangent<U>(smooth::log(u).array().sin().matrix());
}

/// dx/dt = a + A feat(x) + N sin(feat(x)) + (G + g feat(x)_0) u
template<typename X, typename U>
struct Sys
{
  static constexpr int n = int(Dof<X>), m = int(Dof<U>);
  Tangent<X> a, w;
  Eigen::Matrix<double, n, n> A, N;
  Eigen::Matrix<double, n, m> G, g;

  Tangent<X> operator()(const X & x, const U & u) const
  {
    const Tangent<X> p = feat<X>(x, w);
    const Tangent<X> s = p.array().sin().matrix();
    const Tangent<U> v = uvec<U>(u);
    Tangent<X> r       = a + A * p + N * s + G * v;
    r += s(0) * (g * v);
    return r;
  }
};

/// u0 (+) (c sin(2t) + K feat(x))
template<typename X, typename U>
struct Backup
{
  static constexpr int n = int(Dof<X>), m = int(Dof<U>);
  U u0;
  Tangent<U> c;
  Eigen::Matrix<double, m, n> K;
  Tangent<X> w;
  U operator()(double t, const X & x) const
  {
    const Tangent<U> d = c * std::sin(2 * t) + K * feat<X>(x, w);
    return smooth::rplus(u0, d);
  }
};

/// d + c t + C feat(x) + D cos(feat(x)) sin(t)
template<typename X, int nh>
struct Barrier
{
  static constexpr int n = int(Dof<X>);
  Eigen::Vector<double, nh> d, c;
  Eigen::Matrix<double, nh, n> C, D;
  Tangent<X> w;
  Eigen::Vector<double, nh> operator()(double t, const X & x) const
  {
    const Tangent<X> p = feat<X>(x, w);
    const Tangent<X> q = p.array().cos().matrix() * std::sin(t + 1);
    return d + c * t + C * p + D * q;
  }
};

enum class Mode { Still, Affine, General };

template<typename X, typename U, int nh>
struct Case
{
  static constexpr int n = int(Dof<X>), m = int(Dof<U>);
  Sys<X, U> f;
  Backup<X, U> bu;
  Barrier<X, nh> h;
  ASIFProblem<X, U> pbm;
  ASIFtoQPParams prm;

  void problem(eng::Src & s, Mode mode)
  {
    const bool lin = mode != Mode::General;
    f.a            = tangent<X>(s, 1);
    f.w            = tangent<X>(s, 1);
    f.A            = matrix<n, n>(s, mode == Mode::Still ? 0 : 0.8);
    f.N            = matrix<n, n>(s, lin ? 0 : 0.5);
    f.G            = matrix<n, m>(s, 1);
    f.g            = matrix<n, m>(s, lin ? 0 : 0.5);
    if (mode == Mode::Still) f.A.setZero();
    if (lin) f.N.setZero(), f.g.setZero();
    s.note("f", eng::cat("a ", show(f.a), " w ", show(f.w), " A ", show(f.A), " N ", show(f.N), " G ", show(f.G), " g ", show(f.g)));
  }
  void policies(eng::Src & s, Mode mode)
  {
    const bool lin = mode != Mode::General;
    bu.u0          = element<U>(s, 0.7);
    bu.c           = tangent<U>(s, 0.4);
    bu.K           = matrix<m, n>(s, 0.4);
    bu.w           = tangent<X>(s, 0.7);
    if (mode == Mode::Still) bu.c.setZero(), bu.K.setZero();
    h.d = matrix<nh, 1>(s, 1), h.c = matrix<nh, 1>(s, 1);
    h.C = matrix<nh, n>(s, 1), h.D = matrix<nh, n>(s, 1);
    if (lin && s.coin()) h.D.setZero();
    h.w = tangent<X>(s, 1);
    s.note("bu", eng::cat("u0 ", show_g(bu.u0), " c ", show(bu.c), " K ", show(bu.K), " w ", show(bu.w)));
    s.note("h", eng::cat("d ", show(h.d), " c ", show(h.c), " C ", show(h.C), " D ", show(h.D), " w ", show(h.w)));
  }
  void point(eng::Src & s)
  {
    pbm.x0    = element<X>(s, 1);
    pbm.u_des = element<U>(s, 1);
    s.note("x0", show_g(pbm.x0)).note("u_des", show_g(pbm.u_des));
  }
  void limits(eng::Src & s, Index maxrows)
  {
    const auto r = s.range(0, maxrows);
    pbm.ulim.A   = matrix(s, r, m, 1);
    if (r > 0 && s.coin()) pbm.ulim.A.topRows(std::min<Index>(r, m)).setIdentity();
    pbm.ulim.c   = element<U>(s, 0.7);
    const VectorXd mid = pbm.ulim.A * tangent<U>(s, 0.7);  // keeps the bounds consistent
    pbm.ulim.l = mid, pbm.ulim.u = mid;
    for (Index i = 0; i < r; ++i) {
      pbm.ulim.l(i) -= s.pick({0.5, 0.1, 0.0, 2., std::numeric_limits<double>::infinity()});
      pbm.ulim.u(i) += s.pick({0.5, 0.1, 2., std::numeric_limits<double>::infinity()});
    }
    for (Index i = 0; i < m; ++i) pbm.W_u(i) = s.pick({1., 0.25, 3., 10.});
    s.note("ulim", eng::cat("A ", show(pbm.ulim.A), " c ", show_g(pbm.ulim.c), " l ", show(pbm.ulim.l), " u ", show(pbm.ulim.u), " W ", show(pbm.W_u)));
  }
  QuadraticProgram<-1, -1, double> qp() const
  {
    return asif_to_qp(pbm, prm, f, h, bu);
  }

  X step(double t, const X & x, double dt) const
  {
    const auto F        = [&](double tt, const X & y) { return f(y, bu(tt, y)); };
    const Tangent<X> k1 = F(t, x);
    const Tangent<X> k2 = F(t + dt / 2, smooth::rplus(x, Tangent<X>(k1 * (dt / 2))));
    const Tangent<X> k3 = F(t + dt / 2, smooth::rplus(x, Tangent<X>(k2 * (dt / 2))));
    const Tangent<X> k4 = F(t + dt, smooth::rplus(x, Tangent<X>(k3 * dt)));
    Tangent<X> d        = (k1 + 2 * k2 + 2 * k3 + k4) * (dt / 6);
    if constexpr (!is_flat<X>) d -= (dt * dt / 12) * (smooth::ad<X>(k1) * k4);
    return smooth::rplus(x, d);
  }
  /// state of the closed loop after k grid intervals
  X flow(X x, std::size_t k) const
  {
    const double tau = pbm.T / double(prm.K);
    const int sub    = std::max(4, int(std::ceil(tau * 24)));
    const int tot    = int(k) * sub;
    for (int i = 0; i < tot; ++i) x = step(i * (tau / sub), x, tau / sub);
    return x;
  }
};

/// all rows of the QP except the barrier rows
template<typename C>
void check_rest(eng::Src & s, const C & c, const QuadraticProgram<-1, -1, double> & qp, int nh)
{
  constexpr int m = C::m;
  const Index B = Index(c.prm.K) * nh, r = c.pbm.ulim.A.rows();
  s.require(qp.A.rows() == B + r + 1 && qp.A.cols() == m + 1 && qp.l.size() == B + r + 1 && qp.u.size() == B + r + 1 && qp.P.rows() == m + 1 && qp.P.cols() == m + 1 && qp.q.size() == m + 1,
    "size", "wrong problem size");
  for (Index i = 0; i < B; ++i) {
    s.require(qp.u(i) == std::numeric_limits<double>::infinity(), "barrier-upper", "barrier constraint has an upper bound");
    s.require(qp.A(i, m) == 1, "barrier-relax", "barrier constraint is not relaxed by the slack");
  }
  const VectorXd off = c.pbm.ulim.A * smooth::rminus(c.pbm.u_des, c.pbm.ulim.c);
  for (Index i = 0; i < r; ++i) {
    const double l = c.pbm.ulim.l(i) - off(i), u = c.pbm.ulim.u(i) - off(i);
    const auto same = [](double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * (1 + std::abs(b)); };
    s.require(qp.A.row(B + i).head(m) == c.pbm.ulim.A.row(i) && qp.A(B + i, m) == 0 && same(qp.l(B + i), l) && same(qp.u(B + i), u), "input-bound",
      [&] { return eng::cat("input bound ", i, ": ", show(qp.A.row(B + i)), " in [", qp.l(B + i), ", ", qp.u(B + i), "]"); });
  }
  s.require(qp.A.row(B + r).head(m).isZero(0) && qp.A(B + r, m) == 1 && qp.l(B + r) == 0 && qp.u(B + r) == std::numeric_limits<double>::infinity(), "slack", "bounds on the slack");
  MatrixXd P = MatrixXd::Zero(m + 1, m + 1);
  P.topLeftCorner(m, m) = c.pbm.W_u.asDiagonal();
  P(m, m)               = c.prm.relax_cost;
  s.require(MatrixXd(qp.P).isApprox(P, 1e-14) && qp.q.isZero(0), "cost", [&] { return "cost matrix " + show(qp.P); });
}

/// barrier rows, in terms of the state x, sensitivity S at a grid time t
template<typename C, int nh, typename X>
void barrier_rows(const C & c, double t, const X & x, const MatrixXd & S, MatrixXd & A, VectorXd & l)
{
  constexpr int m   = C::m;
  const VectorXd h0 = c.h(t, x);
  const double e    = 1e-3;
  const VectorXd ht = (8. * (c.h(t + e, x) - c.h(t - e, x)) - (c.h(t + 2 * e, x) - c.h(t - 2 * e, x))) / (12 * e);
  const MatrixXd hx = numdiff<X>([&](const X & y) -> VectorXd { return c.h(t, y); }, x);
  using U           = std::decay_t<decltype(c.pbm.u_des)>;
  const VectorXd f0 = c.f(c.pbm.x0, c.pbm.u_des);
  const MatrixXd fu = numdiff<U>([&](const U & u) -> VectorXd { return c.f(c.pbm.x0, u); }, c.pbm.u_des);
  A                 = hx * S * fu;
  l                 = -ht - c.prm.alpha * h0 - hx * S * f0;
  static_cast<void>(m);
}

template<typename X, typename U, int nh>
void build(eng::Src & s)
{
  constexpr int m = int(Dof<U>);
  using C = Case<X, U, nh>;
  C c;
  const auto mode = is_flat<X> && is_flat<U> ? static_cast<Mode>(s.weighted({2, 3, 3})) : Mode::General;
  s.note("space", gname<X>()).note("mode", int(mode));
  s.cls(eng::cat(gname<X>(), mode == Mode::General ? " nonlinear" : mode == Mode::Affine ? " affine" : " constant drift"));
  c.problem(s, mode);
  c.policies(s, mode);
  c.point(s);
  c.limits(s, 3);
  c.prm.K          = static_cast<std::size_t>(s.range(1, mode == Mode::General ? 4 : 7));
  c.prm.alpha      = s.pick({1., 0.3, 2., 5.});
  c.prm.relax_cost = s.pick({100., 1., 1000.});
  MatrixXd A;
  VectorXd l;
  if (mode == Mode::General) {
    c.pbm.T          = s.pick({0.5, 0.25, 1., 0.8});
    const double tau = c.pbm.T / double(c.prm.K);
    const int k      = std::max(1, int(std::ceil(tau / 0.02)));
    s.note("T", c.pbm.T).note("K", c.prm.K).note("steps", k);
    c.prm.dt      = tau / k;
    const auto q1 = c.qp();
    check_rest(s, c, q1, nh);
    c.prm.dt      = tau / (2 * k);
    const auto q2 = c.qp();
    // an arbitrary maximal step, with its first-order error
    c.prm.dt      = tau / s.unif(1, 6);
    const auto q3 = c.qp();
    check_rest(s, c, q3, nh);
    const double L = 1 + c.f.a.norm() + c.f.A.norm() + c.f.N.norm() + c.f.G.norm() * (1 + c.bu.K.norm() + 2 * c.bu.c.norm()) + c.f.g.norm() + c.f.w.norm();
    const double M = 1 + (c.h.C.norm() + c.h.D.norm()) * (1 + c.h.w.norm());
    for (std::size_t j = 0; j < c.prm.K; ++j) {
      const X x        = c.flow(c.pbm.x0, j);
      const MatrixXd S = numdiff<X>([&](const X & y) -> VectorXd { return smooth::rminus(c.flow(y, j), x); }, c.pbm.x0);
      barrier_rows<C, nh>(c, double(j) * tau, x, S, A, l);
      const MatrixXd Ae = 2 * q2.A.block(Index(j) * nh, 0, nh, m) - q1.A.block(Index(j) * nh, 0, nh, m);
      const VectorXd le = 2 * q2.l.segment(Index(j) * nh, nh) - q1.l.segment(Index(j) * nh, nh);
      const double e    = std::max((A - Ae).norm(), (l - le).norm()) / M;
      const double tol  = 1e-6 + 0.02 * L * L * std::exp(0.25 * L * double(j) * tau) * (tau / k) * (tau / k) * double(j > 0) * (1 + c.prm.alpha) * 10;
      s.require(e <= tol, j == 0 ? "barrier-now" : "barrier", [&] {
        return eng::cat("barrier constraint ", j, " differs by ", e, " > ", tol, ": ", show(Ae), " | ", show(le), " instead of ", show(A), " | ", show(l));
      });
      const double e3   = std::max((A - q3.A.block(Index(j) * nh, 0, nh, m)).norm(), (l - q3.l.segment(Index(j) * nh, nh)).norm()) / M;
      const double tol3 = 1e-6 + 2 * L * L * std::exp(0.25 * L * double(j) * tau) * c.prm.dt * double(j > 0) * (1 + c.prm.alpha) * double(j) * tau;
      s.require(e3 <= tol3, "barrier-coarse", [&] { return eng::cat("barrier constraint ", j, " differs by ", e3, " > ", tol3, " for a step of ", c.prm.dt); });
      if (j > 0 && A.norm() > 1e-3) s.nontrivial();
    }
  } else if constexpr (is_flat<X> && is_flat<U>) {
    constexpr int n = int(Dof<X>);
    const double tau = s.pick({0.125, 0.25, 0.5});
    c.pbm.T          = tau * double(c.prm.K);
    int sub          = 1;
    if (mode == Mode::Still) {  // any step
      if (s.coin()) c.pbm.T *= s.unif(0.3, 2);
      c.prm.dt = s.weighted({1, 3}) == 0 ? 0.1 : c.pbm.T / double(c.prm.K) * s.unif(0.13, 1.5);
    } else {
      sub      = static_cast<int>(s.pick({1, 2, 4}));
      c.prm.dt = sub == 1 ? s.pick({tau, 10.}) : tau / sub;
    }
    s.note("T", c.pbm.T).note("K", c.prm.K).note("dt", c.prm.dt);
    // storage that is used again
    auto qp = c.qp();
    if (s.coin()) {
      const auto keep = c.pbm;
      c.point(s);
      c.limits(s, 3);
      if (c.pbm.ulim.A.rows() == keep.ulim.A.rows()) {
        asif_to_qp_update(qp, c.pbm, c.prm, c.f, c.h, c.bu);
        s.cls("storage used again");
      } else {
        c.pbm = keep;
      }
    }
    check_rest(s, c, qp, nh);
    X x         = c.pbm.x0;
    MatrixXd S  = MatrixXd::Identity(n, n);
    const MatrixXd F = c.f.A + c.f.G * c.bu.K;
    const double dtau = c.pbm.T / double(c.prm.K);
    for (std::size_t j = 0; j < c.prm.K; ++j) {
      barrier_rows<C, nh>(c, double(j) * dtau, x, S, A, l);
      const MatrixXd Ae = qp.A.block(Index(j) * nh, 0, nh, m);
      const VectorXd le = qp.l.segment(Index(j) * nh, nh);
      const double sc = 1 + x.norm() + S.norm() * c.f.a.norm();
      const double e  = std::max((A - Ae).norm(), (l - le).norm());
      s.require(e <= 1e-7 * sc * sc, j == 0 ? "barrier-now" : "barrier-exact",
        [&] { return eng::cat("barrier constraint ", j, " differs by ", e, ": ", show(Ae), " | ", show(le), " instead of ", show(A), " | ", show(l)); });
      if (j > 0 && A.norm() > 1e-3) s.nontrivial();
      for (int i = 0; i < sub; ++i) {
        const double dt = dtau / sub, t = double(j) * dtau + i * dt;
        x += dt * c.f(x, c.bu(t, x));
        S += dt * F * S;
      }
    }
  }
}

/// minimizer of 1/2 z'Pz s.t. l <= A z <= u by enumeration of active sets (P diagonal, positive)
inline std::optional<VectorXd> enumerate(const MatrixXd & P, const MatrixXd & A, const VectorXd & l, const VectorXd & u)
{
  const Index N = P.rows();
  std::vector<std::pair<VectorXd, double>> rows;  // a z >= b
  for (Index i = 0; i < A.rows(); ++i) {
    if (std::isfinite(l(i))) rows.emplace_back(A.row(i), l(i));
    if (std::isfinite(u(i))) rows.emplace_back(-A.row(i), -u(i));
  }
  std::optional<VectorXd> best;
  double bc = std::numeric_limits<double>::infinity();
  std::vector<std::size_t> act;
  const MatrixXd Pi = P.inverse();
  const std::function<void(std::size_t)> rec = [&](std::size_t from) {
    const Index k = Index(act.size());
    MatrixXd B(k, N);
    VectorXd b(k);
    for (Index i = 0; i < k; ++i) B.row(i) = rows[act[std::size_t(i)]].first, b(i) = rows[act[std::size_t(i)]].second;
    VectorXd z = VectorXd::Zero(N);
    if (k > 0) {
      const MatrixXd Gm = B * Pi * B.transpose();
      Eigen::FullPivLU<MatrixXd> lu(Gm);
      lu.setThreshold(1e-9);
      if (lu.rank() < k) return;
      z = Pi * B.transpose() * lu.solve(b);
    }
    double viol = 0;
    for (const auto & [a, bb] : rows) viol = std::max(viol, (bb - a.dot(z)) / (1 + a.norm()));
    const double cost = 0.5 * z.dot(P * z);
    if (viol <= 1e-9 * (1 + z.norm()) && cost < bc) bc = cost, best = z;
    if (k == N) return;
    for (std::size_t i = from; i < rows.size(); ++i) {
      act.push_back(i);
      rec(i + 1);
      act.pop_back();
    }
  };
  rec(0);
  return best;
}

template<typename X, typename U, int nh>
void filter(eng::Src & s)
{
  constexpr int m = int(Dof<U>);
  using C = Case<X, U, nh>;
  C c;
  s.note("space", gname<X>());
  s.cls(eng::cat("filter ", gname<X>()));
  const auto mode = s.coin() ? Mode::General : is_flat<X> ? Mode::Affine : Mode::General;
  c.problem(s, mode);
  c.point(s);
  c.limits(s, m);
  c.prm.K          = static_cast<std::size_t>(s.range(1, 4 / nh));
  c.prm.alpha      = s.pick({1., 0.3, 2.});
  c.prm.relax_cost = s.pick({100., 1., 1000.});
  c.prm.dt         = s.pick({0.1, 0.05, 1.});
  c.pbm.T          = s.pick({0.5, 0.25, 1.});
  s.note("prm", eng::cat("K ", c.prm.K, " T ", c.pbm.T, " dt ", c.prm.dt, " alpha ", c.prm.alpha, " relax ", c.prm.relax_cost));
  ASIFilterParams<U> prm;
  prm.T = c.pbm.T, prm.nh = nh, prm.u_weight = c.pbm.W_u, prm.ulim = c.pbm.ulim, prm.asif = c.prm;
  prm.qp.eps_abs = 1e-6f, prm.qp.eps_rel = 1e-6f, prm.qp.max_iter = 200000;
  ASIFilter<X, U, Sys<X, U>> filt(c.f, prm);
  std::optional<ASIFilter<X, U, Sys<X, U>>> other;
  for (auto calls = s.range(1, 5); calls > 0; --calls) {
    c.policies(s, mode);
    if (s.coin()) c.point(s);
    const auto qp       = c.qp();
    const auto best     = enumerate(qp.P, qp.A, qp.l, qp.u);
    const double size   = qp.A.norm() + qp.l.array().isFinite().select(qp.l.array(), 0).matrix().norm() + qp.u.array().isFinite().select(qp.u.array(), 0).matrix().norm();
    if (!best || size > 60 || (!is_flat<U> && best->head(m).norm() > 2.5)) continue;
    auto & F             = other && s.coin() ? *other : filt;
    const auto [u, code] = F(c.pbm.x0, c.pbm.u_des, c.h, c.bu);
    if (!other && s.coin()) other.emplace(filt);
    // rows with tiny coefficients are infeasible up to the tolerances of the solver
    double tiny = 1;
    for (const double v : qp.A.reshaped())
      if (v != 0) tiny = std::min(tiny, std::abs(v));
    if (code == QPSolutionStatus::PrimalInfeasible && tiny < 1e-2) {
      s.cls("infeasible up to tolerance");
      continue;
    }
    s.require(code != QPSolutionStatus::PrimalInfeasible && code != QPSolutionStatus::DualInfeasible && code != QPSolutionStatus::MaxTime, "code",
      [&] { return eng::cat("status ", int(code), " although the problem is feasible"); });
    s.cls(code == QPSolutionStatus::Optimal ? "optimal" : code == QPSolutionStatus::PolishFailed ? "optimal, not polished" : "iteration limit");
    if (code != QPSolutionStatus::Optimal && code != QPSolutionStatus::PolishFailed) {
      // the limit is a hundred times what the problem needs: history must not make it unsolvable
      const auto cold = feedback::solve_qp(qp, prm.qp);
      s.require(!(cold.code == QPSolutionStatus::Optimal && cold.iter <= 2000), "history-limit",
        [&] { return eng::cat("status ", int(code), " although a fresh solver needs ", cold.iter, " iterations"); });
      continue;
    }
    const VectorXd mu = smooth::rminus(u, c.pbm.u_des);
    VectorXd z(m + 1);
    z.head(m) = mu;
    z(m)      = 0;
    const Index B = Index(c.prm.K) * nh;
    for (Index i = 0; i < B; ++i) z(m) = std::max(z(m), qp.l(i) - qp.A.row(i).head(m).dot(mu));
    const double tol = 2e-4 * (1 + best->norm());
    // input bounds in terms of the user's input
    const VectorXd uu = c.pbm.ulim.A * smooth::rminus(u, c.pbm.ulim.c);
    if (is_flat<U>)
      for (Index i = 0; i < uu.size(); ++i)
        s.require(uu(i) >= c.pbm.ulim.l(i) - tol && uu(i) <= c.pbm.ulim.u(i) + tol, "filter-bound",
          [&] { return eng::cat("input bound ", i, ": ", uu(i), " not in [", c.pbm.ulim.l(i), ", ", c.pbm.ulim.u(i), "]"); });
    if (best->isZero(1e-12)) {
      s.cls("desired input is safe");
      s.require(mu.norm() <= tol, "filter-invasive", [&] { return eng::cat("a safe desired input was changed by ", show(mu)); });
    } else {
      s.cls((*best)(m) > 1e-9 ? "slack" : "modified");
      s.nontrivial();
    }
    const double cond = 1 + 1 / c.pbm.W_u.minCoeff();
    s.require((mu - best->head(m)).norm() <= 10 * cond * tol && std::abs(z(m) - (*best)(m)) <= 100 * cond * tol, "filter-optimal",
      [&] { return eng::cat("input change ", show(mu), " slack ", z(m), " instead of ", show(*best)); });
  }
}

}  // namespace
