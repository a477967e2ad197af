#include <cassert>
#include <numeric>
#include <utility>

#include <smooth/feedback/collocation/dyn_error.hpp>

#include "fungen.hpp"
#include "liegen.hpp"

const eng::CheckInfo eng::check_info{
  "M03",
  "cases: (1) arbitrary smooth dynamics and trajectories on random refined meshes, error compared with exact integration of the interpolating "
  "polynomial; (2) polynomial trajectories that satisfy polynomial dynamics exactly, error near zero, then violated in chosen intervals, flagged "
  "exactly there; (3) refinement by these errors leaves intervals below the target as they are, and brings the error of exact solutions of "
  "linear systems below the target; non-trivial: more than one interval",
  40000,
  1500000,
  {"the Lie-group library is a stand-in (shim/smooth)"}};

namespace {
using fg::Index;
using fg::MatrixXd;
using fg::VectorXd;
namespace sf = smooth::feedback;

template<std::size_t Kmin, std::size_t Kmax>
sf::Mesh<Kmin, Kmax> mesh(eng::Src & s)
{
  sf::Mesh<Kmin, Kmax> m(static_cast<std::size_t>(s.range(1, 5)), static_cast<std::size_t>(s.range(Kmin, Kmax + 1)));
  for (int64_t k = s.range(0, 3); k-- > 0;) {
    const auto i = static_cast<std::size_t>(s.range(0, int64_t(m.N_ivals()) - 1));
    if (s.coin())
      m.refine_ph(i, Kmax + static_cast<std::size_t>(s.range(1, 3)));
    else
      m.set_N_colloc_ival(i, static_cast<std::size_t>(s.range(Kmin, Kmax + 1)));
  }
  return m;
}
template<typename M>
std::vector<double> nodes(const M & m, std::size_t i)
{
  std::vector<double> r;
  for (const double t : m.interval_nodes(i)) r.push_back(t);
  return r;
}
template<typename M>
std::string show(const M & m)
{
  std::string r;
  for (std::size_t i = 0; i < m.N_ivals(); ++i) r += eng::cat("[", nodes(m, i).front(), ":", m.N_colloc_ival(i), "]");
  return r;
}

/// 12-point Gauss-Legendre rule on [-1, 1]: exact for degree 23
const std::pair<VectorXd, VectorXd> & gauss()
{
  static const auto r = [] {
    const int n = 12;
    MatrixXd J  = MatrixXd::Zero(n, n);
    for (int k = 1; k < n; ++k) J(k, k - 1) = J(k - 1, k) = k / std::sqrt(4. * k * k - 1);
    const Eigen::SelfAdjointEigenSolver<MatrixXd> es(J);
    return std::pair<VectorXd, VectorXd>{es.eigenvalues(), 2 * es.eigenvectors().row(0).transpose().array().square().matrix()};
  }();
  return r;
}

/// estimate of interval i by its definition
template<typename M, typename F, typename X, typename U>
double estimate(const M & m, std::size_t i, const F & f, double t0, double tf, const X & x, const U & u)
{
  const std::vector<double> tau = nodes(m, i);
  const std::size_t K = tau.size() - 1;
  const auto lagrange = [&](std::size_t j, double t) {
    double r = 1;
    for (std::size_t k = 0; k < K; ++k)
      if (k != j) r *= (t - tau[k]) / (tau[j] - tau[k]);
    return r;
  };
  std::vector<VectorXd> Fj;
  for (std::size_t j = 0; j < K; ++j) {
    const double t = t0 + (tf - t0) * tau[j];
    Fj.push_back(f(t, x(t), u(t)));
  }
  const VectorXd x0 = x(t0 + (tf - t0) * tau[0]);
  double worst = 0, size = 0;
  for (std::size_t e = 1; e <= K; ++e) {
    VectorXd y = x0;
    const double h = (tau[e] - tau[0]) / 2;
    for (Index q = 0; q < gauss().first.size(); ++q) {
      const double t = tau[0] + h * (gauss().first(q) + 1);
      for (std::size_t j = 0; j < K; ++j) y += (tf - t0) * h * gauss().second(q) * lagrange(j, t) * Fj[j];
    }
    const VectorXd xe = x(t0 + (tf - t0) * tau[e]);
    worst = std::max(worst, (y - xe).norm());
    size  = std::max(size, xe.norm());
  }
  return worst / (1 + size);
}

template<int nx, int nu, typename M>
void formula(eng::Src & s, const M & m)
{
  constexpr int nz = 1 + nx + nu;
  const double t0 = s.real(2), tf = t0 + s.pick({1., 0.2, 4.});
  const fg::Data df = fg::data(s, nx, nz, 2), dx = fg::data(s, nx, 1, 2), du = fg::data(s, nu, 1, 2);
  const fg::Plain<nx> f{df};
  const auto x = [&](double t) -> Eigen::Vector<double, nx> { return dx.value(VectorXd::Constant(1, t)); };
  const auto u = [&](double t) -> Eigen::Vector<double, nu> { return du.value(VectorXd::Constant(1, t)); };
  s.note("mesh", show(m));
  if (m.N_ivals() > 1) s.nontrivial();
  s.cls("arbitrary trajectories");
  const VectorXd e = sf::mesh_dyn_error(f, m, t0, tf, x, u);
  s.require(e.size() == Index(m.N_ivals()), "size", [&] { return eng::cat(e.size(), " errors for ", m.N_ivals(), " intervals"); });
  for (std::size_t i = 0; i < m.N_ivals(); ++i) {
    const double want = estimate(m, i, f, t0, tf, x, u);
    s.require(std::abs(e(Index(i)) - want) <= 1e-10 * (1 + df.size()) * (1 + dx.size() * 40) * (1 + du.size()), "formula", [&] { return eng::cat("error of interval ", i, " is ", e(Index(i)), " instead of ", want); });
  }
}

template<int nx, typename M>
void exact(eng::Src & s, const M & m)
{
  std::size_t Kleast = 100;
  for (std::size_t i = 0; i < m.N_ivals(); ++i) Kleast = std::min(Kleast, m.N_colloc_ival(i));
  const double t0 = s.real(2), tf = t0 + s.pick({1., 0.5, 3.});
  // x(t) = C [1, s, s^2, ...], s = (t - t0) / (tf - t0); xdot = g(t) + A x - A x(t) in disguise
  const Index deg = s.range(0, int64_t(Kleast));
  const MatrixXd C = lg::matrix(s, nx, deg + 1, 1.);
  // the part of the dynamics that is a polynomial of degree deg in time only
  const bool feedback = deg + 1 <= Index(Kleast) && s.coin();
  const MatrixXd A    = lg::matrix(s, nx, nx, 1.);
  const auto xex = [&](double t) -> Eigen::Vector<double, nx> {
    const double r = (t - t0) / (tf - t0);
    Eigen::Vector<double, nx> v = Eigen::Vector<double, nx>::Zero();
    for (Index k = deg; k >= 0; --k) v = v * r + C.col(k);
    return v;
  };
  const auto dxex = [&](double t) -> Eigen::Vector<double, nx> {
    const double r = (t - t0) / (tf - t0);
    Eigen::Vector<double, nx> v = Eigen::Vector<double, nx>::Zero();
    for (Index k = deg; k >= 1; --k) v = v * r + double(k) * C.col(k);
    return v / (tf - t0);
  };
  // with feedback: xdot = A x + u, u = dx - A x
  const auto f = [&](double t, const Eigen::Vector<double, nx> & x, const Eigen::Vector<double, nx> & u) -> Eigen::Vector<double, nx> {
    return feedback ? Eigen::Vector<double, nx>(A * x + u) : dxex(t);
  };
  const auto u = [&](double t) -> Eigen::Vector<double, nx> { return dxex(t) - A * xex(t); };
  s.note("mesh", show(m)).note("degree", deg).note("t0", t0).note("tf", tf);
  if (m.N_ivals() > 1) s.nontrivial();
  s.cls(feedback ? "exact with feedback" : "exact");
  const double sc = (1 + C.norm() * double(deg + 1)) * (1 + A.norm());
  const VectorXd e = sf::mesh_dyn_error(f, m, t0, tf, xex, u);
  s.require(e.size() == Index(m.N_ivals()), "size", [&] { return eng::cat(e.size(), " errors for ", m.N_ivals(), " intervals"); });
  for (Index i = 0; i < e.size(); ++i) s.require(e(i) >= 0 && e(i) <= 1e-11 * sc, "exact", [&] { return eng::cat("error ", e(i), " in interval ", i, " for an exact solution"); });

  // violations inside chosen intervals
  std::vector<bool> bad(m.N_ivals());
  std::vector<double> amp(m.N_ivals());
  for (std::size_t i = 0; i < bad.size(); ++i) bad[i] = s.chance(1, 3), amp[i] = bad[i] ? s.pick({1., -0.1, 1e-3}) : 0;
  const int kind = int(s.weighted({1, 1}));  // 0: trajectory leaves in the interior, 1: wrong dynamics
  Eigen::Vector<double, nx> dir = lg::matrix<nx>(s, 1.);
  dir(0) = 1;
  const auto find = [&](double t) { return std::min(m.interval_find((t - t0) / (tf - t0)), m.N_ivals() - 1); };
  // zero on the borders of all intervals
  const auto bump = [&](double t) {
    const double r = (t - t0) / (tf - t0);
    for (std::size_t i = 0; i < bad.size(); ++i) {
      const auto n = nodes(m, i);
      if (std::abs(r - n.front()) < 1e-9 || std::abs(r - n.back()) < 1e-9) return 0.;
    }
    return amp[find(t)];
  };
  const auto x2 = [&](double t) -> Eigen::Vector<double, nx> { return xex(t) + (kind == 0 ? bump(t) : 0) * dir; };
  const auto f2 = [&](double t, const Eigen::Vector<double, nx> & x, const Eigen::Vector<double, nx> & v) -> Eigen::Vector<double, nx> {
    Eigen::Vector<double, nx> r = f(t, kind == 0 ? xex(t) : x, v);
    if (kind == 1) {
      // the collocation points of interval i are its nodes but the last
      const double q = (t - t0) / (tf - t0);
      std::size_t i = find(t + 1e-9 * (tf - t0));
      if (q < 1 - 1e-9) r += amp[i] * dir;
    }
    return r;
  };
  const VectorXd e2 = sf::mesh_dyn_error(f2, m, t0, tf, x2, u);
  double xs = 0;
  for (std::size_t i = 0; i < bad.size(); ++i)
    for (const double n : nodes(m, i)) xs = std::max(xs, x2(t0 + (tf - t0) * n).norm());
  for (std::size_t i = 0; i < bad.size(); ++i) {
    const double len = nodes(m, i).back() - nodes(m, i).front();
    if (!bad[i] || (kind == 0 && m.N_colloc_ival(i) < 2)) {
      s.require(e2(Index(i)) <= 1e-10 * sc, "elsewhere", [&] { return eng::cat("error ", e2(Index(i)), " in interval ", i, " which has no violation"); });
    } else {
      const double least = (kind == 0 ? std::abs(amp[i]) : std::abs(amp[i]) * (tf - t0) * len * 0.99) / (1 + xs) * (1 - 1e-6);
      s.require(e2(Index(i)) >= least, "flagged", [&] { return eng::cat("error ", e2(Index(i)), " in interval ", i, " with a violation of ", amp[i], ", at least ", least); });
      s.cls(kind == 0 ? "trajectory violated" : "dynamics violated");
    }
  }

  // refinement by these errors changes only intervals above the target
  {
    M m2 = m;
    const double target = s.pick({1e-6, 1e-3, 1e-2});
    bool clear = true;
    for (Index i = 0; i < e2.size(); ++i) clear = clear && std::abs(e2(i) - target) > 1e-12;
    if (clear) {
      m2.refine_errors(e2, target);
      std::size_t at = 0;
      for (std::size_t i = 0; i < bad.size(); ++i) {
        const auto a = nodes(m, i);
        const double end = a.back();
        if (e2(Index(i)) <= target) {
          s.require(at < m2.N_ivals() && m2.N_colloc_ival(at) == m.N_colloc_ival(i), "untouched", [&] { return eng::cat("interval ", i, " with error ", e2(Index(i)), " changed: ", show(m2)); });
          const auto b = nodes(m2, at);
          s.require(b.size() == a.size() && std::abs(b.front() - a.front()) < 1e-12 && std::abs(b.back() - a.back()) < 1e-12, "untouched", [&] { return eng::cat("interval ", i, " with error ", e2(Index(i)), " changed: ", show(m2)); });
          ++at;
        } else {
          const std::size_t first = at;
          while (at < m2.N_ivals() && nodes(m2, at).back() <= end + 1e-12) ++at;
          const std::size_t n = at - first;
          s.require(n >= 1 && std::abs(nodes(m2, at - 1).back() - end) < 1e-12, "refined", [&] { return eng::cat("interval ", i, " is not refined in place: ", show(m2)); });
          s.require(n >= 2 || m2.N_colloc_ival(first) > m.N_colloc_ival(i), "refined", [&] { return eng::cat("interval ", i, " with error ", e2(Index(i)), " above ", target, " is not refined: ", show(m2)); });
          s.cls(n >= 2 ? "split" : "degree raised");
        }
      }
      s.require(at == m2.N_ivals(), "refined", "intervals left over");
    }
  }
}

/// exact solution of xdot = A x + b sin(w t): refinement gets the error below the target
template<typename M>
void converge(eng::Src & s, M m)
{
  using V = Eigen::Vector2d;
  const double a = s.real(2), w = s.unif(0, 4), t0 = s.real(1), T = s.unif(0.5, 4), tf = t0 + T;
  // rotation with damping: x = exp(a t) (cos wt, sin wt)
  const auto x = [&](double t) -> V { return std::exp(a * (t - t0)) * V(std::cos(w * t), std::sin(w * t)); };
  const auto u = [&](double t) -> V { return V(std::sin(3 * t), 1); };
  const auto f = [&](double t, const V & y, const V & v) -> V { return V(a * y(0) - w * y(1), w * y(0) + a * y(1)) + (v - V(std::sin(3 * t), 1)); };
  const double target = s.pick({1e-4, 1e-6, 1e-8});
  s.note("mesh", show(m)).note("a", a).note("w", w).note("T", T).note("target", target);
  s.cls("refined until accurate");
  s.nontrivial();
  double worst = 0;
  for (int it = 0; it < 30; ++it) {
    const VectorXd e = sf::mesh_dyn_error(f, m, t0, tf, x, u);
    worst            = e.maxCoeff();
    if (worst <= target) return;
    if (m.N_ivals() > 4000) s.fail("growth", eng::cat("mesh grew to ", m.N_ivals(), " intervals with error ", worst));
    m.refine_errors(e, target);
  }
  s.fail("converge", eng::cat("error still ", worst, " after 30 refinements: ", m.N_ivals(), " intervals"));
}
}  // namespace

PROP(formula_R2_R1, 3) { formula<2, 1>(s, mesh<2, 5>(s)); }
PROP(formula_R1_R2, 2) { formula<1, 2>(s, mesh<1, 3>(s)); }
PROP(formula_R3_R1, 1) { formula<3, 1>(s, mesh<5, 10>(s)); }
PROP(exact_R1, 3) { exact<1>(s, mesh<2, 5>(s)); }
PROP(exact_R2, 3) { exact<2>(s, mesh<1, 3>(s)); }
PROP(exact_R2_big, 2) { exact<2>(s, mesh<5, 10>(s)); }
PROP(converge_2_5, 1) { converge(s, mesh<2, 5>(s)); }
PROP(converge_5_10, 1) { converge(s, mesh<5, 10>(s)); }
