#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q02",
  "cases: QPs for which no approximate infeasibility certificate can exist at the configured thresholds (proved per case: interior "
  "point with margin or well-conditioned full-row-rank constraints against primal certificates; strong convexity or small dual "
  "multipliers against dual certificates) x parameters x warm starts x iteration limits; non-trivial: at least one iteration was run "
  "and the problem has a non-free row",
  250000,
  8000000,
  {"margins exceed the certificate thresholds by a factor of at least 2, so that rounding cannot produce a certificate"}};

static QPSolverParams any_params(eng::Src & s)
{
  auto p = params(s, 1e-8);
  if (s.coin()) {
    p.eps_primal_inf = static_cast<float>(s.logunif(1e-7, 1e-3));
    p.eps_dual_inf   = static_cast<float>(s.logunif(1e-7, 1e-3));
  }
  p.max_iter = static_cast<uint32_t>(s.pick({300, 3000, 30, 1000, 5}));
  return p;
}

static void run(eng::Src & s, const QPData & d, std::size_t rep, const char * cls)
{
  const auto & ri  = all_reps()[rep];
  const auto prm   = any_params(s);
  const Layout lo  = layout(s, d, ri.sparse);
  std::optional<QPResult> warm;
  if (s.chance(1, 3)) {
    warm.emplace();
    const double mag = s.pick({1., 10., 1000.});
    warm->x          = vec(s, d.n(), mag);
    warm->y          = vec(s, d.m(), mag);
    s.note("warm.x", show(warm->x)).note("warm.y", show(warm->y));
  }
  s.note("rep", ri.name).note("layout", show(lo)).note("prm", show(prm)).note("qp", show(d));
  const auto r = ri.make()->solve_once(d, lo, prm, warm ? &*warm : nullptr);
  s.cls(std::string(cls) + ": " + code_name(r.code));
  bool nonfree = false;
  for (Index i = 0; i < d.m(); ++i) nonfree |= d.l(i) != -kInf || d.u(i) != kInf;
  if (nonfree && r.iter > 0) s.nontrivial();
  s.require(r.code != QPSolutionStatus::PrimalInfeasible, "false-primal-infeasible", [&] { return show(r); });
  s.require(r.code != QPSolutionStatus::DualInfeasible, "false-dual-infeasible", [&] { return show(r); });
  s.require(r.code != QPSolutionStatus::Unknown, "unknown", [&] { return show(r); });
}

/// bounds around A*x0 with margin; returns finite-side info
static void interior_bounds(eng::Src & s, QPData & d, const VectorXd & x0)
{
  const VectorXd z = d.A * x0;
  d.l.resize(d.m());
  d.u.resize(d.m());
  for (Index i = 0; i < d.m(); ++i) {
    const auto k = row_kind(s, false);
    d.l(i)       = (k == Row::Upper || k == Row::Free) ? -kInf : z(i) - s.logunif(0.1, 10);
    d.u(i)       = (k == Row::Lower || k == Row::Free) ? kInf : z(i) + s.logunif(0.1, 10);
  }
}

// strictly convex with an interior point, any linear cost
PROP(convex_interior, 3)
{
  const auto dim = rep_dims(s, 8, 10);
  QPData d;
  d.A = matrix(s, dim.m, dim.n, static_cast<unsigned>(s.range(1, 4)));
  d.P = psd(s, dim.n, 3);  // eigenvalues >= 0.25
  d.q = vec(s, dim.n, s.pick({1., 10., 100.}));
  interior_bounds(s, d, vec(s, dim.n));
  run(s, d, dim.rep, "convex");
}

// zero or singular P; q = -(P w + A'y) with |w|_1 + |y|_1 < 1 and y dual feasible
PROP(weakly_convex_interior, 4)
{
  const auto dim = rep_dims(s, 8, 10);
  QPData d;
  d.A = matrix(s, dim.m, dim.n, static_cast<unsigned>(s.range(1, 4)));
  d.P = psd(s, dim.n, static_cast<int>(s.weighted({3, 1, 1})));
  interior_bounds(s, d, vec(s, dim.n));
  VectorXd w = VectorXd::Zero(dim.n), y = VectorXd::Zero(dim.m);
  if (s.coin()) {
    w = vec(s, dim.n, 0.2 / static_cast<double>(dim.n));
    for (Index i = 0; i < dim.m; ++i) {
      const double v = s.real(0.2 / static_cast<double>(dim.m));
      if (v > 0 && d.u(i) != kInf) y(i) = v;
      if (v < 0 && d.l(i) != -kInf) y(i) = v;
    }
  } else {
    s.cls("pure feasibility problem");
  }
  d.q = -(d.P * w + d.A.transpose() * y);
  run(s, d, dim.rep, "weakly convex");
}

// equality rows: constraints with well-conditioned independent rows can not be contradictory
PROP(full_row_rank, 3)
{
  auto dim       = rep_dims(s, 8, 8);
  const auto & r = all_reps()[dim.rep];
  if (r.M < 0) dim.m = std::min(dim.m, dim.n);
  if (dim.m > dim.n) s.discard("more rows than columns");
  QPData d;
  d.A = matrix(s, dim.m, dim.n, static_cast<unsigned>(s.range(1, 4)));
  for (Index i = 0; i < dim.m; ++i) d.A(i, i) += (d.A(i, i) >= 0 ? 1. : -1.) * s.unif(1, 3);
  if (dim.m > 0) {
    const double smin = Eigen::JacobiSVD<MatrixXd>(d.A).singularValues().minCoeff();
    if (smin < 0.1) s.discard("ill-conditioned rows");
  }
  d.P = psd(s, dim.n, 3);
  d.q = vec(s, dim.n, s.pick({1., 10.}));
  d.l.resize(dim.m);
  d.u.resize(dim.m);
  for (Index i = 0; i < dim.m; ++i) {
    const auto k   = row_kind(s, true);
    const double b = s.real(5);
    d.l(i)         = (k == Row::Upper || k == Row::Free) ? -kInf : b;
    d.u(i)         = (k == Row::Lower || k == Row::Free) ? kInf : (k == Row::Eq ? b : b + s.logunif(1e-3, 10));
  }
  run(s, d, dim.rep, "full row rank");
}

// any feasible problem (equalities, contradictory-looking touching rows): a point with |x|_1 < 1 excludes certificates
PROP(small_feasible_point, 4)
{
  const auto dim = rep_dims(s, 6, 9);
  auto k         = known_solution(s, dim.n, dim.m, GenOpt{.pkind = 3});
  // shrink so that |x|_1 <= 0.8, then recompute bounds relative to the new A*x
  const double f = 0.8 / std::max(0.8, k.x.lpNorm<1>());
  for (Index i = 0; i < dim.m; ++i) k.d.l(i) *= f, k.d.u(i) *= f;
  // duplicate / negate rows so that touching pairs occur
  for (Index i = 0; i + 1 < dim.m; ++i) {
    if (!s.chance(1, 3)) continue;
    const double a    = -s.unif(0.5, 2);
    k.d.A.row(i + 1)  = a * k.d.A.row(i);
    const double z    = k.d.A.row(i + 1).dot(f * k.x);
    const bool lo     = s.coin();
    k.d.l(i + 1)      = lo ? z - s.pick({0., 1e-9}) : -kInf;
    k.d.u(i + 1)      = lo ? kInf : z + s.pick({0., 1e-9});
  }
  run(s, k.d, dim.rep, "small feasible point");
}
