#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q03",
  "cases: well-conditioned QPs whose status is known by construction (known KKT point / contradictory bounds with a known "
  "multiplier certificate / known feasible descent ray) x representation x parameters; non-trivial: needs more than one "
  "termination check or is infeasible",
  250000,
  6000000,
  {"'without limits' is represented by an iteration limit of 100000 (1000000 without scaling), at least 20 times what such problems need"}};

static QPSolverParams prms(eng::Src & s)
{
  auto p         = params(s, 1e-5);
  no_limit(p);
  return p;
}

static QPResult run(eng::Src & s, const QPData & d, std::size_t rep, const QPSolverParams & prm)
{
  const auto & ri = all_reps()[rep];
  const Layout lo = layout(s, d, ri.sparse);
  s.note("rep", ri.name).note("layout", show(lo)).note("prm", show(prm)).note("qp", show(d));
  const auto r = ri.make()->solve_once(d, lo, prm, nullptr);
  const char * b = r.iter < 30 ? "iter <30" : r.iter < 300 ? "iter 30-300" : r.iter < 1000 ? "iter 300-1000" : r.iter < 5000 ? "iter 1000-5000" : r.iter < 20000 ? "iter 5000-20000" : "iter >20000";
  s.cls(b);
  s.cls(std::string("code ") + code_name(r.code));
  return r;
}

/// settings with which polishing must succeed on clear-cut problems
static bool good_polish(const QPSolverParams & p)
{
  return p.polish && p.polish_iter >= 5 && p.delta <= 2e-6f && p.eps_abs <= 2e-4f && p.eps_rel <= 2e-4f;
}

PROP(solvable, 5)
{
  const auto dim = rep_dims(s, 8, 10);
  GenOpt o;
  o.pkind      = 3;
  o.slater     = true;
  const auto k = known_solution(s, dim.n, dim.m, o);
  const auto p = prms(s);
  const auto r = run(s, k.d, dim.rep, p);
  if (r.iter > p.stop_check_iter + 2) s.nontrivial();
  MatrixXd act(0, dim.n);  // rows with a multiplier
  for (Index i = 0; i < dim.m; ++i) {
    if (k.y(i) == 0) continue;
    act.conservativeResize(act.rows() + 1, dim.n);
    act.bottomRows(1) = k.d.A.row(i).normalized();
  }
  const bool licq = act.rows() == 0 || (act.rows() <= dim.n && Eigen::JacobiSVD<MatrixXd>(act).singularValues().minCoeff() > 0.15);
  if (licq && good_polish(p)) {
    s.cls("polish must succeed");
    s.require(r.code != QPSolutionStatus::PolishFailed, "polish-failed", [&] { return show(r); });
  }
  s.require(
    r.code == QPSolutionStatus::Optimal || r.code == QPSolutionStatus::PolishFailed, "not-solved", [&] { return show(r); });
  check_optimal(s, k.d, p, r);
}

// contradictory rows
PROP(primal_infeasible, 3)
{
  auto dim        = rep_dims(s, 5, 7);
  const auto & ri = all_reps()[dim.rep];
  if (ri.M < 0) dim.m = std::max<Index>(dim.m, 2);
  const auto d = contradictory(s, dim.n, dim.m);
  s.nontrivial();
  const auto r = run(s, d, dim.rep, prms(s));
  s.require(r.code == QPSolutionStatus::PrimalInfeasible, "infeasibility-missed", [&] { return show(r); });
}

// one row that no point satisfies, among rows that a point satisfies strictly
PROP(empty_row, 1)
{
  auto dim        = rep_dims(s, 5, 7);
  const auto & ri = all_reps()[dim.rep];
  if (ri.M < 0) dim.m = std::max<Index>(dim.m, 1);
  if (dim.m < 1) s.discard("no rows");
  GenOpt o;
  o.pkind      = 3;
  o.slater     = true;
  auto d       = known_solution(s, dim.n, dim.m, o).d;
  const auto i = s.range(0, dim.m - 1);
  switch (s.range(0, 3)) {
  case 0: d.l(i) = d.u(i) = kInf; break;
  case 1: d.l(i) = d.u(i) = -kInf; break;
  case 2: d.l(i) = kInf, d.u(i) = -kInf; break;
  default: d.l(i) = s.real(3), d.u(i) = d.l(i) - s.unif(0.2, 2); break;
  }
  s.nontrivial();
  s.cls("empty row");
  const auto r = run(s, d, dim.rep, prms(s));
  s.require(r.code == QPSolutionStatus::PrimalInfeasible, "infeasibility-missed", [&] { return show(r); });
}

// feasible and unbounded below
PROP(dual_infeasible, 3)
{
  const auto dim = rep_dims(s, 6, 8);
  const auto d   = unbounded(s, dim.n, dim.m);
  s.nontrivial();
  const auto r = run(s, d, dim.rep, prms(s));
  s.require(r.code == QPSolutionStatus::DualInfeasible, "unboundedness-missed", [&] { return show(r); });
}

// larger sparse problems with structure (banded dynamics, box constraints)
PROP(banded, 1)
{
  const Index N = s.range(2, 12), nx = s.range(1, 2);
  const Index n = N * nx + N;  // states 1..N and inputs 0..N-1
  QPData d;
  d.P = MatrixXd::Zero(n, n);
  for (Index i = 0; i < n; ++i) d.P(i, i) = s.unif(0.3, 3);
  d.q           = vec(s, n, 1);
  const Index m = N * nx + N;
  d.A           = MatrixXd::Zero(m, n);
  d.l.resize(m);
  d.u.resize(m);
  MatrixXd F = MatrixXd::Identity(nx, nx) * s.unif(0.5, 0.8);  // no growth over the horizon
  for (Index i = 0; i < nx; ++i)
    for (Index j = 0; j < nx; ++j) F(i, j) += s.real(0.2) / static_cast<double>(nx);
  const VectorXd B = VectorXd::Constant(nx, s.unif(0.3, 1)), x0 = vec(s, nx, 1);
  for (Index k = 0; k < N; ++k) {
    d.A.block(k * nx, k * nx, nx, nx).setIdentity();
    if (k > 0) d.A.block(k * nx, (k - 1) * nx, nx, nx) = -F;
    d.A.block(k * nx, N * nx + k, nx, 1) = -B;
    d.l.segment(k * nx, nx) = d.u.segment(k * nx, nx) = k == 0 ? VectorXd(F * x0) : VectorXd(VectorXd::Zero(nx));
    d.A(N * nx + k, N * nx + k) = 1;
    const double lim            = s.unif(0.05, 2);
    d.l(N * nx + k) = -lim, d.u(N * nx + k) = lim;
  }
  const auto p = prms(s);
  const auto r = run(s, d, s.weighted({0, 3}) ? 1 : (s.coin() ? 0 : 1), p);
  if (r.iter > p.stop_check_iter + 2) s.nontrivial();
  s.require(
    r.code == QPSolutionStatus::Optimal || r.code == QPSolutionStatus::PolishFailed, "not-solved", [&] { return show(r); });
  check_optimal(s, d, p, r);
}
