#include <smooth/feedback/compat/osqp.hpp>

#include <set>

#include "engine.hpp"

using namespace smooth::feedback;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

const eng::CheckInfo eng::check_info{
  "O01",
  "cases: QPs of all problem types (dense dynamic, static and mixed sizes; sparse with stored zeros, compressed or not; entries from 1e-9 "
  "to 1e9; infinite bounds; arbitrary lower triangle of P) x solver parameters x warm starts x answers of OSQP (every status, errors of "
  "setup and solve), through a stand-in for OSQP 0.6 that records what it is given and answers what the case prescribes; two calls per "
  "case; non-trivial: the problem has a nonzero in P and in A",
  150000,
  5000000,
  {"OSQP is represented by a stand-in with the interface of OSQP 0.6"}};

namespace {

constexpr double kInf = std::numeric_limits<double>::infinity();
using shim_osqp::tape;

double entry(eng::Src & s)
{
  switch (s.weighted({3, 5, 1, 1})) {
  case 0: return 0;
  case 1: return s.real(3);
  case 2: return (s.coin() ? -1 : 1) * s.logunif(1e-9, 1e-3);
  default: return (s.coin() ? -1 : 1) * s.logunif(1e3, 1e9);
  }
}

struct Data
{
  MatrixXd P, A, pp, pa;  // values and stored pattern
  VectorXd q, l, u;
};

Data data(eng::Src & s, Index m, Index n)
{
  Data d;
  d.P.resize(n, n), d.A.resize(m, n), d.pp.resize(n, n), d.pa.resize(m, n);
  d.q.resize(n), d.l.resize(m), d.u.resize(m);
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < n; ++j) d.P(i, j) = entry(s), d.pp(i, j) = d.P(i, j) != 0 || s.chance(1, 6);
  for (Index i = 0; i < m; ++i)
    for (Index j = 0; j < n; ++j) d.A(i, j) = entry(s), d.pa(i, j) = d.A(i, j) != 0 || s.chance(1, 6);
  for (Index i = 0; i < n; ++i) d.q(i) = entry(s);
  for (Index i = 0; i < m; ++i) {
    d.l(i) = s.weighted({3, 1}) ? -kInf : entry(s);
    d.u(i) = s.weighted({3, 1}) ? kInf : entry(s);
    if (d.l(i) > d.u(i)) std::swap(d.l(i), d.u(i));
  }
  if (m > 0 && s.chance(1, 20)) {
    const Index i = s.range(0, m - 1);
    d.l(i) = 1, d.u(i) = 0;
  }
  return d;
}

template<typename D>
std::string show(const D & m)
{
  std::ostringstream ss;
  for (Index i = 0; i < m.rows(); ++i) {
    ss << (i ? "; " : "[");
    for (Index j = 0; j < m.cols(); ++j) ss << (j ? " " : "") << m(i, j);
  }
  ss << "]";
  return ss.str();
}

/// dense matrix from a CSC record, checking that the record is well-formed
MatrixXd dense(eng::Src & s, const shim_osqp::Tape::Mat & r, Index rows, Index cols, const char * what)
{
  s.require(r.rows == rows && r.cols == cols, "csc-size", [&] { return eng::cat(what, " is ", r.rows, "x", r.cols, " instead of ", rows, "x", cols); });
  MatrixXd d = MatrixXd::Zero(rows, cols);
  s.require(r.p[0] == 0, "csc-format", [&] { return eng::cat(what, ": column pointers start at ", r.p[0]); });
  for (Index j = 0; j < cols; ++j) {
    std::set<c_int> seen;
    for (c_int k = r.p[j]; k < r.p[j + 1]; ++k) {
      s.require(r.i[k] >= 0 && r.i[k] < rows && seen.insert(r.i[k]).second, "csc-format", [&] { return eng::cat(what, ": bad row index ", r.i[k], " in column ", j); });
      d(r.i[k], j) = r.v[k];
    }
  }
  return d;
}

QPSolverParams params(eng::Src & s)
{
  QPSolverParams p;
  p.verbose         = s.coin();
  p.alpha           = static_cast<float>(s.unif(0.5, 1.9));
  p.rho             = static_cast<float>(s.logunif(1e-3, 10));
  p.sigma           = static_cast<float>(s.logunif(1e-8, 1e-2));
  p.scaling         = s.coin();
  p.eps_abs         = static_cast<float>(s.logunif(1e-9, 1e-1));
  p.eps_rel         = static_cast<float>(s.logunif(1e-9, 1e-1));
  p.eps_primal_inf  = static_cast<float>(s.logunif(1e-9, 1e-1));
  p.eps_dual_inf    = static_cast<float>(s.logunif(1e-9, 1e-1));
  if (s.coin()) p.max_iter = static_cast<uint32_t>(s.range(1, 1000000));
  if (s.coin()) p.max_time = std::chrono::nanoseconds(static_cast<int64_t>(s.logunif(1000, 3e12)));
  p.stop_check_iter = static_cast<uint32_t>(s.range(1, 200));
  p.polish          = s.coin();
  p.polish_iter     = static_cast<uint32_t>(s.range(1, 20));
  p.delta           = static_cast<float>(s.logunif(1e-9, 1e-2));
  return p;
}

template<typename Q>
bool same(const Q & a, const Q & b)
{
  const auto eq = [](const auto & x, const auto & y) {
    const MatrixXd p = x, q = y;
    return p.rows() == q.rows() && p.cols() == q.cols() && p == q;
  };
  return eq(a.P, b.P) && eq(a.A, b.A) && eq(a.q, b.q) && eq(a.l, b.l) && eq(a.u, b.u);
}

template<typename Q>
void call(eng::Src & s, const Q & pbm, const Data & d)
{
  const Index m = d.A.rows(), n = d.A.cols();
  const Q before           = pbm;
  const QPSolverParams prm = params(s);

  tape                = {};
  const c_int codes[] = {OSQP_SOLVED, OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED,
    OSQP_SOLVED_INACCURATE, OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_NON_CVX, OSQP_SIGINT, OSQP_UNSOLVED};
  using St            = QPSolutionStatus;
  const St want[]     = {St::Optimal, St::PrimalInfeasible, St::DualInfeasible, St::MaxIterations, St::MaxTime, St::Unknown, St::Unknown, St::Unknown,
    St::Unknown, St::Unknown, St::Unknown};
  const auto ci       = s.weighted({6, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1});
  tape.status         = codes[ci];
  if (s.chance(1, 10)) tape.setup_error = s.range(1, 6);
  if (s.chance(1, 12)) tape.solve_error = s.range(1, 7);
  tape.iter = s.range(0, 100000);
  tape.obj  = s.real(1000);
  for (Index i = 0; i < n; ++i) tape.x.push_back(s.real(10));
  for (Index i = 0; i < m; ++i) tape.y.push_back(s.real(10));

  QPSolution<-1, -1, double> ws;
  ws.primal.resize(n), ws.dual.resize(m);
  for (Index i = 0; i < n; ++i) ws.primal(i) = s.real(10);
  for (Index i = 0; i < m; ++i) ws.dual(i) = s.real(10);
  const bool warm = s.coin();
  s.note("answer", tape.status).note("setup error", tape.setup_error).note("solve error", tape.solve_error).note("warm", warm);

  const auto r = warm ? solve_qp_osqp(pbm, prm, std::cref(ws)) : solve_qp_osqp(pbm, prm);

  // what OSQP was given
  s.require(tape.setups == 1, "setup-count", [&] { return eng::cat("osqp_setup was called ", tape.setups, " times"); });
  s.require(same(pbm, before), "problem-modified", "the problem passed in was modified");
  s.require(tape.n == n && tape.m == m, "size", [&] { return eng::cat("OSQP got n = ", tape.n, ", m = ", tape.m, " instead of ", n, ", ", m); });
  const MatrixXd P = dense(s, tape.P, n, n, "P"), A = dense(s, tape.A, m, n, "A");
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < n; ++j)
      s.require(P(i, j) == (i <= j ? d.P(i, j) : 0.), "P", [&] { return eng::cat("OSQP got P(", i, ",", j, ") = ", P(i, j), ", the upper triangle of the problem says ", i <= j ? d.P(i, j) : 0.); });
  for (Index j = 0; j < n; ++j)
    for (c_int k = tape.P.p[j]; k < tape.P.p[j + 1]; ++k) s.require(tape.P.i[k] <= j, "P-lower", "OSQP got entries in the lower triangle of P");
  for (Index i = 0; i < m; ++i)
    for (Index j = 0; j < n; ++j) s.require(A(i, j) == d.A(i, j), "A", [&] { return eng::cat("OSQP got A(", i, ",", j, ") = ", A(i, j), " instead of ", d.A(i, j)); });
  const auto bound_eq = [](double a, double b) { return a == b || (a >= 1e30 && b >= 1e30) || (a <= -1e30 && b <= -1e30); };
  for (Index i = 0; i < n; ++i) s.require(tape.q[i] == d.q(i), "q", [&] { return eng::cat("OSQP got q", i, " = ", tape.q[i], " instead of ", d.q(i)); });
  for (Index i = 0; i < m; ++i)
    s.require(bound_eq(tape.l[i], d.l(i)) && bound_eq(tape.u[i], d.u(i)), "bounds",
      [&] { return eng::cat("OSQP got the bounds [", tape.l[i], ",", tape.u[i], "] for row ", i, " instead of [", d.l(i), ",", d.u(i), "]"); });
  const auto & t      = tape.settings;
  const auto setting = [&](const char * name, double got, double w) {
    s.require(std::fabs(got - w) <= 1e-12 * std::fabs(w), "settings", [&] { return eng::cat(name, " = ", got, " instead of ", w); });
  };
  setting("verbose", t.verbose != 0, prm.verbose);
  setting("sigma", t.sigma, prm.sigma);
  setting("alpha", t.alpha, prm.alpha);
  setting("rho", t.rho, prm.rho);
  setting("eps_abs", t.eps_abs, prm.eps_abs);
  setting("eps_rel", t.eps_rel, prm.eps_rel);
  setting("eps_prim_inf", t.eps_prim_inf, prm.eps_primal_inf);
  setting("eps_dual_inf", t.eps_dual_inf, prm.eps_dual_inf);
  setting("scaling", t.scaling != 0, prm.scaling);
  setting("check_termination", t.check_termination, prm.stop_check_iter);
  setting("polish", t.polish != 0, prm.polish);
  setting("polish_refine_iter", t.polish_refine_iter, prm.polish_iter);
  setting("delta", t.delta, prm.delta);
  setting("scaled_termination", t.scaled_termination, 0);
  if (prm.max_iter)
    setting("max_iter", static_cast<double>(t.max_iter), *prm.max_iter);
  else
    s.require(t.max_iter >= 1000000000, "settings", [&] { return eng::cat("max_iter = ", t.max_iter, " without a limit"); });
  if (prm.max_time)
    setting("time_limit", t.time_limit, static_cast<double>(prm.max_time->count()) * 1e-9);
  else
    s.require(t.time_limit == 0 || t.time_limit > 1e6, "settings", [&] { return eng::cat("time_limit = ", t.time_limit, " without a limit"); });

  const bool rejected = tape.setup_error != 0 || (d.l.array() > d.u.array()).any();
  if (!rejected) {
    s.require(tape.solves == 1, "solve-count", [&] { return eng::cat("osqp_solve was called ", tape.solves, " times"); });
    if (warm) {
      s.require(tape.wx == std::vector<double>(ws.primal.data(), ws.primal.data() + n) && tape.wy == std::vector<double>(ws.dual.data(), ws.dual.data() + m),
        "warm-start", "OSQP was not warm started from the given solution");
      s.cls("warm start");
    } else {
      s.require(tape.warm_starts == 0, "warm-start", "OSQP was warm started without a given solution");
    }
  }
  s.require(tape.live == 0, "leak", "the OSQP workspace was not cleaned up");

  // what the caller is given
  if (rejected || tape.solve_error) {
    s.cls(rejected ? "rejected by setup" : "error in solve");
    s.require(r.code != St::Optimal && r.code != St::DualInfeasible && r.code != St::MaxIterations && r.code != St::MaxTime, "error-status",
      [&] { return eng::cat("status ", int(r.code), " although OSQP failed"); });
  } else {
    s.require(r.code == want[ci], "status", [&] { return eng::cat("OSQP status ", tape.status, " became ", int(r.code), " instead of ", int(want[ci])); });
    s.require(r.primal.size() == n && r.dual.size() == m, "result-size", "solution of the wrong size");
    s.require(r.primal == Eigen::Map<VectorXd>(tape.x.data(), n), "primal", "the returned primal is not OSQP's");
    s.require(r.dual == Eigen::Map<VectorXd>(tape.y.data(), m), "dual", "the returned dual is not OSQP's");
    s.require(r.objective == tape.obj, "objective", [&] { return eng::cat("objective ", r.objective, " instead of ", tape.obj); });
    s.require(static_cast<c_int>(r.iter) == tape.iter, "iter", [&] { return eng::cat("iteration count ", r.iter, " instead of ", tape.iter); });
    if ((d.P.triangularView<Eigen::Upper>().toDenseMatrix().array() != 0).any() && (d.A.array() != 0).any()) s.nontrivial();
  }
}

template<int M, int N>
void dense_case(eng::Src & s)
{
  const Index m = M >= 0 ? M : s.range(0, 5), n = N >= 0 ? N : s.range(1, 5);
  const Data d = data(s, m, n);
  s.note("P", show(d.P)).note("A", show(d.A)).note("q", show(d.q)).note("l", show(d.l)).note("u", show(d.u));
  s.cls(eng::cat("dense ", M, "x", N));
  QuadraticProgram<M, N> qp;
  qp.P = d.P, qp.A = d.A, qp.q = d.q, qp.l = d.l, qp.u = d.u;
  call(s, qp, d);
  call(s, qp, d);
}

}  // namespace

PROP(dense_dynamic, 3) { dense_case<-1, -1>(s); }
PROP(dense_3x2, 1) { dense_case<3, 2>(s); }
PROP(dense_2x4, 1) { dense_case<2, 4>(s); }
PROP(dense_xx3, 1) { dense_case<-1, 3>(s); }
PROP(dense_3xx, 1) { dense_case<3, -1>(s); }
PROP(sparse, 5)
{
  const Index m = s.range(0, 6), n = s.range(1, 6);
  const Data d  = data(s, m, n);
  s.note("P", show(d.P)).note("A", show(d.A)).note("q", show(d.q)).note("l", show(d.l)).note("u", show(d.u));
  s.cls("sparse");
  QuadraticProgramSparse<double> qp;
  qp.P.resize(n, n), qp.A.resize(m, n);
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < n; ++j)
      if (d.pp(i, j) != 0) qp.P.insert(i, j) = d.P(i, j);
  for (Index i = 0; i < m; ++i)
    for (Index j = 0; j < n; ++j)
      if (d.pa(i, j) != 0) qp.A.insert(i, j) = d.A(i, j);
  if (s.coin()) qp.P.makeCompressed();
  if (s.coin()) qp.A.makeCompressed();
  qp.q = d.q, qp.l = d.l, qp.u = d.u;
  call(s, qp, d);
  call(s, qp, d);
}
