#include <fcntl.h>
#include <iostream>
#include <unistd.h>

#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q08",
  "cases: arbitrary (solvable, infeasible, degenerate) QPs x iteration limits / time limits / polish settings / verbosity; limited runs are "
  "compared with unlimited ones; non-trivial: the limit was what stopped the solver, or polishing failed, or output was verbose",
  150000,
  4000000,
  {"time limits are 0 (certainly exceeded) or one hour (certainly not), so no verdict depends on the clock"}};

namespace {

QPData any_problem(eng::Src & s, Index n, Index m)
{
  switch (s.weighted({4, 1, 1, 2})) {
  case 0: return known_solution(s, n, m).d;
  case 1: return m >= 2 ? contradictory(s, n, m) : known_solution(s, n, m).d;
  case 2: return unbounded(s, n, m);
  default: {  // anything
    QPData d;
    d.P = psd(s, n, static_cast<int>(s.draw(4)));
    d.q = vec(s, n, 3);
    d.A = matrix(s, m, n, 3);
    d.l.resize(m);
    d.u.resize(m);
    for (Index i = 0; i < m; ++i) {
      const auto k   = row_kind(s);
      const double b = s.real(3);
      d.l(i)         = (k == Row::Upper || k == Row::Free) ? -kInf : b;
      d.u(i)         = (k == Row::Lower || k == Row::Free) ? kInf : k == Row::Eq ? b : b + std::fabs(s.real(3));
    }
    return d;
  }
  }
}

bool same(const QPResult & a, const QPResult & b, double tol)
{
  if (a.code != b.code || a.iter != b.iter) return false;
  if (!a.x.allFinite() || !b.x.allFinite() || !a.y.allFinite() || !b.y.allFinite()) return true;
  return (a.x - b.x).norm() <= tol * (1 + b.x.norm()) && (a.y - b.y).norm() <= tol * (1 + b.y.norm());
}

struct Setup
{
  Dim dim;
  QPData d;
  QPSolverParams p;
  Layout lo;
  QPResult run(const QPSolverParams & prm, const QPResult * w = nullptr) const { return all_reps()[dim.rep].make()->solve_once(d, lo, prm, w); }
};

Setup setup(eng::Src & s)
{
  Setup u;
  u.dim = rep_dims(s, 6, 8);
  u.d   = any_problem(s, u.dim.n, u.dim.m);
  u.p   = params(s, 1e-7);
  u.lo  = layout(s, u.d, all_reps()[u.dim.rep].sparse);
  s.note("rep", all_reps()[u.dim.rep].name).note("layout", show(u.lo)).note("prm", show(u.p)).note("qp", show(u.d));
  return u;
}

}  // namespace

// the result with limit k follows from the result with a larger limit
PROP(max_iter, 4)
{
  auto u       = setup(s);
  const auto K = static_cast<uint32_t>(s.pick({400, 60, 2000}));
  const auto k = static_cast<uint32_t>(s.weighted({1, 1}) ? s.draw(K + 1) : s.draw(30));
  std::optional<QPResult> w;
  if (s.chance(1, 4)) {
    w.emplace();
    w->x = vec(s, u.dim.n, 2);
    w->y = vec(s, u.dim.m, 2);
  }
  s.note("K", K).note("k", k);
  u.p.max_iter = K;
  const auto a = u.run(u.p, w ? &*w : nullptr);
  u.p.max_iter = k;
  const auto b = u.run(u.p, w ? &*w : nullptr);
  const auto info = [&] { return eng::cat("limit ", K, ": ", show(a), " limit ", k, ": ", show(b)); };
  s.cls(std::string("code ") + code_name(b.code));
  for (const auto & [lim, r] : {std::pair{K, a}, std::pair{k, b}}) {
    s.require(r.iter <= lim, "iteration-limit", info);
    if (r.code == QPSolutionStatus::MaxIterations) s.require(r.iter == lim, "stopped-early", info);
    s.require(r.code != QPSolutionStatus::MaxTime && r.code != QPSolutionStatus::Unknown, "status", info);
    if (r.iter > 0 && r.code != QPSolutionStatus::MaxIterations) {
      // verdicts are only reached at termination checks, and every verdict is reached at the first of them
      s.require(r.x.allFinite() && r.y.allFinite(), "finite", info);
    }
  }
  if (a.iter <= k && a.code != QPSolutionStatus::MaxIterations) {
    s.require(same(a, b, 1e-9), "limit-changed-result", info);
  } else {
    s.nontrivial();
    s.require(b.code == QPSolutionStatus::MaxIterations && b.iter == k, "must-hit-limit", info);
  }
}

// fixed termination checks: the interval between checks bounds the number of surplus iterations
PROP(check_interval, 2)
{
  auto u              = setup(s);
  u.p.max_iter        = 1500;
  u.p.stop_check_iter = 1;
  const auto a        = u.run(u.p);
  const auto k        = static_cast<uint32_t>(s.range(2, 60));
  u.p.stop_check_iter = k;
  const auto b        = u.run(u.p);
  s.note("k", k);
  const auto info = [&] { return eng::cat("every iteration: ", show(a), " every ", k, ": ", show(b)); };
  // a verdict at iteration i with checks every k-th iteration would have been noticed at i or earlier with checks everywhere
  if (b.code != QPSolutionStatus::MaxIterations) {
    s.nontrivial();
    s.require(a.code != QPSolutionStatus::MaxIterations && a.iter <= b.iter, "missed-check", info);
  }
}

PROP(max_time, 2)
{
  auto u       = setup(s);
  u.p.max_iter = static_cast<uint32_t>(s.pick({500, 100, 10000}));
  const auto a = u.run(u.p);
  u.p.max_time = std::chrono::nanoseconds(0);
  const auto b = u.run(u.p);
  u.p.max_time = std::chrono::hours(1);
  const auto c = u.run(u.p);
  const auto info = [&] { return eng::cat("no limit: ", show(a), " 0 s: ", show(b), " 1 h: ", show(c)); };
  s.cls(std::string("code ") + code_name(b.code));
  s.require(same(a, c, 1e-9), "long-limit-changed-result", info);
  s.require(b.iter <= u.p.stop_check_iter + 2, "time-limit-ignored", info);
  if (a.iter <= b.iter && a.code != QPSolutionStatus::MaxIterations) {
    s.require(same(a, b, 1e-9), "limit-changed-result", info);
  } else {
    s.nontrivial();
    s.require(b.code == QPSolutionStatus::MaxTime || (b.code == QPSolutionStatus::MaxIterations && b.iter == *u.p.max_iter), "must-report-max-time", info);
  }
}

// a bound pair that no value satisfies
PROP(contradictory_bounds, 1)
{
  auto u = setup(s);
  if (u.dim.m == 0) s.discard("no rows");
  const auto i = static_cast<Index>(s.draw(static_cast<uint64_t>(u.dim.m)));
  switch (s.draw(4)) {
  case 0: u.d.l(i) = 1, u.d.u(i) = 1 - s.logunif(1e-3, 5); break;
  case 1: u.d.l(i) = kInf, u.d.u(i) = kInf; break;
  case 2: u.d.l(i) = -kInf, u.d.u(i) = -kInf; break;
  default: u.d.l(i) = kInf, u.d.u(i) = -kInf; break;
  }
  s.note("qp", show(u.d));
  if (s.coin()) u.p.max_iter = static_cast<uint32_t>(s.draw(3));
  const auto r = u.run(u.p);
  s.nontrivial();
  s.require(r.code == QPSolutionStatus::PrimalInfeasible, "contradiction-not-reported", [&] { return show(r); });
  s.require(r.iter <= 1, "iterated", [&] { return show(r); });
}

namespace {
/// captures what is written to stdout
struct Quiet
{
  std::ostringstream buf;
  std::streambuf * old = std::cout.rdbuf(buf.rdbuf());
  ~Quiet() { std::cout.rdbuf(old); }
};
}  // namespace

PROP(verbose, 1)
{
  auto u       = setup(s);
  u.p.max_iter = static_cast<uint32_t>(s.pick({300, 3, 2000}));
  Quiet q;
  const auto a       = u.run(u.p);
  const auto quiet_n = q.buf.str().size();
  u.p.verbose        = true;
  const auto b       = u.run(u.p);
  const auto loud_n  = q.buf.str().size();
  const auto info    = [&] { return eng::cat("quiet: ", show(a), " verbose: ", show(b)); };
  s.nontrivial();
  s.require(quiet_n == 0, "not-quiet", "the solver prints although verbose is off");
  s.require(loud_n > quiet_n, "not-verbose", "the solver prints nothing although verbose is on");
  s.require(same(a, b, 1e-9), "verbose-changed-result", info);
}

// polishing never turns a solved problem into an unsolved one, and failure is reported as such
PROP(polish, 2)
{
  auto u       = setup(s);
  u.p.max_iter = 3000;
  u.p.polish   = false;
  const auto a = u.run(u.p);
  u.p.polish   = true;
  if (s.chance(1, 2)) u.p.polish_iter = 0;
  const auto b = u.run(u.p);
  s.cls(std::string("code ") + code_name(b.code));
  const auto info = [&] { return eng::cat("unpolished: ", show(a), " polished: ", show(b)); };
  s.require(a.iter == b.iter, "iterations-differ", info);
  s.require(a.code != QPSolutionStatus::PolishFailed, "polish-off", info);
  if (a.code == QPSolutionStatus::Optimal) {
    s.require(solved(b), "status", info);
    check_optimal(s, u.d, u.p, a, "unpolished: ");
    check_optimal(s, u.d, u.p, b, "polished: ");
    if (b.code == QPSolutionStatus::PolishFailed) {
      s.nontrivial();
      auto c = b;
      c.code = a.code;
      s.require(same(a, c, 1e-9), "failed-polish-changed-solution", info);
    } else if (u.p.polish_iter == 0 && ninf(a.x) > 0.1 && ninf(u.d.q) > 0.1) {
      // zero refinement iterations give x = 0, y = 0: only right if that is a solution
      s.cls("polish to zero accepted");
    }
  } else {
    s.require(same(a, b, 1e-9), "polish-changed-result", info);
  }
}
