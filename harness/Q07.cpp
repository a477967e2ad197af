#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q07",
  "cases: QP of known status x warm start (zero, small, large, exact solution, nearly exact, cold solution, solution of a neighbouring "
  "problem, the object's own solution) x parameters x representation; cold and warm solve are compared; non-trivial: the warm start is "
  "not zero and the problem has a constraint",
  120000,
  3000000,
  {"an accurate solution is a KKT point with residuals at rounding level; limits are represented by 100000 iterations"}};

namespace {

QPResult make(const VectorXd & x, const VectorXd & y)
{
  QPResult r;
  r.x = x;
  r.y = y;
  return r;
}

void compare(eng::Src & s, const QPData & d, const QPSolverParams & prm, const QPResult & cold, const QPResult & warm, bool strict, bool far)
{
  s.require(!warm.input_modified, "input-modified", "warm-started solve modified the problem");
  if (far && warm.code == QPSolutionStatus::MaxIterations) s.discard("slow from a far point");
  s.require(same_verdict(cold, warm), "verdict-differs", [&] { return "cold: " + show(cold) + " warm: " + show(warm); });
  if (!solved(cold)) return;
  check_optimal(s, d, prm, cold, "cold: ");
  check_optimal(s, d, prm, warm, "warm: ");
  if (strict) check_close(s, d, cold, warm, "cold vs warm");
}

void accepted(eng::Src & s, const QPSolverParams & prm, const QPResult & r)
{
  s.require(solved(r) && r.iter <= prm.stop_check_iter + 2, "not-accepted",
    [&] { return eng::cat("warm start with an accurate solution took ", r.iter, " iterations: ", show(r)); });
}

}  // namespace

PROP(solvable, 4)
{
  const auto dim = rep_dims(s, 7, 9);
  GenOpt o;
  o.pkind      = 3;
  o.slater     = true;
  auto k = known_solution(s, dim.n, dim.m, o);
  auto p       = params(s, 1e-6);
  no_limit(p);
  const auto & ri = all_reps()[dim.rep];
  const auto lo   = layout(s, k.d, ri.sparse);
  const auto kind = s.weighted({1, 3, 2, 3, 2, 2, 2, 3, 1});
  static const char * names[] = {"zero", "random", "large", "exact", "near exact", "cold solution", "neighbour", "own solution", "only primal"};
  s.cls(std::string("warm ") + names[kind]);
  s.note("rep", ri.name).note("layout", show(lo)).note("prm", show(p)).note("qp", show(k.d)).note("kind", names[kind]);
  const auto solver = ri.make()->fresh(k.d, lo, p);
  const auto cold   = solver->solve(k.d, lo, nullptr);
  s.require(solved(cold), "cold-not-solved", [&] { return show(cold); });
  if (dim.m > 0 && kind != 0) s.nontrivial();
  QPResult w, r;
  switch (kind) {
  case 0: w = make(VectorXd::Zero(dim.n), VectorXd::Zero(dim.m)); break;
  case 1: w = make(vec(s, dim.n, 3), vec(s, dim.m, 3)); break;
  case 2: w = make(vec(s, dim.n, 300), vec(s, dim.m, 300)); break;
  case 3: w = make(k.x, k.y); break;
  case 4: w = make(k.x + vec(s, dim.n, 1e-2), k.y + vec(s, dim.m, 1e-2)); break;
  case 6: {
    QPData d2 = k.d;
    d2.q += vec(s, dim.n, 0.3);
    w = ri.make()->solve_once(d2, lo, p, nullptr);
    if (!solved(w)) s.discard("neighbour not solved");
    break;
  }
  case 8: w = make(k.x, VectorXd::Zero(dim.m)); break;
  default: w = cold; break;
  }
  s.note("warm.x", show(w.x)).note("warm.y", show(w.y));
  const bool self = kind == 7;
  if (self) {
    r = solver->solve_warm_self(k.d, lo);
  } else if (s.coin()) {
    r = solver->solve(k.d, lo, &w);
  } else {
    r = ri.make()->solve_once(k.d, lo, p, &w);
  }
  compare(s, k.d, p, cold, r, true, kind == 2);
  if (kind == 3) accepted(s, p, r);
  // a polished solution is accurate
  if ((kind == 5 || kind == 7) && cold.code == QPSolutionStatus::Optimal && p.polish) {
    const auto res = residuals(k.d, w.x, w.y, 0.);
    if (std::max({res.pri, res.dua, res.compl_gap, res.wrong_sign}) < 1e-9) {
      s.cls("own accurate solution");
      accepted(s, p, r);
    }
  }
}

PROP(infeasible, 2)
{
  auto dim = rep_dims(s, 5, 7);
  if (all_reps()[dim.rep].M < 0) dim.m = std::max<Index>(dim.m, 2);
  const auto d = s.coin() ? contradictory(s, dim.n, dim.m) : unbounded(s, dim.n, dim.m);
  auto p       = params(s, 1e-5);
  no_limit(p);
  const auto & ri = all_reps()[dim.rep];
  const auto lo   = layout(s, d, ri.sparse);
  const double mag = s.pick({1., 10., 100.});
  const auto w    = make(vec(s, dim.n, mag), vec(s, dim.m, mag));
  s.note("rep", ri.name).note("layout", show(lo)).note("prm", show(p)).note("qp", show(d)).note("warm.x", show(w.x)).note("warm.y", show(w.y));
  s.nontrivial();
  const auto cold = ri.make()->solve_once(d, lo, p, nullptr);
  const auto warm = ri.make()->solve_once(d, lo, p, &w);
  s.cls(std::string("code ") + code_name(cold.code));
  compare(s, d, p, cold, warm, false, mag > 1);
}
