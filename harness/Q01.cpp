#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q01",
  "cases: QP (random representation, sizes, row types, P kinds, scaling factors, layouts, parameters) solved by the code "
  "under test; non-trivial: reported Optimal/PolishFailed on a problem with at least one variable and one non-free row or nonzero P",
  100000,
  2500000,
  {"tolerances are the configured eps_abs/eps_rel with a factor 1.001 and a 1e-9 relative rounding allowance"}};

static void run(eng::Src & s, const Known & k, std::size_t rep, QPSolverParams prm)
{
  const auto & ri = all_reps()[rep];
  const Layout lo = layout(s, k.d, ri.sparse);
  s.note("rep", ri.name).note("layout", show(lo)).note("prm", show(prm)).note("qp", show(k.d));
  const auto r = ri.make()->solve_once(k.d, lo, prm, nullptr);
  s.cls(std::string("code ") + code_name(r.code));
  s.cls("rep " + ri.name);
  if (r.code != QPSolutionStatus::Optimal && r.code != QPSolutionStatus::PolishFailed) return;
  if (k.active) s.cls("has active rows");
  if (k.has_eq) s.cls("has equalities");
  if (k.free_rows) s.cls("has free rows");
  if (!k.strictly_convex) s.cls("not strictly convex");
  if (k.d.m() > k.free_rows || !k.d.P.isZero(0)) s.nontrivial();
  check_optimal(s, k.d, prm, r);
}

PROP(known_solution, 6)
{
  const auto dim = rep_dims(s, 8, 10);
  const auto k   = known_solution(s, dim.n, dim.m);
  auto prm       = params(s);
  prm.max_iter   = 4000;
  run(s, k, dim.rep, prm);
}

PROP(badly_scaled, 4)
{
  const auto dim = rep_dims(s, 6, 8);
  auto k         = known_solution(s, dim.n, dim.m);
  bad_scaling(s, k);
  auto prm     = params(s);
  prm.max_iter = 4000;
  run(s, k, dim.rep, prm);
}
