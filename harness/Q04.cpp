#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q04",
  "cases: one QP solved in two or more representations (dense dynamic, sparse, static and partly static sizes; P full / upper only / "
  "garbage below the diagonal; explicit zeros; uncompressed); non-trivial: at least two different representations reached a verdict",
  100000,
  2000000,
  {"two solutions may differ by what their own residuals allow (strong convexity bound), not more"}};

namespace {

void compare(eng::Src & s, const QPData & d, const QPSolverParams & prm, const std::vector<std::pair<std::string, QPResult>> & rs, bool strict)
{
  for (const auto & [name, r] : rs) {
    s.require(!r.input_modified, "input-modified", [&] { return name + " modified the problem"; });
    s.require(same_verdict(r, rs[0].second), "verdict-differs", [&] { return name + ": " + show(r) + " vs " + rs[0].first + ": " + show(rs[0].second); });
    if (solved(r)) check_optimal(s, d, prm, r, name + ": ");
  }
  if (!strict || !solved(rs[0].second)) return;
  for (std::size_t i = 1; i < rs.size(); ++i) check_close(s, d, rs[0].second, rs[i].second, rs[0].first + " vs " + rs[i].first);
}

void run_all(eng::Src & s, const QPData & d, const QPSolverParams & prm, bool strict)
{
  std::vector<std::pair<std::string, QPResult>> rs;
  std::vector<std::size_t> reps{0, 1};
  for (std::size_t i = 2; i < all_reps().size(); ++i) {
    const auto & r = all_reps()[i];
    if ((r.M < 0 || r.M == d.m()) && (r.N < 0 || r.N == d.n())) reps.push_back(i);
  }
  s.note("prm", show(prm)).note("qp", show(d));
  for (auto i : reps) {
    const auto & ri = all_reps()[i];
    const int nl    = i < 2 ? 2 : 1;
    for (int k = 0; k < nl; ++k) {
      const auto lo = k == 0 && i == 0 ? Layout{} : layout(s, d, ri.sparse);
      s.note(ri.name, show(lo));
      rs.push_back({ri.name + " " + show(lo), ri.make()->solve_once(d, lo, prm, nullptr)});
    }
    s.cls("rep " + ri.name);
  }
  s.cls(std::string("code ") + code_name(rs[0].second.code));
  s.nontrivial();
  compare(s, d, prm, rs, strict);
}

std::pair<Index, Index> dims(eng::Src & s)
{
  if (s.chance(2, 3)) {
    const auto d = rep_dims(s, 6, 8);
    return {d.m, d.n};
  }
  return {s.range(0, 8), s.range(1, 7)};
}

}  // namespace

PROP(solvable, 4)
{
  const auto [m, n] = dims(s);
  GenOpt o;
  o.pkind      = 3;
  o.slater     = true;
  const auto k = known_solution(s, n, m, o);
  auto prm     = params(s, 1e-6);
  no_limit(prm);
  run_all(s, k.d, prm, true);
}

// infeasible problems: the verdict must agree as well
PROP(contradiction, 1)
{
  auto [m, n] = dims(s);
  const auto d = contradictory(s, n, std::max<Index>(m, 2));
  auto prm     = params(s, 1e-5);
  no_limit(prm);
  run_all(s, d, prm, false);
}
PROP(unbounded, 1)
{
  const auto [m, n] = dims(s);
  const auto d      = qpg::unbounded(s, n, m);
  auto prm     = params(s, 1e-5);
  no_limit(prm);
  run_all(s, d, prm, false);
}
