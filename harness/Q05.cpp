#include <numeric>

#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q05",
  "cases: a QP of known status x 1-3 random equivalence transformations (permute variables / rows, negate or positively rescale rows, "
  "rescale the objective, shift, rescale or negate variables, duplicate a row, append vacuous rows), original and transformed problem "
  "are solved (possibly in different representations); non-trivial: both were solved and the problem has at least one constraint",
  150000,
  4000000,
  {"solutions are compared up to what their own residuals allow (strong convexity bound)"}};

namespace {

/// How a solution of the transformed problem is mapped back.
struct Map
{
  MatrixXd X;   // x = X x' + t
  VectorXd t;
  MatrixXd Y;   // y = Y y' / c
  double c = 1, off = 0;  // f'(x') = c (f(x) - off)
};

/// Apply one random transformation to d; update the map from transformed to original.
void transform(eng::Src & s, QPData & d, Map & mp)
{
  const Index n = d.n(), m = d.m();
  const auto xform = [&](const MatrixXd & X, const VectorXd & t) {  // x_old = X x_new + t
    mp.off -= 0;
    const double f_t = 0.5 * t.dot(d.P * t) + d.q.dot(t);
    mp.off += f_t / mp.c;
    const VectorXd q = X.transpose() * (d.P * t + d.q), At = d.A * t;
    d.P = (X.transpose() * d.P * X).eval();
    d.P = (0.5 * (d.P + d.P.transpose())).eval();
    d.q = q;
    d.A = (d.A * X).eval();
    d.l -= At;
    d.u -= At;
    mp.t = mp.X * t + mp.t;
    mp.X = (mp.X * X).eval();
  };
  const auto perm = [&](Index k) {
    std::vector<Index> p(static_cast<std::size_t>(k));
    std::iota(p.begin(), p.end(), 0);
    for (Index i = k - 1; i > 0; --i) std::swap(p[static_cast<std::size_t>(i)], p[s.draw(static_cast<uint64_t>(i) + 1)]);
    return p;
  };
  switch (s.draw(9)) {
  case 0: {  // permute variables
    s.cls("permute variables");
    const auto p = perm(n);
    MatrixXd X   = MatrixXd::Zero(n, n);
    for (Index i = 0; i < n; ++i) X(p[static_cast<std::size_t>(i)], i) = 1;
    xform(X, VectorXd::Zero(n));
    break;
  }
  case 1: {  // permute rows
    s.cls("permute rows");
    const auto p   = perm(m);
    const QPData o = d;
    MatrixXd Y     = MatrixXd::Zero(m, m);
    for (Index i = 0; i < m; ++i) {
      const Index j = p[static_cast<std::size_t>(i)];
      d.A.row(i)    = o.A.row(j);
      d.l(i) = o.l(j), d.u(i) = o.u(j);
      Y(j, i) = 1;
    }
    mp.Y = (mp.Y * Y).eval();
    break;
  }
  case 2: {  // negate rows
    s.cls("negate rows");
    for (Index i = 0; i < m; ++i) {
      if (!s.coin()) continue;
      d.A.row(i) *= -1;
      const double l = d.l(i);
      d.l(i)         = -d.u(i);
      d.u(i)         = -l;
      mp.Y.col(i) *= -1;
    }
    break;
  }
  case 3: {  // rescale rows
    s.cls("rescale rows");
    for (Index i = 0; i < m; ++i) {
      const double f = s.logunif(0.2, 5);
      d.A.row(i) *= f;
      d.l(i) *= f;
      d.u(i) *= f;
      mp.Y.col(i) *= f;
    }
    break;
  }
  case 4: {  // rescale objective
    s.cls("rescale objective");
    const double f = s.logunif(0.2, 5);
    d.P *= f;
    d.q *= f;
    mp.c *= f;
    break;
  }
  case 5: {  // shift
    s.cls("shift variables");
    xform(MatrixXd::Identity(n, n), vec(s, n, 2));
    break;
  }
  case 6: {  // rescale / negate variables
    s.cls("rescale variables");
    VectorXd f(n);
    for (Index i = 0; i < n; ++i) f(i) = s.logunif(0.3, 3) * (s.coin() ? -1 : 1);
    xform(f.asDiagonal(), VectorXd::Zero(n));
    break;
  }
  case 7: {  // duplicate a row
    if (m == 0) break;
    s.cls("duplicate row");
    const Index j = static_cast<Index>(s.draw(static_cast<uint64_t>(m)));
    d.A.conservativeResize(m + 1, n);
    d.l.conservativeResize(m + 1);
    d.u.conservativeResize(m + 1);
    d.A.row(m) = d.A.row(j);
    d.l(m) = d.l(j), d.u(m) = d.u(j);
    mp.Y.conservativeResize(mp.Y.rows(), m + 1);
    mp.Y.col(m) = mp.Y.col(j);
    break;
  }
  default: {  // append a vacuous row
    s.cls("vacuous row");
    d.A.conservativeResize(m + 1, n);
    d.l.conservativeResize(m + 1);
    d.u.conservativeResize(m + 1);
    mp.Y.conservativeResize(mp.Y.rows(), m + 1);
    mp.Y.col(m).setZero();
    if (s.coin()) {  // free row
      d.A.row(m) = vec(s, n).transpose();
      if (ninf(d.A.row(m).transpose()) < 1e-3) d.A.row(m).setOnes();
      d.l(m) = -kInf, d.u(m) = kInf;
    } else {  // zero row
      d.A.row(m).setZero();
      d.l(m) = -s.logunif(0.1, 4), d.u(m) = s.logunif(0.1, 4);
    }
    break;
  }
  }
}

std::size_t other_rep(eng::Src & s, const QPData & d)
{
  for (int k = 0; k < 4; ++k) {
    const auto i   = s.draw(all_reps().size());
    const auto & r = all_reps()[i];
    if ((r.M < 0 || r.M == d.m()) && (r.N < 0 || r.N == d.n())) return i;
  }
  return 0;
}

void check(eng::Src & s, const QPData & d, std::size_t rep, const QPSolverParams & prm, bool strict)
{
  QPData e = d;
  Map mp{MatrixXd::Identity(d.n(), d.n()), VectorXd::Zero(d.n()), MatrixXd::Identity(d.m(), d.m())};
  const auto k = s.range(1, 3);
  for (int i = 0; i < k; ++i) transform(s, e, mp);
  const auto rep2 = s.coin() ? other_rep(s, e) : (all_reps()[rep].M >= 0 && e.m() != d.m() ? 0 : rep);
  s.note("rep", all_reps()[rep].name).note("rep2", all_reps()[rep2].name).note("prm", show(prm)).note("qp", show(d)).note("qp2", show(e));
  const auto a = all_reps()[rep].make()->solve_once(d, layout(s, d, all_reps()[rep].sparse), prm, nullptr);
  const auto b = all_reps()[rep2].make()->solve_once(e, layout(s, e, all_reps()[rep2].sparse), prm, nullptr);
  s.cls(std::string("code ") + code_name(a.code));
  // without scaling, transformed problems may be out of reach of the first-order iterations
  if (!prm.scaling && (a.code == QPSolutionStatus::MaxIterations || b.code == QPSolutionStatus::MaxIterations)) s.discard("iteration limit without scaling");
  s.require(same_verdict(a, b), "verdict-differs", [&] { return show(a) + " vs transformed " + show(b); });
  if (d.m() > 0) s.nontrivial();
  if (!solved(a)) return;
  check_optimal(s, d, prm, a, "original: ");
  check_optimal(s, e, prm, b, "transformed: ");
  if (!strict) return;
  QPResult back  = b;
  back.x         = mp.X * b.x + mp.t;
  back.y         = mp.Y * b.y / mp.c;
  back.objective = b.objective / mp.c + mp.off;
  const double os = std::fabs(mp.off) + 0.5 * back.x.cwiseAbs().dot(d.P.cwiseAbs() * back.x.cwiseAbs()) + d.q.cwiseAbs().dot(back.x.cwiseAbs())
                  + (0.5 * b.x.cwiseAbs().dot(e.P.cwiseAbs() * b.x.cwiseAbs()) + e.q.cwiseAbs().dot(b.x.cwiseAbs())) / mp.c;
  s.require(std::fabs(back.objective - (0.5 * back.x.dot(d.P * back.x) + d.q.dot(back.x))) <= 1e-8 * (1 + os), "objective-relation",
    [&] { return show(b); });
  check_close(s, d, a, back, "original vs transformed");
}

}  // namespace

PROP(solvable, 4)
{
  const auto dim = rep_dims(s, 7, 9);
  GenOpt o;
  o.pkind      = 3;
  o.slater     = true;
  const auto k = known_solution(s, dim.n, dim.m, o);
  auto p       = params(s, 1e-6);
  no_limit(p);
  check(s, k.d, dim.rep, p, true);
}

PROP(primal_infeasible, 1)
{
  auto dim = rep_dims(s, 5, 7);
  if (all_reps()[dim.rep].M < 0) dim.m = std::max<Index>(dim.m, 2);
  auto p     = params(s, 1e-5);
  no_limit(p);
  check(s, contradictory(s, dim.n, dim.m), dim.rep, p, false);
}

PROP(dual_infeasible, 1)
{
  const auto dim = rep_dims(s, 5, 7);
  auto p         = params(s, 1e-5);
  no_limit(p);
  check(s, unbounded(s, dim.n, dim.m), dim.rep, p, false);
}
