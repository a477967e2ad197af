#include <smooth/feedback/compat/ipopt.hpp>

#include "nlpgen.hpp"
#include <utility>
using namespace ng;
using namespace smooth::feedback;

const eng::CheckInfo eng::check_info{
  "N02",
  "cases: random programs (convex with a strictly feasible point; smooth non-convex on a box; infeasible by construction; rejected by "
  "Ipopt) x second-order information used, unused, absent x warm starts x options; the deciding oracle is the residual of the first-order "
  "conditions of the program at the returned point and multipliers, and the limits and statuses implied by the options; non-trivial: a "
  "result reported Optimal with a bound or constraint active, or a limit or infeasibility that decided the status",
  20000,
  600000,
  {"no verdict depends on the clock: whether Ipopt notices an exhausted CPU time limit is up to the resolution of its clock",
   "Ipopt's own tolerance (1e-8, scaled by its problem scaling) is accepted with a factor of 1e3 to 1e4"}};

namespace {

using St                = NLPSolution::Status;
constexpr double kInf   = std::numeric_limits<double>::infinity();
using OI                = std::vector<std::pair<std::string, int>>;
using OS                = std::vector<std::pair<std::string, std::string>>;
using ON                = std::vector<std::pair<std::string, double>>;

/// convex program with a strictly feasible point x0
struct Convex
{
  Model m;  // carries bounds only
  MatrixXd Q;
  VectorXd c, e;  // f = 1/2 x'Qx + c'x + sum e_i exp(x_i / 4)
  std::vector<MatrixXd> R;
  MatrixXd r;  // g_k = 1/2 x'R_k x + r_k'x
  VectorXd x0;

  double f(const VectorXd & x) const { return 0.5 * x.dot(Q * x) + c.dot(x) + (e.array() * (x / 4).array().exp()).sum(); }
  VectorXd df(const VectorXd & x) const { return Q * x + c + (e.array() / 4 * (x / 4).array().exp()).matrix(); }
  MatrixXd d2f(const VectorXd & x) const
  {
    MatrixXd h = Q;
    h.diagonal() += (e.array() / 16 * (x / 4).array().exp()).matrix();
    return h;
  }
  VectorXd g(const VectorXd & x) const
  {
    VectorXd v(m.m);
    for (Index k = 0; k < m.m; ++k) v(k) = 0.5 * x.dot(R[k] * x) + r.row(k).dot(x);
    return v;
  }
  MatrixXd dg(const VectorXd & x) const
  {
    MatrixXd v(m.m, m.n);
    for (Index k = 0; k < m.m; ++k) v.row(k) = (R[k] * x).transpose() + r.row(k);
    return v;
  }
  MatrixXd d2g(const VectorXd &, const VectorXd & l) const
  {
    MatrixXd h = MatrixXd::Zero(m.n, m.n);
    for (Index k = 0; k < m.m; ++k) h += l(k) * R[k];
    return h;
  }
};

/// smooth non-convex program on a box
struct Smooth
{
  Model m;
  double f(const VectorXd & x) const { return m.f.val(x); }
  VectorXd df(const VectorXd & x) const { return m.f.grad(x); }
  MatrixXd d2f(const VectorXd & x) const { return m.f.hess(x); }
  VectorXd g(const VectorXd & x) const { return m.gval(x); }
  MatrixXd dg(const VectorXd & x) const { return m.jac(x); }
  MatrixXd d2g(const VectorXd & x, const VectorXd & l) const { return m.ghess(x, l); }
};

template<typename M>
struct Plain
{
  const M * p;
  static SC full(const MatrixXd & v)
  {
    return sp<SC>(v, MatrixXd::Ones(v.rows(), v.cols()), false, true);
  }
  std::size_t n() const { return static_cast<std::size_t>(p->m.n); }
  std::size_t m() const { return static_cast<std::size_t>(p->m.m); }
  VectorXd xl() const { return p->m.xl; }
  VectorXd xu() const { return p->m.xu; }
  VectorXd gl() const { return p->m.gl; }
  VectorXd gu() const { return p->m.gu; }
  double f(const VectorXd & x) const { return p->f(x); }
  SC df_dx(const VectorXd & x) const { return full(p->df(x).transpose()); }
  VectorXd g(const VectorXd & x) const { return p->g(x); }
  SC dg_dx(const VectorXd & x) const { return full(p->dg(x)); }
};
template<typename M>
struct WithHessian : Plain<M>
{
  static SC upper(const MatrixXd & v) { return sp<SC>(v, MatrixXd::Ones(v.rows(), v.cols()), true, true); }
  SC d2f_dx2(const VectorXd & x) const { return upper(this->p->d2f(x)); }
  SC d2g_dx2(const VectorXd & x, const VectorXd & l) const { return upper(this->p->d2g(x, l)); }
};

VectorXd vec_of(eng::Src & s, Index n, double sc)
{
  VectorXd x(n);
  for (Index i = 0; i < n; ++i) x(i) = s.real(sc);
  return x;
}
MatrixXd psd(eng::Src & s, Index n, double ridge)
{
  const Index r = s.range(0, n);
  MatrixXd L(n, r);
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < r; ++j) L(i, j) = s.real(1);
  return L * L.transpose() + ridge * MatrixXd::Identity(n, n);
}

Convex convex(eng::Src & s)
{
  Convex p;
  Model & m = p.m;
  m.n = s.range(1, 6), m.m = s.range(0, 5);
  p.Q  = psd(s, m.n, s.unif(0.3, 2));
  p.c  = vec_of(s, m.n, 4);
  p.e  = VectorXd::Zero(m.n);
  if (s.coin())
    for (Index i = 0; i < m.n; ++i) p.e(i) = std::fabs(s.real(2));
  p.x0 = vec_of(s, m.n, 2);
  m.xl.resize(m.n), m.xu.resize(m.n), m.gl.resize(m.m), m.gu.resize(m.m);
  for (Index i = 0; i < m.n; ++i) {
    m.xl(i) = s.coin() ? p.x0(i) - s.unif(0.2, 2) : -kInf;
    m.xu(i) = s.coin() ? p.x0(i) + s.unif(0.2, 2) : kInf;
  }
  p.r.resize(m.m, m.n);
  for (Index k = 0; k < m.m; ++k) {
    for (Index j = 0; j < m.n; ++j) p.r(k, j) = s.real(1);
    const bool quad = s.chance(1, 3);
    p.R.push_back(quad ? psd(s, m.n, 0.2) : MatrixXd::Zero(m.n, m.n));
  }
  const VectorXd g0 = p.g(p.x0);
  Index eq          = 0;
  for (Index k = 0; k < m.m; ++k) {
    const bool lin = p.R[k].isZero(0);
    m.gl(k) = -kInf, m.gu(k) = kInf;
    switch (s.range(0, 3)) {
    case 0: m.gu(k) = g0(k) + s.unif(0.2, 2); break;
    case 1:
      if (lin) m.gl(k) = g0(k) - s.unif(0.2, 2);
      break;
    case 2:
      m.gu(k) = g0(k) + s.unif(0.2, 2);
      if (lin) m.gl(k) = g0(k) - s.unif(0.2, 2);
      break;
    default:
      // an equality: keep equalities independent by a unit coefficient that is theirs alone
      if (lin && eq < m.n - 1) {
        for (Index q = 0; q < k; ++q)
          if (m.gl(q) == m.gu(q)) p.r(k, q) = 0;
        bool ok = k < m.n;
        for (Index q = 0; ok && q < k; ++q)
          if (m.gl(q) == m.gu(q)) ok = p.r(q, k) == 0;
        if (ok) {
          p.r(k, k) = 1.5;
          m.gl(k) = m.gu(k) = p.r.row(k).dot(p.x0);
          ++eq;
        }
      }
    }
  }
  return p;
}

template<typename M>
void describe(eng::Src & s, const M & p)
{
  s.note("n", p.m.n).note("x", "in " + vec(p.m.xl) + ".." + vec(p.m.xu)).note("g", "in " + vec(p.m.gl) + ".." + vec(p.m.gu));
  if constexpr (requires { p.Q; }) {
    const auto mat = [](const MatrixXd & v) { return vec(VectorXd(Eigen::Map<const VectorXd>(v.data(), v.size()))); };
    s.note("Q", mat(p.Q)).note("c", vec(p.c)).note("e", vec(p.e)).note("r", mat(p.r));
    for (auto & R : p.R) s.note("R", mat(R));
  } else {
    note(s, p.m);
  }
}

/// residual of the first-order conditions, relative to Ipopt's problem scaling
template<typename M>
bool first_order(eng::Src & s, const M & p, const NLPSolution & r, const VectorXd & start, const std::string & what)
{
  const Model & m = p.m;
  s.require(r.x.size() == m.n && r.zl.size() == m.n && r.zu.size() == m.n && r.lambda.size() == m.m, "size",
    [&] { return what + ": solution of the wrong size"; });
  s.require(r.x.allFinite() && r.zl.allFinite() && r.zu.allFinite() && r.lambda.allFinite(), "finite", [&] { return what + ": solution not finite"; });
  const VectorXd gx = p.g(r.x), df = p.df(r.x);
  const MatrixXd J = p.dg(r.x);
  double mult      = std::max(r.zl.cwiseAbs().maxCoeff(), r.zu.cwiseAbs().maxCoeff());
  if (m.m) mult = std::max(mult, r.lambda.cwiseAbs().maxCoeff());
  double sg = std::max(1., p.df(start).cwiseAbs().maxCoeff() / 100);
  if (m.m) sg = std::max(sg, p.dg(start).cwiseAbs().maxCoeff() / 100);
  const double tol = 3e-5 * (1 + mult) * sg;
  bool active      = false;

  for (Index i = 0; i < m.n; ++i) {
    const double v = std::max(m.xl(i) - r.x(i), r.x(i) - m.xu(i));
    s.require(v <= 1e-6 * (1 + std::fabs(r.x(i))), "bounds", [&] { return eng::cat(what, ": x", i, " = ", r.x(i), " violates its bounds by ", v); });
    s.require(r.zl(i) >= -tol && r.zu(i) >= -tol, "sign", [&] { return eng::cat(what, ": bound multipliers of x", i, ": ", r.zl(i), ", ", r.zu(i)); });
    const double dl = r.x(i) - m.xl(i), du = m.xu(i) - r.x(i);
    s.require(std::min(std::fabs(r.zl(i)), dl) <= std::sqrt(tol) && (dl > 1e3 || std::fabs(r.zl(i) * dl) <= tol), "complementarity",
      [&] { return eng::cat(what, ": zl", i, " = ", r.zl(i), " at distance ", dl); });
    s.require(std::min(std::fabs(r.zu(i)), du) <= std::sqrt(tol) && (du > 1e3 || std::fabs(r.zu(i) * du) <= tol), "complementarity",
      [&] { return eng::cat(what, ": zu", i, " = ", r.zu(i), " at distance ", du); });
    active |= dl < 1e-4 || du < 1e-4;
  }
  for (Index k = 0; k < m.m; ++k) {
    const double v = std::max(m.gl(k) - gx(k), gx(k) - m.gu(k));
    s.require(v <= 1e-5 * sg * (1 + std::fabs(gx(k))), "constraint", [&] { return eng::cat(what, ": g", k, " = ", gx(k), " violates its bounds by ", v); });
    if (m.gl(k) == m.gu(k)) {
      active = true;
      continue;
    }
    const double dl = gx(k) - m.gl(k), du = m.gu(k) - gx(k), l = r.lambda(k);
    s.require(l <= 0 || std::min(l, du) <= std::sqrt(tol), "complementarity",
      [&] { return eng::cat(what, ": lambda", k, " = ", l, " > 0 at distance ", du, " from the upper bound"); });
    s.require(l >= 0 || std::min(-l, dl) <= std::sqrt(tol), "complementarity",
      [&] { return eng::cat(what, ": lambda", k, " = ", l, " < 0 at distance ", dl, " from the lower bound"); });
    active |= dl < 1e-4 || du < 1e-4;
  }
  const VectorXd res = df + J.transpose() * r.lambda - r.zl + r.zu;
  for (Index i = 0; i < m.n; ++i) {
    if (m.xl(i) == m.xu(i)) continue;
    s.require(std::fabs(res(i)) <= tol * (1 + df.cwiseAbs().maxCoeff() * 1e-3), "stationarity",
      [&] { return eng::cat(what, ": stationarity residual ", res(i), " for x", i, " (tolerance ", tol, ")"); });
  }
  const double fx = p.f(r.x);
  s.require(std::fabs(r.objective - fx) <= 1e-6 * (1 + std::fabs(fx)) * sg * (1 + df.cwiseAbs().maxCoeff()), "objective",
    [&] { return eng::cat(what, ": objective ", r.objective, " but f(x) = ", fx); });
  return active;
}

OI base_int(int max_iter = 500) { return {{"print_level", 0}, {"max_iter", max_iter}}; }

/// run with one of the ways to provide second-order information
template<typename M>
NLPSolution run(eng::Src & s, const M & p, int how, const std::optional<NLPSolution> & ws, OI oi, ON on, OS os = {})
{
  static const char * names[] = {"no Hessian", "Hessian available, default", "limited-memory", "exact", "no Hessian, limited-memory"};
  s.cls(names[how]);
  s.note("run", names[how]);
  if (how == 2 || how == 4) os.push_back({"hessian_approximation", "limited-memory"});
  if (how == 3) os.push_back({"hessian_approximation", "exact"});
  if (s.coin()) std::reverse(os.begin(), os.end());
  if (how == 0 || how == 4) {
    Plain<M> nlp{&p};
    return s.coin() ? solve_nlp_ipopt(nlp, ws, oi, os, on) : solve_nlp_ipopt(std::move(nlp), ws, oi, os, on);
  }
  WithHessian<M> nlp{{&p}};
  return s.coin() ? solve_nlp_ipopt(std::as_const(nlp), ws, oi, os, on) : solve_nlp_ipopt(std::move(nlp), ws, oi, os, on);
}

NLPSolution warm(eng::Src & s, const Model & m, const VectorXd & x)
{
  NLPSolution w;
  w.status    = s.coin() ? St::Optimal : St::PrimalInfeasible;
  w.x         = x;
  w.zl        = VectorXd::Zero(m.n);
  w.zu        = VectorXd::Zero(m.n);
  w.lambda    = VectorXd::Zero(m.m);
  w.objective = -123;
  w.iter      = 77;
  return w;
}

/// Ipopt very rarely gives up on a convex program: then it must succeed in one of two other ways
bool solved(eng::Src & s, const Convex & p, const NLPSolution & r)
{
  if (r.status == St::Optimal) return true;
  s.cls("gave up");
  const auto b = run(s, p, 3, {}, base_int(3000), {});
  const auto c = run(s, p, 0, warm(s, p.m, p.x0), base_int(3000), {});
  s.require(b.status == St::Optimal || c.status == St::Optimal, "convex-not-solved",
    [&] { return eng::cat("status ", int(r.status), " after ", r.iter, " iterations, ", int(b.status), " after ", b.iter, ", ", int(c.status), " after ", c.iter); });
  return false;
}

}  // namespace

PROP(convex_solved, 6)
{
  const Convex p = convex(s);
  describe(s, p);
  const int how       = static_cast<int>(s.range(0, 4));
  const NLPSolution a = run(s, p, how, {}, base_int(), {});
  if (!solved(s, p, a)) return;
  if (first_order(s, p, a, VectorXd::Zero(p.m.n), "cold")) s.nontrivial();

  // a second way, and warm starts, must agree: the minimiser is unique
  const int how2 = static_cast<int>(s.range(0, 4));
  NLPSolution b;
  VectorXd start = VectorXd::Zero(p.m.n);
  switch (s.range(0, 2)) {
  case 0:
    s.cls("cold again");
    b = run(s, p, how2, {}, base_int(), {});
    break;
  case 1:
    s.cls("warm from solution");
    start = a.x;
    b     = run(s, p, how2, a, base_int(), {{"warm_start_bound_push", 1e-7}, {"warm_start_mult_bound_push", 1e-7}});
    break;
  default:
    s.cls("warm from a point");
    start = p.x0;
    b     = run(s, p, how2, warm(s, p.m, p.x0), base_int(), {});
  }
  if (!solved(s, p, b)) return;
  first_order(s, p, b, start, "second run");
  s.require((a.x - b.x).cwiseAbs().maxCoeff() <= 2e-2, "disagree", [&] { return "solutions " + vec(a.x) + " and " + vec(b.x) + " of the same program"; });
  s.require(std::fabs(a.objective - b.objective) <= 1e-4 * (1 + std::fabs(a.objective)), "disagree",
    [&] { return eng::cat("objectives ", a.objective, " and ", b.objective, " of the same program"); });
}

PROP(nonconvex_first_order, 4)
{
  Smooth p{model(s)};
  for (Index i = 0; i < p.m.n; ++i) {
    p.m.xl(i) = -std::fabs(s.real(3)) - 0.1;
    p.m.xu(i) = std::fabs(s.real(3)) + 0.1;
  }
  for (Index k = 0; k < p.m.m; ++k) {
    if (p.m.gl(k) > p.m.gu(k)) std::swap(p.m.gl(k), p.m.gu(k));
    if (p.m.gl(k) == p.m.gu(k)) p.m.gl(k) -= 0.5, p.m.gu(k) += 0.5;
    if (p.m.gl(k) >= 1e19) p.m.gl(k) = 0;
    if (p.m.gu(k) <= -1e19) p.m.gu(k) = 0;
  }
  describe(s, p);
  const int how = static_cast<int>(s.range(0, 4));
  std::optional<NLPSolution> ws;
  VectorXd start = VectorXd::Zero(p.m.n);
  if (s.coin()) {
    start = vec_of(s, p.m.n, 0.1);
    ws    = warm(s, p.m, start);
  }
  const NLPSolution a = run(s, p, how, ws, base_int(300), {});
  s.cls(a.status == St::Optimal ? "non-convex solved" : "non-convex not solved");
  if (a.status == St::Optimal && first_order(s, p, a, start, "non-convex")) s.nontrivial();
}

PROP(infeasible_not_optimal, 2)
{
  Convex p  = convex(s);
  Model & m = p.m;
  // one more pair of rows that contradict each other by a margin
  const Index k  = m.m;
  const bool two = s.coin();
  m.m += two ? 2 : 1;
  p.r.conservativeResize(m.m, m.n), m.gl.conservativeResize(m.m), m.gu.conservativeResize(m.m);
  VectorXd a = vec_of(s, m.n, 1);
  a(0)       = 1;
  const double gap = s.unif(0.5, 3), at = s.real(2);
  p.R.push_back(MatrixXd::Zero(m.n, m.n));
  p.r.row(k) = a.transpose();
  if (two) {
    p.R.push_back(MatrixXd::Zero(m.n, m.n));
    p.r.row(k + 1) = a.transpose();
    m.gl(k) = at + gap, m.gu(k) = kInf;
    m.gu(k + 1) = at, m.gl(k + 1) = -kInf;
  } else {
    // the row's maximum over the box lies below its lower bound
    double mx = 0;
    for (Index i = 0; i < m.n; ++i) {
      m.xl(i) = p.x0(i) - 1, m.xu(i) = p.x0(i) + 1;
      mx += std::max(a(i) * m.xl(i), a(i) * m.xu(i));
    }
    m.gl(k) = mx + gap, m.gu(k) = kInf;
  }
  describe(s, p);
  const int how = static_cast<int>(s.range(0, 4));
  std::optional<NLPSolution> ws;
  if (s.coin()) ws = warm(s, m, p.x0);
  const auto r = run(s, p, how, ws, base_int(200), {});
  s.require(r.status != St::Optimal, "infeasible-optimal", [&] { return "an infeasible program was reported Optimal at " + vec(r.x); });
  s.cls(r.status == St::PrimalInfeasible ? "reported infeasible" : "infeasible, no verdict");
  s.nontrivial();
}

PROP(rejected_not_optimal, 1)
{
  Convex p  = convex(s);
  Model & m = p.m;
  // Ipopt refuses the program before it starts
  OS os;
  OI oi = base_int();
  switch (s.range(0, 1)) {
  case 0: {
    const Index i = s.range(0, m.n - 1);
    m.xl(i)       = p.x0(i) + 1;
    m.xu(i)       = p.x0(i) - 1;
    break;
  }
  default:
    if (m.m == 0) s.discard("no constraints");
    const Index i = s.range(0, m.m - 1);
    m.gl(i)       = 1;
    m.gu(i)       = -1;
    break;
  }
  describe(s, p);
  const int how = static_cast<int>(s.range(0, 4));
  std::optional<NLPSolution> ws;
  if (s.chance(3, 4)) ws = warm(s, m, p.x0);
  const auto r = run(s, p, how, ws, oi, {}, os);
  s.require(r.status != St::Optimal, "rejected-optimal", "a program with contradictory bounds was reported Optimal");
  s.nontrivial();
}

PROP(limits, 2)
{
  const Convex p = convex(s);
  describe(s, p);
  const int how = static_cast<int>(s.range(0, 4));
  const NLPSolution full = run(s, p, how, {}, base_int(), {});
  if (!solved(s, p, full)) return;
  if (s.chance(1, 4)) {
    const auto r = run(s, p, how, {}, base_int(), {{"max_cpu_time", 1e-7}});
    // (the resolution of the CPU clock decides whether the limit is noticed)
    s.require(r.status == St::MaxTime || (r.status == St::Optimal && r.x == full.x), "time-limit", [&] { return eng::cat("status ", int(r.status), " with an exhausted time limit"); });
    s.cls(r.status == St::MaxTime ? "time limit" : "time limit unnoticed");
    s.nontrivial();
    return;
  }
  const int k  = static_cast<int>(s.range(0, static_cast<int64_t>(full.iter) + 3));
  const auto r = run(s, p, how, {}, base_int(k), {});
  s.note("max_iter", k);
  if (static_cast<std::size_t>(k) < full.iter) {
    s.require(r.status == St::MaxIterations && r.iter == static_cast<std::size_t>(k), "iteration-limit",
      [&] { return eng::cat("status ", int(r.status), " after ", r.iter, " iterations with max_iter = ", k, " (", full.iter, " are needed)"); });
    s.nontrivial();
    s.cls("iteration limit");
  } else if (static_cast<std::size_t>(k) > full.iter) {
    s.require(r.status == St::Optimal && r.iter == full.iter && r.x == full.x, "iteration-limit",
      [&] { return eng::cat("status ", int(r.status), " after ", r.iter, " iterations with max_iter = ", k, " (", full.iter, " are needed)"); });
  }
}

PROP(start_is_used, 1)
{
  Convex p = convex(s);
  for (Index i = 0; i < p.m.n; ++i) p.m.xl(i) = p.x0(i) - 1, p.m.xu(i) = p.x0(i) + 1;
  describe(s, p);
  const int how = static_cast<int>(s.range(0, 4));
  VectorXd x    = p.x0;
  for (Index i = 0; i < p.m.n; ++i) x(i) += s.real(0.5);
  NLPSolution ws = warm(s, p.m, x);
  const auto r   = run(s, p, how, ws, base_int(0), {{"warm_start_bound_push", 1e-3}, {"warm_start_bound_frac", 1e-3}});
  s.require((r.status == St::MaxIterations || r.status == St::Optimal) && r.iter == 0, "start-limit", [&] { return eng::cat("status ", int(r.status), " after ", r.iter, " iterations with max_iter = 0"); });
  s.require((r.x - x).cwiseAbs().maxCoeff() <= 1e-9, "start-ignored", [&] { return "started at " + vec(r.x) + " instead of " + vec(x); });
  s.nontrivial();
}

PROP(options_take_effect, 1)
{
  // one-sided bounds: Ipopt documents where it moves a starting point that is too close to them
  Convex p = convex(s);
  NLPSolution ws = warm(s, p.m, p.x0);
  const double push = s.unif(0.05, 0.6);
  VectorXd want     = p.x0;
  for (Index i = 0; i < p.m.n; ++i) {
    const double b = p.x0(i);
    p.m.xl(i) = -kInf, p.m.xu(i) = kInf;
    switch (s.range(0, 2)) {
    case 0: p.m.xl(i) = b, want(i) = b + push * std::max(1., std::fabs(b)); break;
    case 1: p.m.xu(i) = b, want(i) = b - push * std::max(1., std::fabs(b)); break;
    default: break;
    }
  }
  describe(s, p);
  s.note("bound_push", push);
  const int how = static_cast<int>(s.range(0, 4));
  const bool ws_opt = s.coin();
  NLPSolution r;
  if (ws_opt)
    r = run(s, p, how, ws, base_int(0), {{"bound_frac", 0.3}, {"bound_push", push}, {"warm_start_bound_push", push / 4}, {"warm_start_bound_frac", 0.2}}, {{"warm_start_init_point", "no"}, {"mu_strategy", "adaptive"}});
  else
    r = run(s, p, how, ws, base_int(0), {{"bound_push", push / 4}, {"bound_frac", 0.2}, {"warm_start_bound_push", push}, {"warm_start_bound_frac", 0.3}});
  s.require((r.status == St::MaxIterations || r.status == St::Optimal) && r.iter == 0, "start-limit", [&] { return eng::cat("status ", int(r.status), " after ", r.iter, " iterations with max_iter = 0"); });
  s.require((r.x - want).cwiseAbs().maxCoeff() <= 1e-4, "option-ignored", [&] { return "started at " + vec(r.x) + " instead of " + vec(want); });
  s.nontrivial();
}
