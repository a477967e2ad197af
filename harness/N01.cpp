#include <smooth/feedback/compat/ipopt.hpp>

#include "nlpgen.hpp"
using namespace ng;
using namespace smooth::feedback;

const eng::CheckInfo eng::check_info{
  "N01",
  "cases: random smooth nonlinear programs (1-7 variables, 0-6 constraints, random sparsity with stored zeros, infinite and huge bounds) in "
  "4 representations (with/without Hessian, by value or reference, row/column-major, compressed or not) x sequences of 1-20 TNLP queries in "
  "any order followed by finalize_solution; every answer is compared with a dense model of the program; non-trivial: some derivative query "
  "was answered for a program with at least one nonlinear term or stored zero",
  300000,
  6000000,
  {"the sparsity pattern an NLP reports does not depend on the point, and Hessians are given by their upper triangle",
   "bounds with absolute value of at least 1e19 are infinite for Ipopt"}};

namespace {

using Ipopt::Number;
constexpr double kGarbage = -7.25e77;
constexpr double kInf     = std::numeric_limits<double>::infinity();

double same_bound(double want, double got)
{
  const auto norm = [](double v) { return v >= 1e19 ? kInf : v <= -1e19 ? -kInf : v; };
  return norm(want) == norm(got);
}

VectorXd point(eng::Src & s, Index n)
{
  VectorXd x(n);
  for (Index i = 0; i < n; ++i) x(i) = s.real(2);
  return x;
}

bool close(double a, double b, double mag) { return std::fabs(a - b) <= 1e-12 * (1 + mag); }

template<typename P>
void queries(eng::Src & s, bool use_hessian, bool compress)
{
  auto mp         = std::make_shared<Model>(model(s));
  const Model & m = *mp;
  note(s, m);
  const Index n = m.n, nc = m.m;

  P prob(mp, compress);
  const bool by_move                    = s.coin();
  Ipopt::SmartPtr<IpoptNLP<P>> tnlp     = by_move ? new IpoptNLP<P>(P(prob), use_hessian) : new IpoptNLP<P>(prob, use_hessian);
  Ipopt::TNLP & t                       = *tnlp;
  Ipopt::SmartPtr<Ipopt::IpoptData> dat = new Ipopt::IpoptData();

  tnlp->sol().x      = point(s, n);
  tnlp->sol().zl     = point(s, n);
  tnlp->sol().zu     = point(s, n);
  tnlp->sol().lambda = point(s, nc);
  const NLPSolution start = tnlp->sol();

  bool curved = !m.padJ.empty() || !m.padHf.empty() || !m.padHg.empty();
  for (auto & a : m.f.t) curved |= a.kind != 0;
  for (auto & g : m.g)
    for (auto & a : g.t) curved |= a.kind != 0;

  Ipopt::Index in = -1, im = -1, nj = -1, nh = -1;
  Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
  const auto info                   = [&] {
    s.require(t.get_nlp_info(in, im, nj, nh, style), "info-false", "get_nlp_info returned false");
    s.require(in == n && im == nc, "info-size", [&] { return eng::cat("sizes ", in, "x", im, " reported for ", n, "x", nc); });
    s.require(nj >= 0 && nj <= n * nc, "info-nnz", [&] { return eng::cat("nnz_jac_g = ", nj); });
    s.require(nh >= 0 && nh <= n * (n + 1) / 2, "info-nnz", [&] { return eng::cat("nnz_h_lag = ", nh); });
  };
  info();
  const int base = style == Ipopt::TNLP::C_STYLE ? 0 : 1;

  std::vector<Ipopt::Index> ji(nj, -99), jj(nj, -99), hi(nh, -99), hj(nh, -99);
  const auto jac_structure = [&] {
    std::vector<Ipopt::Index> a(nj, -99), b(nj, -99);
    s.require(t.eval_jac_g(n, nullptr, false, nc, nj, a.data(), b.data(), nullptr), "jac-false", "eval_jac_g(structure) returned false");
    for (int k = 0; k < nj; ++k)
      s.require(a[k] >= base && a[k] < nc + base && b[k] >= base && b[k] < n + base, "jac-index",
        [&] { return eng::cat("Jacobian entry ", k, " at (", a[k], ",", b[k], ") of ", nc, "x", n); });
    return std::pair(a, b);
  };
  const auto hess_structure = [&] {
    std::vector<Ipopt::Index> a(nh, -99), b(nh, -99);
    s.require(
      t.eval_h(n, nullptr, false, 1, nc, nullptr, false, nh, a.data(), b.data(), nullptr), "hess-false", "eval_h(structure) returned false");
    for (int k = 0; k < nh; ++k)
      s.require(a[k] >= base && a[k] < n + base && b[k] >= base && b[k] < n + base && a[k] >= b[k], "hess-index",
        [&] { return eng::cat("Hessian entry ", k, " at (", a[k], ",", b[k], ") is not in the lower triangle of ", n, "x", n); });
    return std::pair(a, b);
  };
  std::tie(ji, jj) = jac_structure();
  if (use_hessian) std::tie(hi, hj) = hess_structure();

  VectorXd x      = point(s, n);
  const auto nops = s.range(1, 20);
  for (int op = 0; op < nops; ++op) {
    const bool new_x = s.chance(2, 3);
    if (new_x) x = point(s, n);
    const auto what = s.draw(use_hessian ? 9 : 8);
    s.note("op", eng::cat(what, new_x ? " at " + vec(x) : ""));
    const std::string at = " at x = " + vec(x);
    switch (what) {
    case 0: {
      double v = kGarbage;
      s.require(t.eval_f(n, x.data(), new_x, v), "f-false", "eval_f returned false");
      s.require(close(v, m.f.val(x), std::fabs(v)), "f-value", [&] { return eng::cat("f = ", v, ", the problem says ", m.f.val(x), at); });
      break;
    }
    case 1: {
      VectorXd g = VectorXd::Constant(n + 2, kGarbage);
      s.require(t.eval_grad_f(n, x.data(), new_x, g.data() + 1), "grad-false", "eval_grad_f returned false");
      const VectorXd w = m.f.grad(x);
      for (Index i = 0; i < n; ++i)
        s.require(close(g(i + 1), w(i), w.cwiseAbs().maxCoeff()), "grad-value",
          [&] { return eng::cat("df/dx", i, " = ", g(i + 1), ", the problem says ", w(i), at); });
      s.require(g(0) == kGarbage && g(n + 1) == kGarbage, "grad-overrun", "eval_grad_f wrote outside its output");
      s.cls("gradient");
      break;
    }
    case 2: {
      VectorXd g = VectorXd::Constant(nc + 2, kGarbage);
      s.require(t.eval_g(n, x.data(), new_x, nc, g.data() + 1), "g-false", "eval_g returned false");
      const VectorXd w = m.gval(x);
      for (Index i = 0; i < nc; ++i)
        s.require(close(g(i + 1), w(i), std::fabs(w(i))), "g-value", [&] { return eng::cat("g", i, " = ", g(i + 1), ", the problem says ", w(i), at); });
      s.require(g(0) == kGarbage && g(nc + 1) == kGarbage, "g-overrun", "eval_g wrote outside its output");
      break;
    }
    case 3: {
      std::vector<double> v(nj, kGarbage);
      s.require(t.eval_jac_g(n, x.data(), new_x, nc, nj, nullptr, nullptr, v.data()), "jac-false", "eval_jac_g(values) returned false");
      MatrixXd J = MatrixXd::Zero(nc, n);
      for (int k = 0; k < nj; ++k) J(ji[k] - base, jj[k] - base) += v[k];
      const MatrixXd w = m.jac(x);
      for (Index i = 0; i < nc; ++i)
        for (Index j = 0; j < n; ++j)
          s.require(close(J(i, j), w(i, j), w.cwiseAbs().maxCoeff()), "jac-value",
            [&] { return eng::cat("dg", i, "/dx", j, " = ", J(i, j), ", the problem says ", w(i, j), at); });
      s.cls("Jacobian");
      if (nc > 0 && curved) s.nontrivial();
      break;
    }
    case 4: {
      const auto [a, b] = jac_structure();
      s.require(a == ji && b == jj, "jac-structure", "the Jacobian structure changed between queries");
      if (use_hessian) {
        const auto [c, d] = hess_structure();
        s.require(c == hi && d == hj, "hess-structure", "the Hessian structure changed between queries");
      }
      break;
    }
    case 5: {
      VectorXd a = VectorXd::Constant(n, kGarbage), b = a, c = VectorXd::Constant(nc, kGarbage), d = c;
      s.require(t.get_bounds_info(n, a.data(), b.data(), nc, c.data(), d.data()), "bounds-false", "get_bounds_info returned false");
      for (Index i = 0; i < n; ++i)
        s.require(same_bound(m.xl(i), a(i)) && same_bound(m.xu(i), b(i)), "bounds-x",
          [&] { return eng::cat("x", i, " in [", a(i), ",", b(i), "] instead of [", m.xl(i), ",", m.xu(i), "]"); });
      for (Index i = 0; i < nc; ++i)
        s.require(same_bound(m.gl(i), c(i)) && same_bound(m.gu(i), d(i)), "bounds-g",
          [&] { return eng::cat("g", i, " in [", c(i), ",", d(i), "] instead of [", m.gl(i), ",", m.gu(i), "]"); });
      break;
    }
    case 6: {
      const bool ix = s.coin(), iz = s.coin(), il = s.coin();
      VectorXd a = VectorXd::Constant(n, kGarbage), b = a, c = a, d = VectorXd::Constant(nc, kGarbage);
      s.require(t.get_starting_point(n, ix, a.data(), iz, b.data(), c.data(), nc, il, d.data()), "start-false", "get_starting_point returned false");
      if (ix) s.require(a == start.x, "start-x", "the starting point is not the one given");
      if (iz) s.require(b == start.zl && c == start.zu, "start-z", "the bound multipliers of the starting point are not those given");
      if (il) s.require(d == start.lambda, "start-lambda", "the constraint multipliers of the starting point are not those given");
      break;
    }
    case 7: {
      const auto pj = nj, ph = nh;
      info();
      s.require(pj == nj && ph == nh, "info-changed", "the reported number of nonzeros changed between queries");
      break;
    }
    default: {
      const double sigma = s.weighted({1, 2}) ? s.real(2) : 0.;
      const VectorXd l   = point(s, nc);
      std::vector<double> v(nh, kGarbage);
      s.require(t.eval_h(n, x.data(), new_x, sigma, nc, l.data(), true, nh, nullptr, nullptr, v.data()), "hess-false", "eval_h(values) returned false");
      MatrixXd H = MatrixXd::Zero(n, n);
      for (int k = 0; k < nh; ++k) H(hi[k] - base, hj[k] - base) += v[k];
      const MatrixXd w = sigma * m.f.hess(x) + m.ghess(x, l);
      for (Index i = 0; i < n; ++i)
        for (Index j = 0; j <= i; ++j)
          s.require(close(H(i, j), w(i, j), w.cwiseAbs().maxCoeff()), "hess-value", [&] {
            return eng::cat("Hessian (", i, ",", j, ") = ", H(i, j), ", the problem says ", w(i, j), at, " sigma = ", sigma, " lambda = ", vec(l));
          });
      s.cls("Hessian");
      if (curved) s.nontrivial();
      break;
    }
    }
  }

  // solution hand-over
  using R             = Ipopt::SolverReturn;
  using S             = NLPSolution::Status;
  const std::pair<R, S> codes[] = {{Ipopt::SUCCESS, S::Optimal}, {Ipopt::STOP_AT_ACCEPTABLE_POINT, S::Optimal},
    {Ipopt::MAXITER_EXCEEDED, S::MaxIterations}, {Ipopt::CPUTIME_EXCEEDED, S::MaxTime}, {Ipopt::LOCAL_INFEASIBILITY, S::PrimalInfeasible},
    {Ipopt::DIVERGING_ITERATES, S::DualInfeasible}, {Ipopt::STOP_AT_TINY_STEP, S::Unknown}, {Ipopt::RESTORATION_FAILURE, S::Unknown},
    {Ipopt::ERROR_IN_STEP_COMPUTATION, S::Unknown}, {Ipopt::INVALID_NUMBER_DETECTED, S::Unknown}, {Ipopt::INTERNAL_ERROR, S::Unknown},
    {Ipopt::USER_REQUESTED_STOP, S::Unknown}};
  const auto [code, want] = codes[s.draw(std::size(codes))];
  const VectorXd fx = point(s, n), fzl = point(s, n), fzu = point(s, n), fg = point(s, nc), fl = point(s, nc);
  const double obj  = s.real(100);
  const int iter    = static_cast<int>(s.range(0, 5000));
  dat->Set_iter_count(iter);
  t.finalize_solution(code, n, fx.data(), fzl.data(), fzu.data(), nc, fg.data(), fl.data(), obj, GetRawPtr(dat), nullptr);
  const NLPSolution & r = tnlp->sol();
  s.require(r.status == want, "final-status", [&] { return eng::cat("Ipopt status ", int(code), " became ", int(r.status), " instead of ", int(want)); });
  s.require(r.x == fx, "final-x", "the returned point is not Ipopt's");
  s.require(r.zl == fzl && r.zu == fzu, "final-z", "the returned bound multipliers are not Ipopt's");
  s.require(r.lambda == fl, "final-lambda", "the returned constraint multipliers are not Ipopt's");
  s.require(r.objective == obj, "final-objective", "the returned objective is not Ipopt's");
  s.require(r.iter == static_cast<std::size_t>(iter), "final-iter", [&] { return eng::cat("iteration count ", r.iter, " instead of ", iter); });
}

}  // namespace

PROP(hessian, 4) { queries<HNlp>(s, true, s.coin()); }
PROP(no_second_order, 2) { queries<Nlp>(s, false, s.coin()); }
PROP(hessian_unused, 1) { queries<HNlp>(s, false, s.coin()); }
PROP(by_reference, 3)
{
  const bool h = s.coin();
  queries<RefNlp>(s, h, s.coin());
}
