// Generators and oracles for quadratic programs.
#pragma once

#include <iomanip>
#include <sstream>

#include <Eigen/Dense>

#include "engine.hpp"
#include "qpi.hpp"

namespace qpg {

using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;
inline constexpr double kInf = std::numeric_limits<double>::infinity();

// ---------------------------------------------------------------- printing

template<typename M>
std::string show(const M & m)
{
  static const Eigen::IOFormat f(17, Eigen::DontAlignCols, ", ", ", ", "[", "]", "[", "]");
  std::ostringstream ss;
  ss << m.format(f);
  return ss.str();
}

inline std::string show(const QPData & d)
{
  return "n=" + std::to_string(d.n()) + " m=" + std::to_string(d.m()) + " P=" + show(d.P) + " q=" + show(d.q) + " A=" + show(d.A)
       + " l=" + show(d.l) + " u=" + show(d.u);
}

inline std::string show(const QPSolverParams & p)
{
  return eng::cat(
    "alpha=", p.alpha, " rho=", p.rho, " sigma=", p.sigma, " scaling=", p.scaling, " eps_abs=", p.eps_abs,
    " eps_rel=", p.eps_rel, " eps_pinf=", p.eps_primal_inf, " eps_dinf=", p.eps_dual_inf,
    " max_iter=", p.max_iter ? std::to_string(*p.max_iter) : "-", " check=", p.stop_check_iter, " polish=", p.polish,
    " polish_iter=", p.polish_iter, " delta=", p.delta);
}

inline std::string show(const QPResult & r)
{
  return eng::cat(
    code_name(r.code), " iter=", r.iter, " x=", show(r.x), " y=", show(r.y), " obj=", r.objective);
}

// ---------------------------------------------------------------- pieces

inline double ninf(const VectorXd & v) { return v.size() ? v.lpNorm<Eigen::Infinity>() : 0.; }

/// Coefficient matrix entry: small, round numbers or generic ones.
inline double coef(eng::Src & s) { return s.real(2); }

inline MatrixXd matrix(eng::Src & s, Index r, Index c, unsigned fill /* of 4 */)
{
  MatrixXd m = MatrixXd::Zero(r, c);
  for (Index i = 0; i < r; ++i)
    for (Index j = 0; j < c; ++j)
      if (fill >= 4 || s.chance(fill, 4)) m(i, j) = coef(s);
  return m;
}

inline VectorXd vec(eng::Src & s, Index n, double mag = 2)
{
  VectorXd v(n);
  for (Index i = 0; i < n; ++i) v(i) = s.real(mag);
  return v;
}

/// Positive semidefinite matrix; kind 0 zero, 1 diagonal psd, 2 low rank, 3 identity-regularized full
inline MatrixXd psd(eng::Src & s, Index n, int kind)
{
  switch (kind) {
  case 0: return MatrixXd::Zero(n, n);
  case 1: {
    MatrixXd P = MatrixXd::Zero(n, n);
    for (Index i = 0; i < n; ++i) P(i, i) = std::fabs(s.real(2));
    return P;
  }
  case 2: {
    const Index r    = s.range(1, std::max<Index>(1, n - 1));
    const MatrixXd L = matrix(s, n, r, 3);
    MatrixXd P       = L * L.transpose();
    P                = (0.5 * (P + P.transpose())).eval();
    return P;
  }
  default: {
    const MatrixXd L = matrix(s, n, n, static_cast<unsigned>(s.range(0, 4)));
    MatrixXd P       = L * L.transpose();
    P                = (0.5 * (P + P.transpose())).eval();
    P.diagonal().array() += s.logunif(0.25, 4);
    return P;
  }
  }
}

enum class Row { Ineq, Eq, Lower, Upper, Free };

inline Row row_kind(eng::Src & s, bool eq = true)
{
  switch (s.weighted({4, static_cast<unsigned>(eq ? 3 : 0), 3, 3, 1})) {
  case 0: return Row::Ineq;
  case 1: return Row::Eq;
  case 2: return Row::Lower;
  case 3: return Row::Upper;
  default: return Row::Free;
  }
}

struct Known
{
  QPData d;
  VectorXd x, y;  // an exact KKT point
  bool strictly_convex = false;
  bool has_eq          = false;
  int active           = 0;
  int free_rows        = 0;
  int inactive         = 0;
};

struct GenOpt
{
  int pkind      = -1;     // -1: any
  bool eq        = true;   // allow equality rows
  bool slater    = false;  // a point satisfies all equalities, and all inequalities with a margin
  double gap_min = 0.1;    // distance of inactive rows from their bounds
};

/// no nonzero singular value of the row-normalized matrix is small
inline bool well_conditioned(const MatrixXd & A)
{
  if (A.rows() == 0) return true;
  MatrixXd B = A;
  for (Index i = 0; i < B.rows(); ++i)
    if (B.row(i).norm() > 1e-9) B.row(i).normalize();
  const auto sv = Eigen::JacobiSVD<MatrixXd>(B).singularValues();
  for (Index i = 0; i < sv.size(); ++i)
    if (sv(i) > 1e-9 && sv(i) < 0.2) return false;
  return true;
}

/// QP with a known KKT point (x, y): choose x and y first, then bounds and q.
inline Known known_solution(eng::Src & s, Index n, Index m, GenOpt opt = {})
{
  Known k;
  k.d.A = matrix(s, m, n, static_cast<unsigned>(s.range(1, 4)));
  int pk = opt.pkind;
  if (pk < 0) pk = static_cast<int>(3 - s.weighted({5, 2, 2, 1}));  // 3: pd, 2: low rank, 1: diag, 0: zero
  k.d.P             = psd(s, n, pk);
  k.strictly_convex = pk == 3;
  k.x               = vec(s, n);
  k.y               = VectorXd::Zero(m);
  k.d.l.resize(m);
  k.d.u.resize(m);
  int neq = 0;
  VectorXd dir = VectorXd::Zero(n);  // direction into the interior
  if (opt.slater) {
    dir = vec(s, n, 1);
    if (ninf(dir) < 0.3) dir(0) = 1;
    dir /= dir.norm();
  }
  MatrixXd Aeq(0, n);
  for (Index i = 0; i < m; ++i) {
    Row r = row_kind(s, opt.eq && neq < n);
    if (opt.slater && r == Row::Eq) k.d.A.row(i) -= k.d.A.row(i).dot(dir) * dir.transpose();
    const bool zero_row = ninf(k.d.A.row(i).transpose()) < (opt.slater ? 0.3 : 1e-300);
    if (zero_row && r == Row::Eq) r = Row::Ineq;
    if (ninf(k.d.A.row(i).transpose()) < 1e-9) k.d.A.row(i).setZero();  // left over from the projection
    bool active = s.coin() && !zero_row;
    bool at_upper = s.coin();
    if (opt.slater && r != Row::Eq) {
      const double ad = k.d.A.row(i).dot(dir);
      if (std::fabs(ad) < 0.2 || ninf(k.d.A.row(i).transpose()) < 0.3) active = false;
      at_upper = ad < 0;
      if (active && r == Row::Lower && at_upper) r = Row::Upper;
      if (active && r == Row::Upper && !at_upper) r = Row::Lower;
    }
    const double zi = k.d.A.row(i).dot(k.x);
    if (r == Row::Eq && opt.slater) {
      Aeq.conservativeResize(Aeq.rows() + 1, n);
      Aeq.bottomRows(1) = k.d.A.row(i).normalized();
    }
    const double mult = s.logunif(0.1, 4), gap1 = s.logunif(opt.gap_min, 4), gap2 = s.logunif(opt.gap_min, 4);
    switch (r) {
    case Row::Eq:
      k.d.l(i) = k.d.u(i) = zi;
      k.y(i)              = s.coin() ? mult : -mult;
      ++neq;
      k.has_eq = true;
      break;
    case Row::Ineq:
      if (active && !at_upper) {
        k.d.l(i) = zi, k.d.u(i) = zi + gap1, k.y(i) = -mult;
      } else if (active) {
        k.d.l(i) = zi - gap1, k.d.u(i) = zi, k.y(i) = mult;
      } else {
        k.d.l(i) = zi - gap1, k.d.u(i) = zi + gap2;
      }
      k.active += active;
      k.inactive += !active;
      break;
    case Row::Lower:
      k.d.u(i) = kInf;
      k.d.l(i) = active ? zi : zi - gap1;
      k.y(i)   = active ? -mult : 0;
      k.active += active;
      k.inactive += !active;
      break;
    case Row::Upper:
      k.d.l(i) = -kInf;
      k.d.u(i) = active ? zi : zi + gap1;
      k.y(i)   = active ? mult : 0;
      k.active += active;
      k.inactive += !active;
      break;
    case Row::Free:
      k.d.l(i) = -kInf, k.d.u(i) = kInf;
      ++k.free_rows;
      break;
    }
  }
  if (Aeq.rows() > 0 && Eigen::JacobiSVD<MatrixXd>(Aeq).singularValues().minCoeff() < 0.2) s.discard("nearly dependent equalities");
  if (opt.slater) {
    MatrixXd act(0, n);
    for (Index i = 0; i < m; ++i) {
      if (k.y(i) == 0) continue;
      act.conservativeResize(act.rows() + 1, n);
      act.bottomRows(1) = k.d.A.row(i);
    }
    if (!well_conditioned(act)) s.discard("nearly dependent active rows");
  }
  k.d.q = -(k.d.P * k.x + k.d.A.transpose() * k.y);
  return k;
}

/// Multiply rows/columns/objective by positive factors (bad scaling); adjusts the known solution.
inline void bad_scaling(eng::Src & s, Known & k, double lo = 1e-3, double hi = 1e3)
{
  const Index n = k.d.n(), m = k.d.m();
  for (Index i = 0; i < m; ++i) {
    const double f = s.logunif(lo, hi);
    k.d.A.row(i) *= f;
    k.d.l(i) *= f;
    k.d.u(i) *= f;
    k.y(i) /= f;
  }
  const double c = s.logunif(lo, hi);
  k.d.P *= c;
  k.d.q *= c;
  k.y *= c;
  (void)n;
}

inline Layout layout(eng::Src & s, const QPData & d, bool sparse)
{
  Layout lo;
  lo.lower   = static_cast<int>(s.weighted({3, 2, 1}));
  lo.garbage = s.pick({1., 0.5, 5., 1e3, 1e8});
  if (sparse) {
    lo.compressed = !s.chance(1, 3);
    if (s.chance(1, 3)) {
      lo.maskP = Eigen::MatrixXi::Zero(d.n(), d.n());
      for (Index i = 0; i < d.n(); ++i)
        for (Index j = 0; j < d.n(); ++j) lo.maskP(i, j) = s.chance(1, 4);
      lo.maskA = Eigen::MatrixXi::Zero(d.m(), d.n());
      for (Index i = 0; i < d.m(); ++i)
        for (Index j = 0; j < d.n(); ++j) lo.maskA(i, j) = s.chance(1, 4);
    }
  }
  return lo;
}

inline std::string show(const Layout & lo)
{
  return eng::cat("lower=", lo.lower == 0 ? "sym" : lo.lower == 1 ? "absent" : "garbage", " compressed=", lo.compressed,
    " expl_zeros=", lo.maskA.size() + lo.maskP.size() > 0);
}

struct Dim
{
  std::size_t rep;
  Index m, n;
};

/// Representation and dimensions compatible with it.
inline Dim rep_dims(eng::Src & s, Index nmax, Index mmax)
{
  Dim d;
  const auto & reps = all_reps();
  d.rep             = s.weighted({4, 4, 1, 1, 1, 1, 1, 1});
  const auto & r    = reps[d.rep];
  d.n               = r.N > 0 ? r.N : s.range(1, nmax);
  d.m               = r.M > 0 ? r.M : s.range(0, mmax);
  return d;
}

// ---------------------------------------------------------------- oracles

struct Residuals
{
  double pri = 0, pri_scale = 0;  // distance of Ax to [l,u]; ||Ax||
  double dua = 0, dua_scale = 0;
  double compl_gap = 0;  // largest distance to the bound its multiplier points at
  double wrong_sign = 0; // largest multiplier pointing at an infinite bound
  std::string where;
};

inline Residuals residuals(const QPData & d, const VectorXd & x, const VectorXd & y, double ytol)
{
  Residuals r;
  const VectorXd Ax = d.A * x;
  r.pri_scale       = ninf(Ax);
  for (Index i = 0; i < d.m(); ++i) {
    const double v = std::max({0., d.l(i) - Ax(i), Ax(i) - d.u(i)});
    r.pri          = std::max(r.pri, v);
    if (y(i) > ytol) {
      if (d.u(i) == kInf)
        r.wrong_sign = std::max(r.wrong_sign, y(i));
      else
        r.compl_gap = std::max(r.compl_gap, std::fabs(Ax(i) - d.u(i)));
    } else if (y(i) < -ytol) {
      if (d.l(i) == -kInf)
        r.wrong_sign = std::max(r.wrong_sign, -y(i));
      else
        r.compl_gap = std::max(r.compl_gap, std::fabs(Ax(i) - d.l(i)));
    }
  }
  const VectorXd Px = d.P * x, Aty = d.A.transpose() * y;
  r.dua       = ninf(Px + d.q + Aty);
  r.dua_scale = std::max({ninf(Px), ninf(d.q), ninf(Aty)});
  return r;
}

/// The optimality oracle: r claims optimality of d with the tolerances of prm.
inline void check_optimal(const eng::Src & s, const QPData & d, const QPSolverParams & prm, const QPResult & r, const std::string & ctx = "")
{
  s.require(r.x.size() == d.n() && r.y.size() == d.m(), "size", ctx + "solution has the wrong size");
  s.require(r.x.allFinite() && r.y.allFinite(), "finite", [&] { return ctx + "Optimal but not finite: " + show(r); });
  const double ea = prm.eps_abs, er = prm.eps_rel;
  // multipliers below this are rounding noise of the scaled iterations
  const double ytol = 1e-6 * (1 + ninf(r.y) + ninf(d.q));
  const auto res    = residuals(d, r.x, r.y, ytol);
  const double slack = 1.001;
  // the solver's primal tolerance involves max(|Ax|,|z|) with |z| <= |Ax| + tolerance
  const double ptol = slack * (ea + er * res.pri_scale) / (1 - std::min(0.5, er)) + 1e-9 * (1 + res.pri_scale);
  const double dtol = slack * (ea + er * res.dua_scale) + 1e-9 * (1 + res.dua_scale);
  const auto info   = [&](const char * what, double v, double t) {
    return eng::cat(ctx, what, " ", v, " > tolerance ", t, " result: ", show(r));
  };
  s.require(res.pri <= ptol, "primal-infeasible-solution", [&] { return info("constraint violation", res.pri, ptol); });
  s.require(res.dua <= dtol, "stationarity", [&] { return info("|Px+q+A'y|", res.dua, dtol); });
  s.require(res.wrong_sign <= ytol, "dual-sign", [&] { return info("multiplier on infinite bound", res.wrong_sign, ytol); });
  s.require(
    res.compl_gap <= ptol, "complementarity", [&] { return info("distance to bound with nonzero multiplier", res.compl_gap, ptol); });
  const double obj   = 0.5 * r.x.dot(d.P * r.x) + d.q.dot(r.x);
  const double oscal = 0.5 * r.x.cwiseAbs().dot(d.P.cwiseAbs() * r.x.cwiseAbs()) + d.q.cwiseAbs().dot(r.x.cwiseAbs());
  s.require(std::fabs(r.objective - obj) <= 1e-9 * (1e-3 + oscal), "objective", [&] { return info("objective error", std::fabs(r.objective - obj), 1e-9 * oscal); });
}

/// random matrix without tiny entries
inline MatrixXd coarse_matrix(eng::Src & s, Index r, Index c, unsigned fill)
{
  MatrixXd m = matrix(s, r, c, fill);
  for (Index i = 0; i < r; ++i)
    for (Index j = 0; j < c; ++j)
      if (m(i, j) != 0 && std::fabs(m(i, j)) < 0.3) m(i, j) += m(i, j) > 0 ? 0.3 : -0.3;
  return m;
}

// contradictory rows: sum_i y_i a_i = 0 while the bounds force sum_i y_i a_i x < 0 by a margin
inline QPData contradictory(eng::Src & s, Index n, Index m)
{
  if (m < 2) s.discard("needs two rows");
  const Index c    = s.range(2, std::min<Index>(m, 4));  // rows in the contradiction
  QPData d;
  // integer entries: every subset of the rows is well-conditioned
  d.A.resize(m, n);
  for (Index i = 0; i < m; ++i)
    for (Index j = 0; j < n; ++j) d.A(i, j) = s.small(1);
  d.P = psd(s, n, 3);
  d.q = vec(s, n);
  d.l.resize(m);
  d.u.resize(m);
  const VectorXd x0 = vec(s, n);
  VectorXd y        = VectorXd::Zero(m);
  const Index off   = s.range(0, m - c);
  for (Index i = off; i < off + c; ++i) y(i) = s.coin() ? -1. : 1.;
  const Index last = off + c - 1;
  d.A.row(last).setZero();
  for (Index i = off; i < last; ++i) d.A.row(last) -= y(i) / y(last) * d.A.row(i);
  // every row in the contradiction must be of moderate size
  for (Index i = off; i < off + c; ++i)
    if (d.A.row(i).lpNorm<Eigen::Infinity>() < 0.2) s.discard("tiny row in contradiction");
  // rescale rows
  for (Index i = 0; i < m; ++i) {
    const double f = s.unif(0.5, 2);
    d.A.row(i) *= f;
    y(i) /= f;
  }
  const VectorXd z = d.A * x0;
  // sum_i (u_i y_i+ + l_i y_i-) = -margin
  const double margin = s.unif(1, 4);
  for (Index i = 0; i < m; ++i) {
    if (y(i) == 0) {
      const auto k = row_kind(s, false);
      d.l(i)       = (k == Row::Upper || k == Row::Free) ? -kInf : z(i) - s.logunif(0.5, 4);
      d.u(i)       = (k == Row::Lower || k == Row::Free) ? kInf : z(i) + s.logunif(0.5, 4);
    } else {
      const double b = z(i) - margin / static_cast<double>(c) / y(i);
      if (y(i) > 0) {
        d.u(i) = b;
        d.l(i) = s.coin() ? -kInf : (s.coin() ? b : b - s.unif(0.5, 3));
      } else {
        d.l(i) = b;
        d.u(i) = s.coin() ? kInf : (s.coin() ? b : b + s.unif(0.5, 3));
      }
    }
  }
  return d;
}

// feasible, with a ray along which the objective decreases linearly forever
inline QPData unbounded(eng::Src & s, Index n, Index m)
{
  QPData d;
  d.A        = coarse_matrix(s, m, n, static_cast<unsigned>(s.range(1, 4)));
  VectorXd v = vec(s, n);
  if (ninf(v) < 0.2) s.discard("tiny ray");
  v /= ninf(v);
  for (Index i = 0; i < n; ++i)
    if (std::fabs(v(i)) < 0.1) v(i) = 0;  // well-scaled
  // P vanishes along v
  if (s.coin() || n == 1) {
    d.P = MatrixXd::Zero(n, n);
  } else {
    const MatrixXd Pi = MatrixXd::Identity(n, n) - v * v.transpose() / v.squaredNorm();
    d.P               = Pi * psd(s, n, 3) * Pi;
    d.P               = (0.5 * (d.P + d.P.transpose())).eval();
  }
  // q = stationary part + decrease along v
  d.q               = -s.unif(0.3, 3) * v / v.squaredNorm();
  const VectorXd x0 = vec(s, n), z = d.A * x0;
  d.l.resize(m);
  d.u.resize(m);
  for (Index i = 0; i < m; ++i) {
    double av          = d.A.row(i).dot(v);
    const auto kind    = row_kind(s, false);
    const double g1 = s.logunif(0.5, 4), g2 = s.logunif(0.5, 4);
    if (kind == Row::Free) {
      d.l(i) = -kInf, d.u(i) = kInf;
    } else if (kind == Row::Ineq || std::fabs(av) < 0.2) {
      // orthogonal row, arbitrary bounds
      d.A.row(i) -= av / v.squaredNorm() * v.transpose();
      for (Index j = 0; j < n; ++j)
        if (std::fabs(d.A(i, j)) < 1e-9) d.A(i, j) = 0;
      const double zi = d.A.row(i).dot(x0);
      d.l(i) = kind == Row::Upper ? -kInf : zi - g1;
      d.u(i) = kind == Row::Lower ? kInf : zi + g2;
    } else if (av > 0) {
      d.l(i) = z(i) - g1, d.u(i) = kInf;
    } else {
      d.l(i) = -kInf, d.u(i) = z(i) + g2;
    }
  }
  if (!well_conditioned(d.A)) s.discard("ill-conditioned A");
  return d;
}

inline bool solved(const QPResult & r) { return r.code == QPSolutionStatus::Optimal || r.code == QPSolutionStatus::PolishFailed; }

/// same verdict, not counting whether polishing worked
inline bool same_verdict(const QPResult & a, const QPResult & b) { return a.code == b.code || (solved(a) && solved(b)); }

inline double lam_min(const MatrixXd & P) { return Eigen::SelfAdjointEigenSolver<MatrixXd>(P).eigenvalues().minCoeff(); }

/// Two approximate KKT points of a strongly convex QP can not be further apart than their own residuals allow; nor can
/// their objectives.
inline void check_close(const eng::Src & s, const QPData & d, const QPResult & a, const QPResult & b, const std::string & ctx)
{
  const double lam = lam_min(d.P);
  const double yt  = 1e-6 * (1 + ninf(a.y) + ninf(b.y) + ninf(d.q));
  const auto ra = residuals(d, a.x, a.y, yt), rb = residuals(d, b.x, b.y, yt);
  const VectorXd dx = a.x - b.x, dy = a.y - b.y;
  const double r1    = (ra.dua + rb.dua) * std::sqrt(static_cast<double>(d.n()));
  const double r2    = 2 * (std::max(ra.pri, ra.compl_gap) + std::max(rb.pri, rb.compl_gap));
  const double dirty = static_cast<double>(d.m()) * yt * (1 + ninf(d.A * dx));
  const double lhs   = lam * dx.squaredNorm();
  const double rhs   = r1 * dx.norm() + dy.lpNorm<1>() * (r2 + 2 * yt) + dirty;
  const auto info    = [&] { return eng::cat(ctx, ": ", show(a), " vs ", show(b), "; ", lhs, " > ", rhs); };
  s.require(lhs <= 1.01 * rhs + 1e-9, "solutions-differ", info);
  const auto f = [&](const VectorXd & x) { return 0.5 * x.dot(d.P * x) + d.q.dot(x); };
  const double fscale = d.q.cwiseAbs().dot(a.x.cwiseAbs() + b.x.cwiseAbs()) + a.x.squaredNorm() * d.P.norm() + b.x.squaredNorm() * d.P.norm();
  const double fdiff  = std::fabs(f(a.x) - f(b.x));
  s.require(fdiff <= 1.01 * (r1 * dx.norm() + (a.y.lpNorm<1>() + b.y.lpNorm<1>()) * (r2 + 2 * yt) + dirty) + 1e-9 * (1 + fscale), "objectives-differ", info);
}

/// Random solver parameters; eps not below lo.
inline QPSolverParams params(eng::Src & s, double eps_lo = 1e-6)
{
  QPSolverParams p;
  p.scaling = !s.chance(1, 3);
  p.polish  = !s.chance(1, 3);
  if (s.coin()) {
    p.eps_abs = static_cast<float>(s.logunif(eps_lo, 1e-2));
    p.eps_rel = static_cast<float>(s.logunif(eps_lo, 1e-2));
  }
  if (!p.scaling) {  // convergence is slower
    p.eps_abs = std::max(p.eps_abs, 1e-5f);
    p.eps_rel = std::max(p.eps_rel, 1e-5f);
  }
  if (s.chance(1, 3)) p.alpha = static_cast<float>(s.unif(1.0, 1.8));
  if (s.chance(1, 3)) p.rho = static_cast<float>(s.logunif(0.02, 1));
  if (s.chance(1, 4)) p.stop_check_iter = static_cast<uint32_t>(s.pick({1, 2, 3, 10, 50}));
  if (s.chance(1, 4)) p.polish_iter = static_cast<uint32_t>(s.pick({1, 2, 10, 0}));
  if (s.chance(1, 4)) p.delta = static_cast<float>(s.logunif(1e-8, 1e-4));
  return p;
}

/// stands for "no limit": far more iterations than generated problems need
inline void no_limit(QPSolverParams & p) { p.max_iter = p.scaling ? 100000 : 1000000; }

}  // namespace qpg
