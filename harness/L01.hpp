#pragma once
#include "M02.hpp"

#include <smooth/feedback/ocp_to_nlp.hpp>

namespace l01 {
using namespace fg;
namespace sf = smooth::feedback;

/// which derivatives the functions of the problem offer
enum class Kind { Dense, Sparse, Plain };
template<Kind K, int nf, int nz>
using Fn = std::conditional_t<K == Kind::Dense, Dense<nf, nz>, std::conditional_t<K == Kind::Sparse, Sparse<nf, nz>, Plain<nf>>>;
template<Kind K, int nf, int nz>
Fn<K, nf, nz> fn(eng::Src & s, const Data & d)
{
  if constexpr (K == Kind::Dense)
    return {{d}};
  else if constexpr (K == Kind::Sparse)
    return {{d}, s.coin()};
  else
    return {d};
}

struct Dims
{
  Index nx, nu, nq, ncr, nce, N;
  Index tf, q, x, u, n;         // first variables of each kind
  Index dyn, qc, cr, ce, m;     // first constraints of each kind
};

struct Want
{
  double f;
  VectorXd df, g;
  MatrixXd d2f, dg, d2g;
};

/// everything by definition; rows of g unscaled, d2g for multipliers of the unscaled rows
inline Want reference(const Dims & D, const m02::Layout & L, const Data & theta, const Data & f, const Data & gi, const Data & cr, const Data & ce, const VectorXd & v, const VectorXd & lam)
{
  Want w;
  const double tf = v(D.tf);
  MatrixXd X(D.nx, D.N + 1), U(D.nu, D.N);
  for (Index i = 0; i <= D.N; ++i) X.col(i) = v.segment(D.x + D.nx * i, D.nx);
  for (Index i = 0; i < D.N; ++i) U.col(i) = v.segment(D.u + D.nu * i, D.nu);
  // end point functions: z = E v
  MatrixXd E = MatrixXd::Zero(1 + 2 * D.nx + D.nq, D.n);
  E(0, D.tf) = 1;
  for (Index k = 0; k < D.nx; ++k) E(1 + k, D.x + k) = 1, E(1 + D.nx + k, D.x + D.nx * D.N + k) = 1;
  for (Index k = 0; k < D.nq; ++k) E(1 + 2 * D.nx + k, D.q + k) = 1;
  const VectorXd z = E * v;
  w.f   = theta.value(z)(0);
  w.df  = (theta.jac(z) * E).transpose();
  w.d2f = E.transpose() * theta.hess(z, 0) * E;
  w.g   = VectorXd::Zero(D.m);
  w.dg  = MatrixXd::Zero(D.m, D.n);
  w.d2g = MatrixXd::Zero(D.n, D.n);
  w.g.segment(D.ce, D.nce)     = ce.value(z);
  w.dg.middleRows(D.ce, D.nce) = ce.jac(z) * E;
  for (Index j = 0; j < D.nce; ++j) w.d2g += lam(D.ce + j) * E.transpose() * ce.hess(z, j) * E;
  // running functions: P maps our variables to (t0, tf, X, U)
  const Index nv = 2 + D.nx * (D.N + 1) + D.nu * D.N;
  MatrixXd P     = MatrixXd::Zero(nv, D.n);
  P(1, D.tf)     = 1;
  for (Index k = 0; k < D.nx * (D.N + 1); ++k) P(2 + k, D.x + k) = 1;
  for (Index k = 0; k < D.nu * D.N; ++k) P(2 + D.nx * (D.N + 1) + k, D.u + k) = 1;
  const auto part = [&](m02::Op op, const Data & fn, Index row, Index n) {
    const auto r = m02::reference(op, L, fn, 0, tf, X, U, lam.segment(row, n));
    w.g.segment(row, n) += r.F;
    w.dg.middleRows(row, n) += r.J * P;
    w.d2g += P.transpose() * r.H * P;
  };
  part(m02::Op::Dyn, f, D.dyn, D.nx * D.N);
  part(m02::Op::Integrate, gi, D.qc, D.nq);
  part(m02::Op::EvalScaled, cr, D.cr, D.ncr * D.N);
  w.g.segment(D.qc, D.nq) -= v.segment(D.q, D.nq);
  for (Index k = 0; k < D.nq; ++k) w.dg(D.qc + k, D.q + k) -= 1;
  return w;
}

/// interpolation of the columns of Y on interval i at tau (own Lagrange form; with the node after the interval if there is one)
template<typename M>
VectorXd interpolate(const M & m, const MatrixXd & Y, double tau)
{
  Index i0 = 0;
  for (std::size_t i = 0; i < m.N_ivals(); ++i) {
    std::vector<double> ns;
    for (const double t : m.interval_nodes(i)) ns.push_back(t);
    const bool last = i + 1 == m.N_ivals();
    if (tau < ns.back() || last) {
      const Index n = std::min<Index>(Index(ns.size()), Y.cols() - i0);
      VectorXd r    = VectorXd::Zero(Y.rows());
      for (Index j = 0; j < n; ++j) {
        double l = 1;
        for (Index k = 0; k < n; ++k)
          if (k != j) l *= (tau - ns[std::size_t(k)]) / (ns[std::size_t(j)] - ns[std::size_t(k)]);
        r += l * Y.col(i0 + j);
      }
      return r;
    }
    i0 += Index(ns.size()) - 1;
  }
  return {};
}

template<int nx, int nu, int nq, int ncr, int nce, Kind Kt, Kind Kf, Kind Kg, Kind Kcr, Kind Kce, smooth::diff::Type DT, typename M>
void run(eng::Src & s, const M & mesh)
{
  constexpr int ne = 1 + 2 * nx + nq, nz = 1 + nx + nu;
  using X = Eigen::Vector<double, nx>;
  using U = Eigen::Vector<double, nu>;
  using Ocp = sf::OCP<X, U, Fn<Kt, 0, ne>, Fn<Kf, nx, nz>, Fn<Kg, nq, nz>, Fn<Kcr, ncr, nz>, Fn<Kce, nce, ne>>;
  static_assert(Ocp::Nx == nx && Ocp::Nu == nu && Ocp::Nq == nq && Ocp::Ncr == ncr && Ocp::Nce == nce);
  const auto kind   = [&] { return int(s.weighted({1, 2, 3})); };
  const Data dtheta = data(s, 1, ne, kind()), df = data(s, nx, nz, kind()), dg = data(s, nq, nz, kind()), dcr = data(s, ncr, nz, kind()), dce = data(s, nce, ne, kind());
  Ocp ocp{
    .theta = fn<Kt, 0, ne>(s, dtheta), .f = fn<Kf, nx, nz>(s, df), .g = fn<Kg, nq, nz>(s, dg), .cr = fn<Kcr, ncr, nz>(s, dcr), .ce = fn<Kce, nce, ne>(s, dce)};
  const auto bounds = [&](auto & l, auto & u) {
    for (Index i = 0; i < l.size(); ++i) {
      l(i) = s.real(2);
      u(i) = l(i) + s.pick({0., 1., 3.});
      if (s.chance(1, 4)) l(i) = -std::numeric_limits<double>::infinity();
      if (s.chance(1, 4)) u(i) = std::numeric_limits<double>::infinity();
    }
  };
  bounds(ocp.crl, ocp.cru);
  bounds(ocp.cel, ocp.ceu);

  const m02::Layout L(mesh);
  const auto [vb, vl, cb, cl] = sf::detail::ocp_nlp_structure(ocp, mesh);
  const Dims D{nx, nu, nq, ncr, nce, L.N, Index(vb[0]), Index(vb[1]), Index(vb[2]), Index(vb[3]), Index(vb[4]), Index(cb[0]), Index(cb[1]), Index(cb[2]), Index(cb[3]), Index(cb[4])};
  s.note("nx,nu,nq,ncr,nce", eng::cat(nx, ",", nu, ",", nq, ",", ncr, ",", nce)).note("N", L.N).note("ivals", mesh.N_ivals());
  s.require(D.n == 1 + nq + nx * (L.N + 1) + nu * L.N && D.m == (nx + ncr) * L.N + nq + nce, "size", "number of variables or constraints");
  if (mesh.N_ivals() > 1) s.nontrivial();
  const bool numerical = DT == smooth::diff::Type::Numerical;

  // the transcription keeps no reference to problem and mesh
  auto nlp = [&] {
    Ocp o1 = ocp;
    M m1   = mesh;
    auto r = sf::ocp_to_nlp<DT>(o1, m1);
    if (s.coin()) {
      o1.theta.d.a.setConstant(9), o1.f.d.a.setConstant(9), o1.crl.setZero();
      m1 = M(1);
    }
    return r;
  }();
  static_assert(sf::HessianNLP<decltype(nlp)>);
  s.require(nlp.n() == std::size_t(D.n) && nlp.m() == std::size_t(D.m), "size", [&] { return eng::cat(nlp.n(), " variables and ", nlp.m(), " constraints"); });
  s.require(nlp.xl().size() == D.n && nlp.xu().size() == D.n && nlp.gl().size() == D.m && nlp.gu().size() == D.m, "size", "size of the bounds");
  for (Index i = 0; i < D.n; ++i)
    s.require(nlp.xl()(i) == (i == D.tf ? 0 : -std::numeric_limits<double>::infinity()) && nlp.xu()(i) == std::numeric_limits<double>::infinity(), "variable-bounds",
      [&] { return eng::cat("bounds of variable ", i, ": ", nlp.xl()(i), " ", nlp.xu()(i)); });

  // positive factors of the rows, taken from the Jacobian at one point
  const auto point = [&] {
    VectorXd v = lg::matrix(s, D.n, 1, 1.5);
    v(D.tf)    = s.unif(0.2, 4);
    return v;
  };
  const double tolJ = numerical ? 1e-7 : 1e-11, tolH = numerical ? 1e-4 : 1e-10;
  const double size = 10 * (1 + dtheta.size() + df.size() + dg.size() + dcr.size() + dce.size());
  VectorXd row = VectorXd::Ones(D.m), den = VectorXd::Zero(D.m), num = VectorXd::Zero(D.m);
  std::vector<bool> vague(std::size_t(D.m), false);  // the function of the row vanishes where we look
  for (int k = 0; k < 3; ++k) {
    const VectorXd v = point();
    const Want w     = reference(D, L, dtheta, df, dg, dcr, dce, v, VectorXd::Zero(D.m));
    const MatrixXd J = nlp.dg_dx(v);
    const VectorXd g = nlp.g(v);
    s.require(J.rows() == D.m && J.cols() == D.n && g.size() == D.m, "size", "size of constraints or their derivative");
    for (Index i = 0; i < D.ce; ++i) {
      den(i) += w.dg.row(i).squaredNorm() + w.g(i) * w.g(i);
      num(i) += J.row(i).dot(w.dg.row(i)) + g(i) * w.g(i);
    }
  }
  for (Index i = 0; i < D.ce; ++i) {
    vague[std::size_t(i)] = den(i) < 1e-6;
    if (!vague[std::size_t(i)]) row(i) = num(i) / den(i);
    s.require(row(i) > 1e-6 && row(i) < 1e8, "row-factor", [&] { return eng::cat("row ", i, " is ", row(i), " times the constraint"); });
  }
  // bounds
  for (Index i = 0; i < D.m; ++i) {
    double l = 0, u = 0;
    if (i >= D.ce)
      l = ocp.cel(i - D.ce), u = ocp.ceu(i - D.ce);
    else if (i >= D.cr)
      l = ocp.crl((i - D.cr) % ncr) * L.w((i - D.cr) / ncr) * row(i), u = ocp.cru((i - D.cr) % ncr) * L.w((i - D.cr) / ncr) * row(i);
    const auto same = [](double a, double b) { return a == b || std::abs(a - b) <= 1e-6 * (std::abs(a) + std::abs(b)); };
    if (vague[std::size_t(i)]) continue;
    s.require(same(nlp.gl()(i), l) && same(nlp.gu()(i), u), "bounds", [&] { return eng::cat("bounds of constraint ", i, ": ", nlp.gl()(i), " ", nlp.gu()(i), " instead of ", l, " ", u); });
  }

  const auto check = [&](auto & p, const char * which) {
    const VectorXd v   = point();
    VectorXd lam = lg::matrix(s, D.m, 1, 2.);
    for (Index i = 0; i < D.m; ++i)
      if (vague[std::size_t(i)]) lam(i) = 0;
    const Want w       = reference(D, L, dtheta, df, dg, dcr, dce, v, lam.cwiseProduct(row));
    const double sc    = size * (1 + w.dg.cwiseAbs().maxCoeff()) * (1 + w.df.cwiseAbs().maxCoeff()) * (1 + row.maxCoeff());
    for (int64_t k = s.range(1, 5); k-- > 0;) {
      switch (s.weighted({1, 1, 2, 1, 1, 2})) {
      case 0: s.require(std::abs(p.f(v) - w.f) <= 1e-11 * sc, "objective", [&] { return eng::cat(which, ": objective ", p.f(v), " instead of ", w.f); }); break;
      case 1: {
        const MatrixXd d = p.df_dx(v);
        s.require(d.rows() == 1 && d.cols() == D.n, "size", "size of the gradient");
        s.require((d.transpose() - w.df).cwiseAbs().maxCoeff() <= tolJ * sc, "gradient", [&] { return eng::cat(which, ": gradient is off by ", (d - w.df.transpose())); });
        break;
      }
      case 2: {
        const MatrixXd d = p.d2f_dx2(v);
        s.require(d.rows() == D.n && d.cols() == D.n, "size", "size of the Hessian");
        const MatrixXd h = d.selfadjointView<Eigen::Upper>();
        Index a, b;
        s.require((h - w.d2f).cwiseAbs().maxCoeff(&a, &b) <= tolH * sc, "objective-hessian", [&] { return eng::cat(which, ": Hessian of the objective (", a, ",", b, ") is ", h(a, b), " instead of ", w.d2f(a, b)); });
        s.cls("objective Hessian");
        break;
      }
      case 3: {
        VectorXd g = p.g(v);
        Index a;
        for (Index i = 0; i < D.m && g.size() == D.m; ++i)
          if (vague[std::size_t(i)]) g(i) = w.g(i);
        s.require(g.size() == D.m && (g - row.cwiseProduct(w.g)).cwiseAbs().maxCoeff(&a) <= (numerical ? 1e-6 : 1e-10) * sc, "constraint", [&] { return eng::cat(which, ": constraint ", a, " is ", g(a), " instead of ", row(a) * w.g(a)); });
        break;
      }
      case 4: {
        MatrixXd d = p.dg_dx(v);
        s.require(d.rows() == D.m && d.cols() == D.n, "size", "size of the constraint derivative");
        Index a, b;
        const MatrixXd want = row.asDiagonal() * w.dg;
        for (Index i = 0; i < D.m; ++i)
          if (vague[std::size_t(i)]) d.row(i) = want.row(i);
        s.require((d - want).cwiseAbs().maxCoeff(&a, &b) <= (numerical ? 1e-6 : 1e-10) * sc, "jacobian", [&] { return eng::cat(which, ": derivative (", a, ",", b, ") of the constraints is ", d(a, b), " instead of ", want(a, b)); });
        s.cls("constraint Jacobian");
        break;
      }
      default: {
        const MatrixXd d = p.d2g_dx2(v, lam);
        s.require(d.rows() == D.n && d.cols() == D.n, "size", "size of the constraint Hessian");
        const MatrixXd h = d.selfadjointView<Eigen::Upper>();
        Index a, b;
        s.require((h - w.d2g).cwiseAbs().maxCoeff(&a, &b) <= tolH * sc * (1 + lam.norm()), "constraint-hessian", [&] { return eng::cat(which, ": Hessian of the constraints (", a, ",", b, ") is ", h(a, b), " instead of ", w.d2g(a, b)); });
        s.cls("constraint Hessian");
      }
      }
    }
  };
  for (int64_t k = s.range(1, 3); k-- > 0;) {
    if (s.chance(1, 4)) {
      auto copy = nlp;
      check(copy, "copy");
    }
    check(nlp, "nlp");
  }

  // conversions
  if (s.coin()) {
    s.cls("conversions");
    sf::NLPSolution sol;
    sol.status = sf::NLPSolution::Status::Optimal;
    sol.x      = point();
    sol.lambda = lg::matrix(s, D.m, 1, 2.);
    sol.zl = sol.zu = VectorXd::Zero(D.n);
    auto os = [&] {
      // the solution owns its data
      sf::NLPSolution tmp = sol;
      M m1                = mesh;
      auto r              = sf::nlpsol_to_ocpsol(ocp, m1, tmp);
      tmp.x.setConstant(5), tmp.lambda.setConstant(5);
      m1 = M(1);
      return r;
    }();
    const double tf = sol.x(D.tf);
    s.require(os.t0 == 0 && os.tf == tf, "times", [&] { return eng::cat("times ", os.t0, " ", os.tf, " instead of 0 ", tf); });
    s.require(os.Q == sol.x.segment(D.q, nq) && os.lambda_q == sol.lambda.segment(D.qc, nq) && os.lambda_ce == sol.lambda.segment(D.ce, nce), "solution", "integrals or their multipliers or end constraint multipliers");
    const MatrixXd Xs = sol.x.segment(D.x, nx * (L.N + 1)).reshaped(nx, L.N + 1), Us = sol.x.segment(D.u, nu * L.N).reshaped(nu, L.N),
                   Ld = sol.lambda.segment(D.dyn, nx * L.N).reshaped(nx, L.N), Lc = sol.lambda.segment(D.cr, ncr * L.N).reshaped(ncr, L.N);
    for (int r = 0; r < 4; ++r) {
      const double tau = r < 2 ? L.tau(s.range(0, L.N)) : s.unif(0, 1);
      const double t   = tf * tau;
      const auto cmp = [&](const VectorXd & got, const MatrixXd & Y, const char * what) {
        const VectorXd want = interpolate(mesh, Y, tau);
        s.require((got - want).norm() <= 1e-8 * (1 + Y.norm() * 10), "interpolation", [&] { return eng::cat(what, " at tau = ", tau, " is ", got.transpose(), " instead of ", want.transpose()); });
      };
      cmp(os.x(t), Xs, "x");
      cmp(os.u(t), Us, "u");
      cmp(os.lambda_dyn(t), Ld, "lambda_dyn");
      cmp(os.lambda_cr(t), Lc, "lambda_cr");
    }
    const auto back = sf::ocpsol_to_nlpsol(ocp, mesh, os);
    s.require(back.x.size() == D.n && back.lambda.size() == D.m && back.zl.size() == D.n && back.zu.size() == D.n, "round-trip-size", "size after the round trip");
    s.require((back.x - sol.x).cwiseAbs().maxCoeff() <= 1e-8, "round-trip", [&] { return eng::cat("variables after the round trip: ", back.x.transpose(), " instead of ", sol.x.transpose()); });
    s.require((back.lambda - sol.lambda).cwiseAbs().maxCoeff() <= 1e-8, "round-trip", [&] { return eng::cat("multipliers after the round trip: ", back.lambda.transpose(), " instead of ", sol.lambda.transpose()); });
    // onto another mesh: values of the trajectories at its nodes
    M other = mesh;
    if (s.coin())
      other.increase_degrees();
    else
      other.refine_ph(static_cast<std::size_t>(s.range(0, int64_t(mesh.N_ivals()) - 1)), M::Kmax + 1);
    const auto [vb2, vl2, cb2, cl2] = sf::detail::ocp_nlp_structure(ocp, other);
    const auto on2 = sf::ocpsol_to_nlpsol(ocp, other, os);
    const m02::Layout L2(other);
    s.require(on2.x.size() == Index(vb2[4]) && on2.lambda.size() == Index(cb2[4]), "remesh-size", "size on the refined mesh");
    for (Index i = 0; i <= L2.N; ++i) {
      const double t = tf * L2.tau(i);
      double e = (on2.x.segment(Index(vb2[2]) + nx * i, nx) - os.x(t)).norm();
      if (i < L2.N) e += (on2.x.segment(Index(vb2[3]) + nu * i, nu) - os.u(t)).norm() + (on2.lambda.segment(Index(cb2[0]) + nx * i, nx) - os.lambda_dyn(t)).norm() + (on2.lambda.segment(Index(cb2[2]) + ncr * i, ncr) - os.lambda_cr(t)).norm();
      s.require(e <= 1e-8, "remesh", [&] { return eng::cat("values at node ", i, " of the refined mesh differ from the trajectory by ", e); });
    }
    s.require(on2.x(Index(vb2[0])) == tf && (on2.x.segment(Index(vb2[1]), nq) - os.Q).norm() == 0 && (on2.lambda.segment(Index(cb2[1]), nq) - os.lambda_q).norm() == 0 && (on2.lambda.segment(Index(cb2[3]), nce) - os.lambda_ce).norm() == 0, "remesh", "times, integrals or multipliers on the refined mesh");
  }
}
}  // namespace l01
