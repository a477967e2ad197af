#pragma once
#include "L01.hpp"

#include <smooth/feedback/ocp_to_qp.hpp>

namespace l02 {
using namespace fg;
using l01::fn, l01::Fn, l01::Kind;
namespace sf = smooth::feedback;
using Qp = sf::QuadraticProgramSparse<double>;

struct Model
{
  MatrixXd P, A;
  VectorXd q, l, u;
  double scale;
};

inline void compare(eng::Src & s, const Qp & qp, const Model & w, double tol, const std::string & when)
{
  const Index n = w.q.size(), m = w.l.size();
  s.require(qp.P.rows() == n && qp.P.cols() == n && qp.q.size() == n && qp.A.rows() == m && qp.A.cols() == n && qp.l.size() == m && qp.u.size() == m, "size", [&] { return when + ": sizes of the quadratic program"; });
  Index a = 0, b = 0;
  const MatrixXd A = qp.A, P = MatrixXd(qp.P).selfadjointView<Eigen::Upper>();
  s.require((A - w.A).cwiseAbs().maxCoeff(&a, &b) <= tol * w.scale, "A", [&] { return eng::cat(when, ": A(", a, ",", b, ") is ", A(a, b), " instead of ", w.A(a, b)); });
  s.require((P - w.P).cwiseAbs().maxCoeff(&a, &b) <= 1000 * tol * w.scale, "P", [&] { return eng::cat(when, ": P(", a, ",", b, ") is ", P(a, b), " instead of ", w.P(a, b)); });
  s.require((qp.q - w.q).cwiseAbs().maxCoeff(&a) <= tol * w.scale, "q", [&] { return eng::cat(when, ": q(", a, ") is ", qp.q(a), " instead of ", w.q(a)); });
  for (Index i = 0; i < m; ++i) {
    const auto same = [&](double x, double y) { return x == y || std::abs(x - y) <= tol * w.scale; };
    s.require(same(qp.l(i), w.l(i)) && same(qp.u(i), w.u(i)), "bounds", [&] { return eng::cat(when, ": bounds of row ", i, " are ", qp.l(i), " ", qp.u(i), " instead of ", w.l(i), " ", w.u(i)); });
  }
}

/// functions of a problem on flat spaces
template<int nx, int nu, int ncr, int nce>
struct Flat
{
  static constexpr int ne = 1 + 2 * nx + 1, nz = 1 + nx + nu;
  Data theta, f, g, cr, ce;
  Eigen::Vector<double, ncr> crl, cru;
  Eigen::Vector<double, nce> cel, ceu;
  explicit Flat(eng::Src & s, bool lq)
  {
    const auto kind = [&](int most) { return lq ? most : int(s.weighted({1, 2, 3})); };
    theta = data(s, 1, ne, kind(1)), f = data(s, nx, nz, kind(0)), g = data(s, 1, nz, kind(1)), cr = data(s, ncr, nz, kind(0)), ce = data(s, nce, ne, kind(0));
    // end cost affine in the integral, end constraints without it
    theta.Q[0].col(ne - 1).setZero(), theta.Q[0].row(ne - 1).setZero(), theta.W(0, ne - 1) = 0;
    for (Index j = 0; j < nce; ++j) ce.Q[std::size_t(j)].col(ne - 1).setZero(), ce.Q[std::size_t(j)].row(ne - 1).setZero(), ce.W(j, ne - 1) = 0, ce.B(j, ne - 1) = 0;
    const auto bounds = [&](auto & l, auto & u) {
      for (Index i = 0; i < l.size(); ++i) {
        l(i) = s.real(2), u(i) = l(i) + s.pick({0., 1., 3.});
        if (s.chance(1, 4)) l(i) = -std::numeric_limits<double>::infinity();
        if (s.chance(1, 4)) u(i) = std::numeric_limits<double>::infinity();
      }
    };
    bounds(crl, cru), bounds(cel, ceu);
  }
  double size() const { return 10 * (1 + theta.size() + f.size() + g.size() + cr.size() + ce.size()); }
};

/// second-order model around the trajectory (xl, ul) by definition
template<int nx, int nu, int ncr, int nce>
Model reference(const Flat<nx, nu, ncr, nce> & p, const m02::Layout & L, double tf, const Data & xl, const Data & ul)
{
  const Index N = L.N, n = nx * (N + 1) + nu * N, m = nx * N + ncr * N + nce;
  MatrixXd X(nx, N + 1), dX(nx, N + 1), U(nu, N);
  for (Index i = 0; i <= N; ++i) {
    const VectorXd t = VectorXd::Constant(1, tf * L.tau(i));
    X.col(i)  = xl.value(t);
    dX.col(i) = xl.jac(t);
    if (i < N) U.col(i) = ul.value(t);
  }
  Model w;
  w.P = MatrixXd::Zero(n, n), w.q = VectorXd::Zero(n), w.A = MatrixXd::Zero(m, n), w.l = w.u = VectorXd::Zero(m);
  // cost
  VectorXd z(1 + 2 * nx + 1);
  z << tf, X.col(0), X.col(N), 1.;
  const MatrixXd dth = p.theta.jac(z), d2th = p.theta.hess(z, 0);
  const double c = dth(0, 1 + 2 * nx);
  const auto rg  = m02::reference(m02::Op::Integrate, L, p.g, 0, tf, X, U, VectorXd::Ones(1));
  w.P += c * rg.H.bottomRightCorner(n, n);
  w.q += c * rg.J.rightCols(n).transpose();
  MatrixXd E = MatrixXd::Zero(2 * nx, n);
  for (Index k = 0; k < nx; ++k) E(k, k) = 1, E(nx + k, nx * N + k) = 1;
  w.P += E.transpose() * d2th.block(1, 1, 2 * nx, 2 * nx) * E;
  w.q += E.transpose() * dth.middleCols(1, 2 * nx).transpose();
  // dynamics: tf (f + A x + B u - dxl) = x D
  for (Index i = 0; i < N; ++i) {
    VectorXd zi(1 + nx + nu);
    zi << tf * L.tau(i), X.col(i), U.col(i);
    const MatrixXd df = p.f.jac(zi);
    w.A.block(nx * i, nx * i, nx, nx) += tf * df.middleCols(1, nx);
    w.A.block(nx * i, nx * (N + 1) + nu * i, nx, nu) += tf * df.rightCols(nu);
    for (Index k = 0; k <= N; ++k)
      for (Index r = 0; r < nx; ++r) w.A(nx * i + r, nx * k + r) -= L.D(k, i);
    w.l.segment(nx * i, nx) = w.u.segment(nx * i, nx) = -tf * (p.f.value(zi) - dX.col(i));
  }
  // running constraints
  const auto rc = m02::reference(m02::Op::Eval, L, p.cr, 0, tf, X, U, VectorXd::Zero(ncr * N));
  w.A.middleRows(nx * N, ncr * N) = rc.J.rightCols(n);
  w.l.segment(nx * N, ncr * N)    = p.crl.replicate(N, 1) - rc.F;
  w.u.segment(nx * N, ncr * N)    = p.cru.replicate(N, 1) - rc.F;
  // end constraints
  w.A.bottomRows(nce) = p.ce.jac(z).middleCols(1, 2 * nx) * E;
  w.l.tail(nce)       = p.cel - p.ce.value(z);
  w.u.tail(nce)       = p.ceu - p.ce.value(z);
  w.scale = p.size() * (1 + tf) * (1 + xl.size()) * (1 + xl.size()) * (1 + ul.size()) * (1 + w.A.cwiseAbs().maxCoeff());
  return w;
}

/// the quadratic program of a linear-quadratic problem takes the same values as the collocated problem
template<int nx, int nu, int ncr, int nce>
void values(eng::Src & s, const Qp & qp, const Flat<nx, nu, ncr, nce> & p, const m02::Layout & L, double tf, const Data & xl, const Data & ul, double scale)
{
  const Index N = L.N, n = nx * (N + 1) + nu * N;
  const auto cost = [&](const VectorXd & v) {
    double q = 0;
    VectorXd x0, xf;
    for (Index i = 0; i <= N; ++i) {
      const VectorXd t = VectorXd::Constant(1, tf * L.tau(i));
      const VectorXd x = xl.value(t) + v.segment(nx * i, nx);
      if (i == 0) x0 = x;
      if (i == N) xf = x;
      if (i < N) q += tf * L.w(i) * p.g.value(pack(t(0), x, VectorXd(ul.value(t) + v.segment(nx * (N + 1) + nu * i, nu))))(0);
    }
    return p.theta.value(pack(tf, x0, xf, q))(0);
  };
  const VectorXd v = lg::matrix(s, n, 1, 1.5), zero = VectorXd::Zero(n);
  const MatrixXd P = MatrixXd(qp.P).selfadjointView<Eigen::Upper>();
  const double got = 0.5 * v.dot(P * v) + qp.q.dot(v), want = cost(v) - cost(zero);
  s.require(std::abs(got - want) <= 1e-9 * scale * (1 + v.squaredNorm()), "lq-cost", [&] { return eng::cat("objective of a deviation is ", got, ", cost difference is ", want); });
  const VectorXd Av = qp.A * v;
  for (Index i = 0; i < N; ++i) {
    const VectorXd t = VectorXd::Constant(1, tf * L.tau(i));
    const VectorXd x = xl.value(t) + v.segment(nx * i, nx), u = ul.value(t) + v.segment(nx * (N + 1) + nu * i, nu);
    VectorXd e = tf * (p.f.value(pack(t(0), x, u)) - xl.jac(t));
    for (Index k = 0; k <= N; ++k) e -= L.D(k, i) * v.segment(nx * k, nx);
    s.require((Av.segment(nx * i, nx) - qp.l.segment(nx * i, nx) - e).norm() <= 1e-9 * scale, "lq-dynamics", [&] { return eng::cat("dynamics defect at node ", i, " is ", (Av.segment(nx * i, nx) - qp.l.segment(nx * i, nx)).transpose(), " instead of ", e.transpose()); });
    const VectorXd c = p.cr.value(pack(t(0), x, u));
    for (Index k = 0; k < ncr; ++k) {
      const Index r = nx * N + ncr * i + k;
      if (std::isfinite(p.crl(k))) s.require(std::abs(Av(r) - qp.l(r) - (c(k) - p.crl(k))) <= 1e-9 * scale, "lq-running", "margin of a running constraint");
      if (std::isfinite(p.cru(k))) s.require(std::abs(qp.u(r) - Av(r) - (p.cru(k) - c(k))) <= 1e-9 * scale, "lq-running", "margin of a running constraint");
    }
  }
}

template<int nx, int nu, int ncr, int nce, Kind K, smooth::diff::Type DT, typename M>
void flat(eng::Src & s, M mesh, M mesh2)
{
  using F = Flat<nx, nu, ncr, nce>;
  constexpr int ne = F::ne, nz = F::nz;
  using X = Eigen::Vector<double, nx>;
  using U = Eigen::Vector<double, nu>;
  using Ocp = sf::OCP<X, U, Fn<K, 0, ne>, Fn<K, nx, nz>, Fn<K, 1, nz>, Fn<K, ncr, nz>, Fn<K, nce, ne>>;
  constexpr bool numerical = K == Kind::Plain;
  const double tol         = numerical ? 1e-7 : 1e-11;
  const bool lq            = s.coin();
  s.note("nx,nu,ncr,nce", eng::cat(nx, ",", nu, ",", ncr, ",", nce)).note("N", mesh.N_colloc()).note("lq", lq);
  if (mesh.N_ivals() > 1) s.nontrivial();
  s.cls(lq ? "linear-quadratic" : "nonlinear");
  const auto make = [&](const F & p) {
    Ocp o{.theta = fn<K, 0, ne>(s, p.theta), .f = fn<K, nx, nz>(s, p.f), .g = fn<K, 1, nz>(s, p.g), .cr = fn<K, ncr, nz>(s, p.cr), .ce = fn<K, nce, ne>(s, p.ce)};
    o.crl = p.crl, o.cru = p.cru, o.cel = p.cel, o.ceu = p.ceu;
    return o;
  };
  F p(s, lq);
  Ocp ocp    = make(p);
  double tf  = s.unif(0.2, 3);
  const auto curve = [&](Index n) { return data(s, n, 1, int(s.weighted({1, 1, 2}))); };
  Data xl = curve(nx), ul = curve(nu);
  const auto update = [&](Qp & qp, sf::detail::OcpToQpWorkmemory & work, unsigned parts) {
    constexpr Kind C = K == Kind::Sparse ? Kind::Dense : K;  // called through const references
    const Fn<C, nx, 1> xf = fn<C, nx, 1>(s, xl);
    const Fn<C, nu, 1> uf = fn<C, nu, 1>(s, ul);
    if (parts == 15) {
      sf::detail::ocp_to_qp_update<DT>(qp, work, ocp, mesh, tf, xf, uf);
    } else {
      if (parts & 1) sf::detail::ocp_to_qp_update_cost<DT>(qp, work, ocp, mesh, tf, xf, uf);
      if (parts & 2) sf::detail::ocp_to_qp_update_dyn<DT>(qp, work, ocp, mesh, tf, xf, uf);
      if (parts & 4) sf::detail::ocp_to_qp_update_cr<DT>(qp, work, ocp, mesh, tf, xf, uf);
      if (parts & 8) sf::detail::ocp_to_qp_update_ce<DT>(qp, work, ocp, mesh, tf, xf, uf);
    }
  };
  Qp qp;
  sf::detail::OcpToQpWorkmemory work;
  if (s.coin()) {
    if constexpr (K != Kind::Sparse) {
      s.cls("ocp_to_qp");
      qp = sf::ocp_to_qp<DT>(std::as_const(ocp), mesh, tf, fn<K, nx, 1>(s, xl), fn<K, nu, 1>(s, ul));
      compare(s, qp, reference(p, m02::Layout(mesh), tf, xl, ul), tol, "ocp_to_qp");
      s.require(qp.A.isCompressed() && qp.P.isCompressed(), "compressed", "matrices of ocp_to_qp are not compressed");
    }
  }
  if (qp.A.rows() == 0) {
    if (s.chance(1, 4)) {
      // storage that served another mesh before
      sf::detail::ocp_to_qp_allocate<DT>(qp, work, ocp, mesh2);
      std::swap(mesh, mesh2);
      update(qp, work, 15);
      std::swap(mesh, mesh2);
      work = {};
      s.cls("storage of another mesh");
    }
    sf::detail::ocp_to_qp_allocate<DT>(qp, work, ocp, mesh);
    Model have;
    for (int64_t k = s.range(1, 4), first = 1; k-- > 0; first = 0) {
      unsigned parts = 15;
      if (!first) {
        s.cls("transcribed again");
        if (s.coin()) qp.A.makeCompressed(), qp.P.makeCompressed();
        if (s.coin()) p = F(s, lq), ocp = make(p);
        if (s.coin()) tf = s.unif(0.2, 3);
        if (s.coin()) xl = curve(nx);
        if (s.coin()) ul = curve(nu);
        if (s.chance(1, 3)) parts = static_cast<unsigned>(s.range(1, 15));
      }
      update(qp, work, parts);
      const Model now = reference(p, m02::Layout(mesh), tf, xl, ul);
      const Index N = Index(mesh.N_colloc()), r[] = {0, nx * N, (nx + ncr) * N, (nx + ncr) * N + nce};
      if (first) {
        have = now;
      } else {
        have.scale = std::max(have.scale, now.scale);
        if (parts & 1) have.P = now.P, have.q = now.q;
        for (int i = 0; i < 3; ++i)
          if (parts & (2u << i)) {
            have.A.middleRows(r[i], r[i + 1] - r[i]) = now.A.middleRows(r[i], r[i + 1] - r[i]);
            have.l.segment(r[i], r[i + 1] - r[i])    = now.l.segment(r[i], r[i + 1] - r[i]);
            have.u.segment(r[i], r[i + 1] - r[i])    = now.u.segment(r[i], r[i + 1] - r[i]);
          }
      }
      compare(s, qp, have, tol, eng::cat("transcription (parts ", parts, first ? ")" : ", again)"));
      if (parts != 15 && k == 0) ++k;  // the last one is complete
    }
  }
  const m02::Layout L(mesh);
  if (lq && !numerical) values(s, qp, p, L, tf, xl, ul, reference(p, L, tf, xl, ul).scale);

  // trajectories of a solution
  sf::QPSolution<-1, -1, double> sol;
  const Index N = L.N;
  sol.primal = lg::matrix(s, nx * (N + 1) + nu * N, 1, 2.);
  sol.dual   = VectorXd::Zero(qp.l.size());
  const MatrixXd Xs = sol.primal.head(nx * (N + 1)).reshaped(nx, N + 1), Us = sol.primal.tail(nu * N).reshaped(nu, N);
  const auto os = [&] {
    auto tmp = sol;
    M m1     = mesh;
    Plain<nx> xf{xl};
    Plain<nu> uf{ul};
    auto r = sf::qpsol_to_ocpsol(ocp, m1, tmp, tf, xf, uf);
    tmp.primal.setConstant(7);
    m1 = M(1);
    xf.d.a.setConstant(7), uf.d.a.setConstant(7);
    return r;
  }();
  if (!std::is_convertible_v<decltype(os), typename Ocp::Solution>) s.fail("solution-type", "qpsol_to_ocpsol does not return a solution of this problem");
  s.require(os.t0 == 0 && os.tf == tf, "times", "times of the solution");
  for (int k = 0; k < 4; ++k) {
    const double tau = k < 2 ? L.tau(s.range(0, N)) : s.unif(0, 1), t = tf * tau;
    const VectorXd tt = VectorXd::Constant(1, t);
    const VectorXd wx = xl.value(tt) + l01::interpolate(mesh, Xs, tau), wu = ul.value(tt) + l01::interpolate(mesh, Us, tau);
    s.require((os.x(t) - wx).norm() <= 1e-8 * (1 + Xs.norm() * 10 + xl.size() * 10), "x", [&] { return eng::cat("x(", t, ") is ", os.x(t).transpose(), " instead of ", wx.transpose()); });
    s.require((os.u(t) - wu).norm() <= 1e-8 * (1 + Us.norm() * 10 + ul.size() * 10), "u", [&] { return eng::cat("u(", t, ") is ", os.u(t).transpose(), " instead of ", wu.transpose()); });
  }
}

/// a curve on a group: exp(a + b t + c sin(w t)), its velocity numerically
template<typename G>
struct Curve
{
  G g0;
  smooth::Tangent<G> b, c;
  double w;
  G operator()(double t) const { return smooth::rplus(smooth::rplus(g0, smooth::Tangent<G>(b * t)), smooth::Tangent<G>(c * std::sin(w * t))); }
  smooth::Tangent<G> velocity(double t) const
  {
    const double h = 1e-4;
    const auto d = [&](double e) { return smooth::Tangent<G>(smooth::rminus((*this)(t + e), (*this)(t - e)) / (2 * e)); };
    return (4 * d(h) - d(2 * h)) / 3;
  }
};

template<typename G, int nu, int ncr, typename M>
void group(eng::Src & s, const M & mesh)
{
  constexpr int nx = smooth::Dof<G>, nz = 1 + nx + nu;
  using U = Eigen::Vector<double, nu>;
  using T = smooth::Tangent<G>;
  const m02::Layout L(mesh);
  const Index N = L.N, n = nx * (N + 1) + nu * N;
  const double tf = s.unif(0.2, 2);
  const Curve<G> xl{lg::element<G>(s, 0.6), lg::tangent<G>(s, 0.7), lg::tangent<G>(s, 0.4), s.unif(0.5, 3)};
  const Data ul = data(s, nu, 1, 2), df = data(s, nx, nz, 2), dc = data(s, ncr, nz, 2);
  const Plain<nu> ulf{ul};
  const MatrixXd Qh = lg::matrix(s, nx, nx, 1.), Rh = lg::matrix(s, nu, nu, 1.), Eh = lg::matrix(s, nx, nx, 1.);
  const MatrixXd Q = Qh * Qh.transpose(), R = Rh * Rh.transpose(), E = Eh * Eh.transpose();
  const G x0 = lg::element<G>(s, 0.6);
  const double weight = s.pick({1., 0.5, 3.});
  // cost with vanishing residual on the reference, dynamics and constraints in a chart around another point
  const G base = lg::element<G>(s, 0.3);
  const auto theta = [xl, E, tf, weight](double, const G &, const G & xf, const Eigen::Vector<double, 1> & q) -> double {
    const T r = smooth::rminus(xf, xl(tf));
    return weight * q(0) + 0.5 * r.dot(E * r);
  };
  const auto f  = [df, base](double t, const G & x, const U & u) -> T { return df.value(pack(t, smooth::rminus(x, base), u)); };
  const auto g  = [xl, ulf, Q, R](double t, const G & x, const U & u) -> Eigen::Vector<double, 1> {
    const T r = smooth::rminus(x, xl(t));
    const U e = u - ulf(t);
    return Eigen::Vector<double, 1>{0.5 * r.dot(Q * r) + 0.5 * e.dot(R * e)};
  };
  const auto cr = [dc, base](double t, const G & x, const U & u) -> Eigen::Vector<double, ncr> { return dc.value(pack(t, smooth::rminus(x, base), u)); };
  const auto ce = [x0](double, const G & x, const G &, const Eigen::Vector<double, 1> &) -> T { return smooth::rminus(x, x0); };
  sf::OCP<G, U, decltype(theta), decltype(f), decltype(g), decltype(cr), decltype(ce)> ocp{.theta = theta, .f = f, .g = g, .cr = cr, .crl = lg::matrix<ncr>(s, 2.), .cru = lg::matrix<ncr>(s, 2.), .ce = ce, .cel = lg::matrix<nx>(s, 1.), .ceu = lg::matrix<nx>(s, 1.)};
  s.note("group", lg::gname<G>()).note("N", N).note("tf", tf);
  s.cls(eng::cat("states on ", lg::gname<G>()));
  if (mesh.N_ivals() > 1) s.nontrivial();
  const Qp qp = sf::ocp_to_qp<smooth::diff::Type::Numerical>(ocp, mesh, tf, xl, ulf);

  Model w;
  const Index m = nx * N + ncr * N + nx;
  w.P = MatrixXd::Zero(n, n), w.q = VectorXd::Zero(n), w.A = MatrixXd::Zero(m, n), w.l = w.u = VectorXd::Zero(m);
  const auto jac = [](auto && fun, Index k) {
    const double h = 1e-4;
    MatrixXd r;
    for (Index j = 0; j < k; ++j) {
      const auto at = [&](double e) -> VectorXd { return fun(VectorXd(VectorXd::Unit(k, j) * e)); };
      const VectorXd d = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
      if (j == 0) r.resize(d.size(), k);
      r.col(j) = d;
    }
    return r;
  };
  for (Index i = 0; i < N; ++i) {
    const double t = tf * L.tau(i);
    const G x      = xl(t);
    const U u      = ulf(t);
    const T dx     = xl.velocity(t);
    const Index xi = nx * i, ui = nx * (N + 1) + nu * i;
    w.P.block(xi, xi, nx, nx) += weight * tf * L.w(i) * Q;
    w.P.block(ui, ui, nu, nu) += weight * tf * L.w(i) * R;
    // velocity of the deviation e where x = xl exp(e)
    const auto vel = [&](const VectorXd & v) -> VectorXd {
      const T e = v.head(nx);
      return smooth::dr_expinv<G>(e) * f(t, smooth::rplus(x, e), U(u + v.tail(nu))) - smooth::dl_expinv<G>(e) * dx;
    };
    const MatrixXd J = jac(vel, nx + nu);
    w.A.block(xi, xi, nx, nx) += tf * J.leftCols(nx);
    w.A.block(xi, ui, nx, nu) += tf * J.rightCols(nu);
    for (Index k = 0; k <= N; ++k)
      for (Index r = 0; r < nx; ++r) w.A(xi + r, nx * k + r) -= L.D(k, i);
    w.l.segment(xi, nx) = w.u.segment(xi, nx) = -tf * vel(VectorXd::Zero(nx + nu));
    const MatrixXd C = jac([&](const VectorXd & v) -> VectorXd { return cr(t, smooth::rplus(x, T(v.head(nx))), U(u + v.tail(nu))); }, nx + nu);
    const Index ci   = nx * N + ncr * i;
    w.A.block(ci, xi, ncr, nx) = C.leftCols(nx);
    w.A.block(ci, ui, ncr, nu) = C.rightCols(nu);
    w.l.segment(ci, ncr) = ocp.crl - cr(t, x, u), w.u.segment(ci, ncr) = ocp.cru - cr(t, x, u);
  }
  w.P.block(nx * N, nx * N, nx, nx) += E;
  w.A.block((nx + ncr) * N, 0, nx, nx) = jac([&](const VectorXd & v) -> VectorXd { return smooth::rminus(smooth::rplus(xl(0), T(v)), x0); }, nx);
  w.l.tail(nx) = ocp.cel - smooth::rminus(xl(0), x0), w.u.tail(nx) = ocp.ceu - smooth::rminus(xl(0), x0);
  w.scale = 10 * (1 + df.size() + dc.size()) * (1 + df.size() + dc.size()) * (1 + ul.size()) * (1 + Q.norm() + R.norm() + E.norm());
  compare(s, qp, w, 1e-7, "on a group");

  sf::QPSolution<-1, -1, double> sol;
  sol.primal = lg::matrix(s, n, 1, 1.);
  const auto os = sf::qpsol_to_ocpsol(ocp, mesh, sol, tf, xl, ulf);
  const MatrixXd Xs = sol.primal.head(nx * (N + 1)).reshaped(nx, N + 1), Us = sol.primal.tail(nu * N).reshaped(nu, N);
  for (int k = 0; k < 3; ++k) {
    const double tau = k < 2 ? L.tau(s.range(0, N)) : s.unif(0, 1), t = tf * tau;
    const G wx = smooth::rplus(xl(t), T(l01::interpolate(mesh, Xs, tau)));
    const U wu = ulf(t) + l01::interpolate(mesh, Us, tau);
    s.require(smooth::rminus(os.x(t), wx).norm() <= 1e-8 * (1 + Xs.norm() * 10), "x", [&] { return eng::cat("x(", t, ") differs by ", smooth::rminus(os.x(t), wx).norm()); });
    s.require((os.u(t) - wu).norm() <= 1e-8 * (1 + Us.norm() * 10 + ul.size()), "u", [&] { return eng::cat("u(", t, ") is ", os.u(t).transpose(), " instead of ", wu.transpose()); });
  }
}
}  // namespace l02
