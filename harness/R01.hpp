#pragma once
#include "L03.hpp"

#include <smooth/feedback/mpc.hpp>

namespace r01 {
using namespace fg;
using l03::Curve, l03::chart;
namespace sf = smooth::feedback;
using smooth::Dof, smooth::Tangent;
template<int n>
using Vec = Eigen::Vector<double, n>;

template<typename T>
T time_of(double s)
{
  return std::chrono::duration_cast<T>(std::chrono::duration<double>(s));
}
template<typename T>
double sec(T t)
{
  return std::chrono::duration<double>(t).count();
}

/// function of (time, x, u) that gets the time through set_time if Timed
template<typename T, typename X, int nu, int nf, bool Timed, bool Derivatives>
struct Fun
{
  Data d;
  X base;
  double t = 0;
  void set_time(T tt) requires(Timed) { t = sec(tt); }
  VectorXd at(double tt, const X & x, const Vec<nu> & u) const { return d.value(pack(Timed ? tt : 0., chart(base, x), u)); }
  Vec<nf> operator()(const X & x, const Vec<nu> & u) const { return at(t, x, u); }
  Eigen::Matrix<double, nf, Dof<X> + nu, (nf == 1 && Dof<X> + nu > 1) ? Eigen::RowMajor : Eigen::ColMajor> jacobian(const X & x, const Vec<nu> & u) const requires(Derivatives)
  {
    constexpr int nx = Dof<X>;
    const MatrixXd J = d.jac(pack(Timed ? t : 0., chart(base, x), u));
    Eigen::Matrix<double, nf, nx + nu> r;
    r.leftCols(nx)  = J.middleCols(1, nx) * l03::dchart(base, x);
    r.rightCols(nu) = J.rightCols(nu);
    return r;
  }
};

/// min d'Pd/2 + q'd, A d = b, G d <= h: dense primal-dual interior point method; empty if it does not converge
inline std::optional<VectorXd> reference_solution(const MatrixXd & P, const VectorXd & q, const MatrixXd & A, const VectorXd & b, const MatrixXd & G, const VectorXd & h)
{
  const Index n = q.size(), p = b.size(), m = h.size();
  VectorXd x = VectorXd::Zero(n), y = VectorXd::Zero(p), sl = VectorXd::Ones(m), z = VectorXd::Ones(m);
  const double scale = 1 + q.cwiseAbs().maxCoeff();
  for (int it = 0; it < 100; ++it) {
    const VectorXd rd = P * x + q + A.transpose() * y + G.transpose() * z, rp = A * x - b, ri = G * x + sl - h;
    const double mu   = m ? sl.dot(z) / double(m) : 0;
    if (rd.cwiseAbs().maxCoeff() <= 1e-9 * scale && (p == 0 || rp.cwiseAbs().maxCoeff() <= 1e-10 * (1 + b.cwiseAbs().maxCoeff())) && (m == 0 || ri.cwiseAbs().maxCoeff() <= 1e-10 * (1 + h.cwiseAbs().maxCoeff())) && mu <= 1e-12 * scale) return x;
    MatrixXd K = MatrixXd::Zero(n + p, n + p);
    K.topLeftCorner(n, n)     = P + G.transpose() * z.cwiseQuotient(sl).asDiagonal() * G;
    K.topRightCorner(n, p)    = A.transpose();
    K.bottomLeftCorner(p, n)  = A;
    const Eigen::PartialPivLU<MatrixXd> lu(K);
    const auto step = [&](const VectorXd & rc, VectorXd & dx, VectorXd & dy, VectorXd & ds, VectorXd & dz) {
      VectorXd r(n + p);
      r.head(n) = -rd - G.transpose() * ((z.cwiseProduct(ri) - rc).cwiseQuotient(sl));
      r.tail(p) = -rp;
      const VectorXd v = lu.solve(r);
      dx = v.head(n), dy = v.tail(p);
      ds = -ri - G * dx;
      dz = -(rc + z.cwiseProduct(ds)).cwiseQuotient(sl);
    };
    const auto reach = [&](const VectorXd & v, const VectorXd & dv) {
      double a = 1;
      for (Index i = 0; i < m; ++i)
        if (dv(i) < 0) a = std::min(a, -v(i) / dv(i));
      return a;
    };
    VectorXd dx, dy, ds, dz;
    step(sl.cwiseProduct(z), dx, dy, ds, dz);
    if (m) {
      const double a  = std::min(reach(sl, ds), reach(z, dz));
      const double ma = (sl + a * ds).dot(z + a * dz) / double(m), sig = std::pow(ma / mu, 3);
      step(sl.cwiseProduct(z) + ds.cwiseProduct(dz) - VectorXd::Constant(m, sig * mu), dx, dy, ds, dz);
    }
    const double a = m ? std::min(1., 0.99 * std::min(reach(sl, ds), reach(z, dz))) : 1;
    x += a * dx, y += a * dy, sl += a * ds, z += a * dz;
    if (!x.allFinite() || !z.allFinite()) return {};
  }
  return {};
}

template<typename T, typename X, int nu, int ncr, std::size_t Kmesh, bool TimedF, bool TimedC, bool Derivatives, smooth::diff::Type DT>
struct History
{
  static constexpr int nx = Dof<X>;
  using U   = Vec<nu>;
  using F   = Fun<T, X, nu, nx, TimedF, Derivatives>;
  using C   = Fun<T, X, nu, ncr, TimedC, Derivatives>;
  using Mpc = sf::MPC<T, X, U, F, C, Kmesh, DT>;

  struct Slot
  {
    Mpc mpc;
    sf::MPCWeights<X, U> w{};
    Curve<X, true> xd;
    Data ud;
    bool udes = false;
    double ushift = 0;
  };

  eng::Src & s;
  F f;
  C c;
  Vec<ncr> crl, cru;
  std::size_t K;
  double tf;
  bool affine;
  double size = 1;

  U udes(const Slot & a, double t) const { return a.udes ? U(a.ud.value(VectorXd::Constant(1, t - a.ushift))) : U(U::Zero()); }

  void call(Slot & a, double now)
  {
    const sf::Mesh<Kmesh, Kmesh> mesh((K + Kmesh - 1) / Kmesh);
    const m02::Layout L(mesh);
    const Index N = L.N, n = nx * (N + 1) + nu * N;
    const T t     = time_of<T>(now);
    now           = sec(t);
    const X x     = smooth::rplus(a.xd(now), lg::tangent<X>(s, 0.5));
    s.note("t", now);

    // the problem by definition: deviations from the references, linearized around them
    MatrixXd P = MatrixXd::Zero(n, n), E = MatrixXd::Zero(nx * (N + 1), n), I = MatrixXd::Zero(ncr * N, n);
    VectorXd b = VectorXd::Zero(nx * (N + 1)), lo(ncr * N), up(ncr * N);
    const auto jac = [&](const auto & fun, double h) { return l03::fd(fun, VectorXd::Zero(nx + nu), h); };
    for (Index i = 0; i < N; ++i) {
      const double tt = now + tf * L.tau(i);
      const X xi      = a.xd(tt);
      const U ui      = udes(a, tt);
      const Tangent<X> dx = a.xd.velocity(tt);
      const Index xb = nx * i, ub = nx * (N + 1) + nu * i;
      P.block(xb, xb, nx, nx) += tf * L.w(i) * a.w.Q;
      P.block(ub, ub, nu, nu) += tf * L.w(i) * a.w.R;
      const auto vel = [&](const VectorXd & v) -> VectorXd {
        const Tangent<X> e = v.head(nx);
        const VectorXd fv  = f.at(tt, smooth::rplus(xi, e), U(ui + v.tail(nu)));
        if constexpr (lg::is_flat<X>)
          return fv - dx;
        else
          return smooth::dr_expinv<X>(e) * fv - smooth::dl_expinv<X>(e) * dx;
      };
      const auto con = [&](const VectorXd & v) -> VectorXd { return c.at(tt, smooth::rplus(xi, Tangent<X>(v.head(nx))), U(ui + v.tail(nu))); };
      const MatrixXd Jv = jac(vel, 1e-3), Jc = jac(con, 1e-3);
      E.block(xb, xb, nx, nx) += tf * Jv.leftCols(nx);
      E.block(xb, ub, nx, nu) += tf * Jv.rightCols(nu);
      for (Index k = 0; k <= N; ++k)
        for (Index r = 0; r < nx; ++r) E(xb + r, nx * k + r) -= L.D(k, i);
      b.segment(xb, nx) = -tf * vel(VectorXd::Zero(nx + nu));
      I.block(ncr * i, xb, ncr, nx) = Jc.leftCols(nx), I.block(ncr * i, ub, ncr, nu) = Jc.rightCols(nu);
      const VectorXd c0 = con(VectorXd::Zero(nx + nu));
      lo.segment(ncr * i, ncr) = crl - c0, up.segment(ncr * i, ncr) = cru - c0;
    }
    P.block(nx * N, nx * N, nx, nx) += a.w.Qtf;
    E.block(nx * N, 0, nx, nx).setIdentity();
    b.tail(nx) = smooth::rminus(x, a.xd(now));
    MatrixXd G(2 * ncr * N, n);
    VectorXd h(2 * ncr * N);
    Index m = 0;
    for (Index i = 0; i < ncr * N; ++i) {
      if (std::isfinite(up(i))) G.row(m) = I.row(i), h(m++) = up(i);
      if (std::isfinite(lo(i))) G.row(m) = -I.row(i), h(m++) = -lo(i);
    }
    G.conservativeResize(m, n), h.conservativeResize(m);
    const auto ref = reference_solution(P, VectorXd::Zero(n), E, b, G, h);

    // the controller
    std::vector<U> us;
    std::vector<X> xs;
    const bool wu = s.chance(3, 4), wx = s.chance(3, 4);
    if (s.coin()) us.resize(std::size_t(s.range(0, 30))), xs.resize(std::size_t(s.range(0, 30)));
    const auto [u, code] = wu && wx ? a.mpc(t, x, us, xs) : wu ? a.mpc(t, x, us) : wx ? a.mpc(t, x, std::nullopt, xs) : a.mpc(t, x);
    s.note("code", int(code));
    if (wu) s.require(Index(us.size()) == N, "u-size", [&] { return eng::cat("input trajectory of ", us.size(), " points instead of ", N); });
    if (wx) s.require(Index(xs.size()) == N + 1, "x-size", [&] { return eng::cat("state trajectory of ", xs.size(), " points instead of ", N + 1); });
    if (wu) s.require((us[0] - u).norm() <= 1e-12 * (1 + u.norm()), "u-first", "the input is not the first of the input trajectory");
    VectorXd d = VectorXd::Zero(n);
    if (wu)
      for (Index i = 0; i < N; ++i) d.segment(nx * (N + 1) + nu * i, nu) = us[std::size_t(i)] - udes(a, now + tf * L.tau(i));
    if (wx)
      for (Index i = 0; i <= N; ++i) d.segment(nx * i, nx) = smooth::rminus(xs[std::size_t(i)], a.xd(now + tf * L.tau(i)));
    if (!ref) {
      s.cls("no reference solution");
      if (lg::is_flat<X> && code == sf::QPSolutionStatus::Optimal && wu && wx) {
        s.cls("optimal without reference solution");
        s.require((E * d - b).cwiseAbs().maxCoeff() <= 1e-3 * size, "feasible", "trajectory does not follow the dynamics");
        if (m) s.require((G * d - h).maxCoeff() <= 1e-3 * size, "feasible", "trajectory violates the running constraints");
      }
      return;
    }
    s.cls("reference solution");
    const bool active = m && ((G * *ref - h).maxCoeff() > -1e-6);
    if (active) s.cls("active running constraints"), s.nontrivial();
    if (code == sf::QPSolutionStatus::MaxIterations) {
      s.cls("iteration limit");
      return;
    }
    const bool unpolished = code == sf::QPSolutionStatus::PolishFailed;  // optimal up to the tolerances of the solver
    if (unpolished) s.cls("polish failed");
    s.require(unpolished || code == sf::QPSolutionStatus::Optimal, "status", [&] { return eng::cat("status ", int(code), " for a feasible problem"); });
    const double tol = (unpolished ? 1e-3 : 2e-4) * (1 + ref->cwiseAbs().maxCoeff());
    const VectorXd u0 = udes(a, now) + ref->segment(nx * (N + 1), nu);
    s.require((u - u0).norm() <= tol, "input", [&] { return eng::cat("input is ", u.transpose(), " instead of ", u0.transpose()); });
    Index k = 0;
    if (wu) s.require((d - *ref).tail(nu * N).cwiseAbs().maxCoeff(&k) <= tol, "u_traj", [&] { return eng::cat("input trajectory deviates by ", d(nx * (N + 1) + k), " instead of ", (*ref)(nx * (N + 1) + k)); });
    if (wx)
      for (Index i = 0; i <= N; ++i) {
        const X want = smooth::rplus(a.xd(now + tf * L.tau(i)), Tangent<X>(ref->segment(nx * i, nx)));
        s.require(smooth::rminus(xs[std::size_t(i)], want).norm() <= tol, "x_traj", [&] { return eng::cat("state ", i, " of the trajectory is ", smooth::rminus(xs[std::size_t(i)], want).transpose(), " away"); });
      }
  }

  template<int k>
  Eigen::Matrix<double, k, k> weight(bool zero)
  {
    Eigen::Matrix<double, k, k> r = Eigen::Matrix<double, k, k>::Zero();
    switch (s.weighted({2, 3, zero ? 1u : 0u})) {
    case 0:
      for (Index i = 0; i < k; ++i) r(i, i) = s.pick({1., 0.3, 3.});
      break;
    case 1: r = lg::spd<k>(s, 1, 0.3); break;
    default: break;
    }
    return r;
  }

  Curve<X, true> curve()
  {
    Curve<X, true> v{s.real(0.5), smooth::rplus(f.base, lg::tangent<X>(s, 0.3)), lg::tangent<X>(s, 0.25), lg::tangent<X>(s, 0.2), s.unif(0.5, 2)};
    if (s.coin()) v.c.setZero();
    if (s.chance(1, 4)) v.b.setZero();
    return v;
  }

  void set_x(Slot & a)
  {
    a.xd = curve();
    if (s.coin()) {
      s.cls("set_xdes");
      const std::function<X(T)> x = [v = a.xd](T t) -> X { return v(sec(t)); };
      const std::function<Tangent<X>(T)> dx = [v = a.xd](T t) -> Tangent<X> { return v.velocity(sec(t)); };
      if (s.coin())
        a.mpc.set_xdes(x, dx);
      else
        a.mpc.set_xdes(std::function<X(T)>(x), std::function<Tangent<X>(T)>(dx));
    } else {
      s.cls("set_xdes_rel");
      const T t0 = time_of<T>(s.real(2));
      auto rel   = a.xd;
      if (s.coin()) {
        a.xd.t0 += sec(t0);
        a.mpc.set_xdes_rel(rel, t0);
      } else {
        a.mpc.set_xdes_rel(rel);
      }
    }
  }
  void set_u(Slot & a)
  {
    a.udes   = true;
    a.ushift = 0;
    a.ud     = data(s, nu, 1, 1);
    const auto at = [d = a.ud](double t) -> U { return d.value(VectorXd::Constant(1, t)); };
    if (s.coin()) {
      s.cls("set_udes");
      const std::function<U(T)> u = [at](T t) -> U { return at(sec(t)); };
      if (s.coin())
        a.mpc.set_udes(u);
      else
        a.mpc.set_udes(std::function<U(T)>(u));
    } else {
      s.cls("set_udes_rel");
      const T t0 = time_of<T>(s.real(2));
      if (s.coin()) {
        a.ushift = sec(t0);
        a.mpc.set_udes_rel(at, t0);
      } else {
        a.mpc.set_udes_rel(at);
      }
    }
  }

  explicit History(eng::Src & src) : s(src)
  {
    s.note("X", lg::gname<X>());
    affine       = s.coin();
    const X base = smooth::exp<X>(lg::tangent<X>(s, 0.3));
    f            = F{data(s, nx, 1 + nx + nu, affine ? 0 : int(s.weighted({1, 2, 3}))), base};
    c            = C{data(s, ncr, 1 + nx + nu, affine ? 0 : int(s.weighted({1, 2, 3}))), base};
    if (s.chance(2, 3)) {
      // constraints of the input only
      c.d.B.leftCols(1 + nx).setZero(), c.d.W.leftCols(1 + nx).setZero();
      for (auto & q : c.d.Q) q.topRows(1 + nx).setZero(), q.leftCols(1 + nx).setZero();
    }
    const VectorXd c0 = c.at(0, base, U::Zero());
    for (Index i = 0; i < ncr; ++i) {
      crl(i) = s.chance(1, 5) ? -std::numeric_limits<double>::infinity() : c0(i) - s.unif(0.02, 1);
      cru(i) = s.chance(1, 5) ? std::numeric_limits<double>::infinity() : c0(i) + s.unif(0.02, 1);
    }
    K    = std::size_t(s.range(1, 9));
    tf   = s.unif(0.2, 1.2);
    size = 1 + f.d.size() + c.d.size();
    s.note("affine", affine).note("K", K).note("tf", tf);
  }

  void run()
  {
    sf::MPCParams prm{.K = K, .tf = tf, .warmstart = s.coin()};
    prm.qp.eps_abs = prm.qp.eps_rel = 1e-7f;
    prm.qp.eps_primal_inf = prm.qp.eps_dual_inf = 1e-6f;
    prm.qp.max_iter = 50000;
    const Curve<X, true> identity{0, smooth::Identity<X>(), Tangent<X>::Zero(), Tangent<X>::Zero(), 1};
    std::vector<Slot> slots;
    const auto fresh = [&] { return s.coin() ? Mpc(f, c, crl, cru, prm) : Mpc(F(f), C(c), Vec<ncr>(crl), Vec<ncr>(cru), sf::MPCParams(prm)); };
    slots.push_back(Slot{fresh(), {}, identity, data(s, nu, 1, 0)});
    double now = s.unif(0, 0.5);
    for (int64_t ops = s.range(1, 9); ops-- > 0;) {
      Slot & a = slots[std::size_t(s.range(0, int64_t(slots.size()) - 1))];
      switch (s.weighted({6, 2, 2, 2, 1, 2})) {
      case 0:
        s.note("op", "call"), call(a, now);
        now += s.pick({0., 0.05, 0.2});
        break;
      case 1:
        s.note("op", "weights"), s.cls("set_weights");
        a.w = {.Q = weight<nx>(true), .Qtf = weight<nx>(true), .R = weight<nu>(false)};
        a.mpc.set_weights(a.w);
        break;
      case 2: s.note("op", "xdes"), set_x(a); break;
      case 3: s.note("op", "udes"), set_u(a); break;
      case 4: s.note("op", "reset_warmstart"), s.cls("reset_warmstart"), a.mpc.reset_warmstart(); break;
      default:
        if (slots.size() < 3) {
          s.note("op", "copy"), s.cls("copied");
          if (s.coin()) {
            slots.push_back(Slot(a));
          } else {
            Slot o{fresh(), {}, identity, data(s, nu, 1, 0)};
            if (s.coin()) call(o, now);
            o = a;
            slots.push_back(o);
          }
        } else {
          s.note("op", "move"), s.cls("moved");
          Slot tmp(std::move(slots[0]));
          slots[0] = std::move(slots[1]);
          slots[1] = std::move(tmp);
        }
      }
    }
    for (auto & a : slots) s.note("op", "last call"), call(a, now);
  }
};
}  // namespace r01
