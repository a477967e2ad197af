#pragma once
#include "M02.hpp"
#include "liegen.hpp"

#include <smooth/feedback/ocp_flatten.hpp>

namespace l03 {
using namespace fg;
namespace sf = smooth::feedback;
using smooth::Dof, smooth::Tangent;

/// charts of the arguments around given points, and the first and second derivatives of the chart maps
template<typename G>
VectorXd chart(const G & base, const G & g)
{
  return smooth::rminus(g, base);
}
template<typename G>
MatrixXd dchart(const G & base, const G & g)
{
  if constexpr (lg::is_flat<G>)
    return MatrixXd::Identity(Dof<G>, Dof<G>);
  else
    return smooth::dr_expinv<G>(smooth::rminus(g, base));
}
template<typename G>
MatrixXd d2chart(const G & base, const G & g)
{
  constexpr int n = Dof<G>;
  if constexpr (lg::is_flat<G>)
    return MatrixXd::Zero(n, n * n);
  else
    return smooth::d2r_expinv<G>(smooth::rminus(g, base));
}

/// a function of (t, group elements...) with sparse derivatives; nf == 0 stands for a scalar function
template<int nf, typename... Gs>
struct Charted
{
  static constexpr int nz = 1 + (Dof<Gs> + ...);
  Data d;
  std::tuple<Gs...> base;
  bool compress = true;
  Eigen::SparseMatrix<double> j_{}, h_{};

  VectorXd point(double t, const Gs &... gs) const
  {
    return std::apply([&](const auto &... bs) { return pack(t, chart(bs, gs)...); }, base);
  }
  MatrixXd chartjac(const Gs &... gs) const
  {
    MatrixXd E = MatrixXd::Zero(nz, nz);
    E(0, 0)    = 1;
    Index at   = 1;
    std::apply(
      [&](const auto &... bs) {
        ((E.block(at, at, Dof<Gs>, Dof<Gs>) = dchart(bs, gs), at += Dof<Gs>), ...);
      },
      base);
    return E;
  }
  template<typename T>
  auto operator()(T t, const Gs &... gs) const
  {
    const VectorXd v = d.value(point(t, gs...));
    if constexpr (nf == 0)
      return double(v(0));
    else
      return Eigen::Vector<double, nf>(v);
  }
  const Eigen::SparseMatrix<double> & jacobian(double t, const Gs &... gs)
  {
    Sparse<nf, nz>::assign(j_, d.jac(point(t, gs...)) * chartjac(gs...), compress);
    return j_;
  }
  const Eigen::SparseMatrix<double> & hessian(double t, const Gs &... gs)
  {
    const VectorXd z = point(t, gs...);
    const MatrixXd E = chartjac(gs...), J = d.jac(z);
    MatrixXd H(nz, nz * d.nf);
    for (Index j = 0; j < d.nf; ++j) {
      MatrixXd h = E.transpose() * d.hess(z, j) * E;
      Index at   = 1;
      std::apply(
        [&](const auto &... bs) {
          const auto add = [&]<typename G>(const G & b, const G & g) {
            constexpr int n  = Dof<G>;
            const MatrixXd c = d2chart(b, g);
            for (Index k = 0; k < n; ++k) h.block(at, at, n, n) += J(j, at + k) * c.middleCols(n * k, n) * dchart(b, g);
            at += n;
          };
          (add(bs, gs), ...);
        },
        base);
      H.middleCols(nz * j, nz) = h;
    }
    Sparse<nf, nz>::assign(h_, H, compress);
    return h_;
  }
};

/// a curve t -> g0 exp(b (t - t0)) exp(c sin(w (t - t0))); has constant velocity if c is zero
template<typename G, bool Analytic>
struct Curve
{
  double t0;
  G g0;
  Tangent<G> b, c;
  double w;
  G operator()(double t) const
  {
    return smooth::rplus(smooth::rplus(g0, Tangent<G>(b * (t - t0))), Tangent<G>(c * std::sin(w * (t - t0))));
  }
  Tangent<G> velocity(double t) const
  {
    const double s    = t - t0;
    const Tangent<G> e = c * std::sin(w * s);
    Tangent<G> r      = c * w * std::cos(w * s);
    if constexpr (lg::is_flat<G>)
      r += b;
    else
      r += smooth::Ad<G>(smooth::exp<G>(Tangent<G>(-e))) * b;
    return r;
  }
  Tangent<G> jacobian(double t) const requires(Analytic) { return velocity(t); }
  /// the curve of constant velocity that touches this one at t
  Curve<G, true> touching(double t) const { return {t, (*this)(t), velocity(t), Tangent<G>::Zero(), 1}; }
};

template<typename F>
MatrixXd fd(const F & f, const VectorXd & z, double h)
{
  MatrixXd r;
  for (Index k = 0; k < z.size(); ++k) {
    const auto at = [&](double m) -> VectorXd { return f(VectorXd(z + VectorXd::Unit(z.size(), k) * (m * h))); };
    const VectorXd d = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
    if (k == 0) r.resize(d.size(), z.size());
    r.col(k) = d;
  }
  return r;
}
inline VectorXd flat_vec(const VectorXd & v) { return v; }
inline VectorXd flat_vec(double v) { return VectorXd::Constant(1, v); }

template<typename X, typename U, int nq, int ncr, int nce, bool Analytic>
struct Case
{
  static constexpr int nx = Dof<X>, nu = Dof<U>, nz = 1 + nx + nu, ne = 1 + 2 * nx + nq;
  using Q  = Eigen::Vector<double, nq>;
  using Fi = Charted<nx, X, U>;
  using Xl = Curve<X, Analytic>;
  using Ul = Curve<U, Analytic>;
  using XlO = Curve<X, true>;
  using UlO = Curve<U, true>;
  using Ocp = sf::OCP<X, U, Charted<0, X, X, Q>, Charted<nx, X, U>, Charted<nq, X, U>, Charted<ncr, X, U>, Charted<nce, X, X, Q>>;

  eng::Src & s;
  X xb0, xbf;
  U ub;
  Ocp ocp;
  Xl xl;
  Ul ul;
  double size = 1;

  template<int nf>
  auto inner(int kind)
  {
    Data d = data(s, std::max(nf, 1), nz, kind);
    size += d.size();
    return Charted<nf, X, U>{d, {xb0, ub}, s.coin()};
  }
  template<int nf>
  auto endpt(int kind)
  {
    Data d = data(s, std::max(nf, 1), ne, kind);
    size += d.size();
    return Charted<nf, X, X, Q>{d, {xb0, xbf, Q::Zero()}, s.coin()};
  }
  int kind() { return int(s.weighted({1, 2, 3})); }

  explicit Case(eng::Src & src)
      : s(src), xb0(lg::element<X>(s, 0.4)), xbf(lg::element<X>(s, 0.4)), ub(lg::element<U>(s, 0.4)),
        ocp{.theta = endpt<0>(kind()), .f = inner<nx>(kind()), .g = inner<nq>(kind()), .cr = inner<ncr>(kind()), .crl = lg::matrix<ncr>(s, 2.), .cru = lg::matrix<ncr>(s, 2.), .ce = endpt<nce>(kind()), .cel = lg::matrix<nce>(s, 2.), .ceu = lg::matrix<nce>(s, 2.)},
        xl(curve<X, Xl>()), ul(curve<U, Ul>())
  {}
  template<typename G, typename C>
  C curve()
  {
    C c{0, lg::element<G>(s, 0.4), lg::tangent<G>(s, 0.4), lg::tangent<G>(s, 0.3), s.unif(0.5, 2)};
    if (s.coin()) c.c.setZero(), s.cls("reference of constant velocity");
    if (s.chance(1, 8)) c.b.setZero();
    return c;
  }

  /// derivatives of a flattened function at z against those of the value at the touching curves
  template<typename Flat, typename FlatO, typename Ref>
  void derivatives(const char * name, Flat & flat, FlatO & osc, const Ref & ref, const VectorXd & z, const auto & call)
  {
    const auto jac = [&](auto & fun, const VectorXd & v) -> MatrixXd {
      return call(v, [&](const auto &... a) { return MatrixXd(Eigen::SparseMatrix<double>(fun.jacobian(a...))); });
    };
    const auto hess = [&](auto & fun, const VectorXd & v) -> MatrixXd {
      return call(v, [&](const auto &... a) { return MatrixXd(Eigen::SparseMatrix<double>(fun.hessian(a...))); });
    };
    // the library differentiates references without derivatives numerically
    const double tol = (Analytic ? 1e-7 : 1e-5) * size * size;
    const Index n    = z.size();
    MatrixXd J, H;
    const auto first = [&] { J = jac(flat, z); };
    const auto second = [&] { H = hess(flat, z); };
    const bool both = s.coin();
    if (s.coin()) first(), second(); else second(), first();
    if (both) first(), second();
    const MatrixXd Jw = fd(ref, z, 1e-3);
    Index a = 0, b = 0;
    s.require(J.rows() == Jw.rows() && J.cols() == n && H.rows() == n && H.cols() == n * J.rows(), "size", [&] { return eng::cat("sizes of the derivatives of ", name); });
    s.require(J.allFinite() && (J - Jw).cwiseAbs().maxCoeff(&a, &b) <= tol, eng::cat("jacobian-", name), [&] { return eng::cat("jacobian of flattened ", name, " at (", a, ",", b, ") is ", J(a, b), " instead of ", Jw(a, b)); });
    const MatrixXd Jo = jac(osc, z);
    s.require((Jo - Jw).cwiseAbs().maxCoeff() <= tol, eng::cat("jacobian-", name), [&] { return eng::cat("jacobian of ", name, " flattened around a curve of constant velocity"); });
    // column-wise derivative of the jacobian (rows stacked)
    const MatrixXd Hw = fd([&](const VectorXd & v) -> VectorXd { const MatrixXd m = jac(osc, v); return m.transpose().reshaped(); }, z, 1e-3);
    for (Index r = 0; r < J.rows(); ++r) {
      const MatrixXd h = H.middleCols(n * r, n), w = Hw.middleRows(n * r, n);
      s.require(h.allFinite() && (h - w).cwiseAbs().maxCoeff(&a, &b) <= 10 * tol, eng::cat("hessian-", name), [&] { return eng::cat("hessian of component ", r, " of flattened ", name, " at (", a, ",", b, ") is ", h(a, b), " instead of ", w(a, b)); });
    }
  }

  bool near(const VectorXd & z, double r) const { return z.norm() <= r; }

  void run()
  {
    s.note("X", lg::gname<X>()).note("U", lg::gname<U>()).note("analytic", Analytic);
    auto flat = sf::flatten_ocp(std::as_const(ocp), xl, ul);
    using FlatOcp = decltype(flat);
    static_assert(std::is_same_v<typename FlatOcp::X, Tangent<X>> && std::is_same_v<typename FlatOcp::U, Tangent<U>>);
    static_assert(FlatOcp::Nq == nq && FlatOcp::Ncr == ncr && FlatOcp::Nce == nce);
    s.require(flat.crl == ocp.crl && flat.cru == ocp.cru && flat.cel == ocp.cel && flat.ceu == ocp.ceu, "bounds", "bounds of the flattened problem");
    int done = 0;
    for (int64_t k = s.range(1, 3); k-- > 0;) {
      const double t = s.real(0.5);
      const double r = s.pick({1., 0.3, 0.});
      const auto tang = [&](Index n) { VectorXd e(n); for (auto & x : e) x = s.real(0.6) * r; return e; };
      const VectorXd z = pack(t, tang(nx), tang(nu));
      const VectorXd y = pack(t, tang(nx), tang(nx), VectorXd(lg::matrix(s, nq, 1, 1.)));
      XlO xo = xl.touching(t);
      UlO uo = ul.touching(t);
      const X x = smooth::rplus(xl(t), Tangent<X>(z.segment(1, nx)));
      const U u = smooth::rplus(ul(t), Tangent<U>(z.tail(nu)));
      const X x0 = smooth::rplus(xl(0), Tangent<X>(y.segment(1, nx))), xf = smooth::rplus(xl(t), Tangent<X>(y.segment(1 + nx, nx)));
      // away from the cut loci of the charts of the original functions
      if (chart(xb0, x).norm() > 2.2 || chart(ub, u).norm() > 2.2 || chart(xb0, x0).norm() > 2.2 || chart(xbf, xf).norm() > 2.2) continue;
      ++done;
      if (z.segment(1, nx).norm() > 0.1 && xo.b.norm() > 0.01) s.nontrivial();
      const auto ic = [](const VectorXd & v, const auto & f) { return f(double(v(0)), Tangent<X>(v.segment(1, nx)), Tangent<U>(v.tail(nu))); };
      const auto ec = [](const VectorXd & v, const auto & f) { return f(double(v(0)), Tangent<X>(v.segment(1, nx)), Tangent<X>(v.segment(1 + nx, nx)), Q(v.tail(nq))); };
      // values
      const auto inner_ref = [&](const auto & fun, const auto & xc, const auto & uc) {
        return [&](const VectorXd & v) -> VectorXd { return flat_vec(fun(double(v(0)), smooth::rplus(xc(v(0)), Tangent<X>(v.segment(1, nx))), smooth::rplus(uc(v(0)), Tangent<U>(v.tail(nu))))); };
      };
      const auto end_ref = [&](const auto & fun, const auto & xc, const X & at0) {
        return [&, at0](const VectorXd & v) -> VectorXd { return flat_vec(fun(double(v(0)), smooth::rplus(at0, Tangent<X>(v.segment(1, nx))), smooth::rplus(xc(v(0)), Tangent<X>(v.segment(1 + nx, nx))), Q(v.tail(nq)))); };
      };
      const auto value = [&](const char * name, const VectorXd & got, const VectorXd & want, double tol) {
        s.require(got.size() == want.size() && (got - want).norm() <= tol * size, eng::cat("value-", name), [&] { return eng::cat("flattened ", name, " is ", got.transpose(), " instead of ", want.transpose()); });
      };
      const auto val = [&](auto & fun, const auto & call, const VectorXd & v) -> VectorXd { return call(v, [&](const auto &... a) { return flat_vec(fun(a...)); }); };
      value("g", val(flat.g, ic, z), inner_ref(ocp.g, xl, ul)(z), 1e-11);
      value("cr", val(flat.cr, ic, z), inner_ref(ocp.cr, xl, ul)(z), 1e-11);
      value("theta", val(flat.theta, ec, y), end_ref(ocp.theta, xl, xl(0))(y), 1e-11);
      value("ce", val(flat.ce, ec, y), end_ref(ocp.ce, xl, xl(0))(y), 1e-11);
      // the chart velocity of a state that moves along the vector field, by definition
      const auto velocity = [&](const VectorXd & v) -> VectorXd {
        const double tt   = v(0);
        const Tangent<X> e = v.segment(1, nx);
        const X xx        = smooth::rplus(xo(tt), e);
        const Tangent<X> f = ocp.f(tt, xx, smooth::rplus(uo(tt), Tangent<U>(v.tail(nu))));
        const double h = 2e-3 / (1 + f.norm() + xo.b.norm());
        const auto at  = [&](double m) -> VectorXd { return smooth::rminus(smooth::rplus(xx, Tangent<X>(f * (m * h))), xo(tt + m * h)); };
        return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
      };
      value("f", val(flat.f, ic, z), velocity(z), 1e-7);
      // derivatives
      auto fo = sf::flatten_ocp(std::as_const(ocp), xo, uo);
      // for the dynamics a formula for the velocity is exact enough to be differentiated again
      const auto dyn = [&](const VectorXd & v) -> VectorXd {
        const double tt   = v(0);
        const Tangent<X> e = v.segment(1, nx), f = ocp.f(tt, smooth::rplus(xo(tt), e), smooth::rplus(uo(tt), Tangent<U>(v.tail(nu))));
        if constexpr (lg::is_flat<X>)
          return f - xo.b;
        else
          return smooth::dr_expinv<X>(e) * f - smooth::dl_expinv<X>(e) * xo.b;
      };
      derivatives("f", flat.f, fo.f, dyn, z, ic);
      derivatives("g", flat.g, fo.g, inner_ref(ocp.g, xo, uo), z, ic);
      derivatives("cr", flat.cr, fo.cr, inner_ref(ocp.cr, xo, uo), z, ic);
      // the start of the touching curve is another one: keep that of the reference through the original functions
      {
        struct EndCurve
        {
          Xl xl;
          XlO xo;
          X operator()(double tt) const { return tt == 0. ? xl(0) : xo(tt); }
          Tangent<X> jacobian(double tt) const { return xo.jacobian(tt); }
        };
        if (std::abs(t) > 0.01) {
          EndCurve cv{xl, xo};
          auto fe = sf::flatten_ocp(std::as_const(ocp), cv, uo);
          derivatives("theta", flat.theta, fe.theta, end_ref(ocp.theta, xo, xl(0)), y, ec);
          derivatives("ce", flat.ce, fe.ce, end_ref(ocp.ce, xo, xl(0)), y, ec);
        }
      }
    }
    if (!done) s.discard("outside of the charts");

    // trajectories of a solution of the flattened problem
    typename FlatOcp::Solution fs;
    fs.t0 = 0, fs.tf = s.unif(0.5, 2);
    fs.Q = lg::matrix<nq>(s, 1.), fs.lambda_q = lg::matrix<nq>(s, 1.), fs.lambda_ce = lg::matrix<nce>(s, 1.);
    const Data dx = data(s, nx, 1, 2), du = data(s, nu, 1, 2), dd = data(s, nx, 1, 1), dc = data(s, ncr, 1, 1);
    const auto at = [](const Data & d, double t) -> VectorXd { return d.value(VectorXd::Constant(1, t)); };
    fs.x = [=](double t) -> Tangent<X> { return 0.3 * at(dx, t); };
    fs.u = [=](double t) -> Tangent<U> { return 0.3 * at(du, t); };
    fs.lambda_dyn = [=](double t) -> Eigen::Vector<double, nx> { return at(dd, t); };
    fs.lambda_cr  = [=](double t) -> Eigen::Vector<double, ncr> { return at(dc, t); };
    auto cx = xl;
    auto cu = ul;
    typename Ocp::Solution os = sf::unflatten_ocpsol<X, U>(fs, cx, cu);
    cx.g0 = smooth::rplus(cx.g0, Tangent<X>(Tangent<X>::Ones())), cu.g0 = smooth::rplus(cu.g0, Tangent<U>(Tangent<U>::Ones()));
    s.require(os.t0 == fs.t0 && os.tf == fs.tf && os.Q == fs.Q && os.lambda_q == fs.lambda_q && os.lambda_ce == fs.lambda_ce, "unflatten-values", "times, integrals or multipliers of the unflattened solution");
    for (int k = 0; k < 3; ++k) {
      const double t = s.unif(0, 2);
      s.require(smooth::rminus(os.x(t), smooth::rplus(xl(t), fs.x(t))).norm() <= 1e-12 * (1 + dx.size()), "unflatten-x", "states of the unflattened solution");
      s.require(smooth::rminus(os.u(t), smooth::rplus(ul(t), fs.u(t))).norm() <= 1e-12 * (1 + du.size()), "unflatten-u", "inputs of the unflattened solution");
      s.require(os.lambda_dyn(t) == fs.lambda_dyn(t) && os.lambda_cr(t) == fs.lambda_cr(t), "unflatten-multipliers", "multipliers of the unflattened solution");
    }
  }
};

template<typename X, typename U, int nq, int ncr, int nce>
void check(eng::Src & s)
{
  if (s.chance(1, 4))
    Case<X, U, nq, ncr, nce, false>(s).run();
  else
    Case<X, U, nq, ncr, nce, true>(s).run();
}
}  // namespace l03
