#pragma once
#include <cassert>
#include <numeric>
#include <utility>

#include <smooth/feedback/collocation/mesh_function.hpp>

#include "fungen.hpp"
#include "liegen.hpp"

namespace m02 {
using namespace fg;
namespace sf = smooth::feedback;
using smooth::diff::Type;

template<std::size_t Kmin, std::size_t Kmax>
sf::Mesh<Kmin, Kmax> mesh(eng::Src & s, std::size_t most)
{
  sf::Mesh<Kmin, Kmax> m(static_cast<std::size_t>(s.range(1, 3)), static_cast<std::size_t>(s.range(Kmin, std::min(Kmin + 2, Kmax + 1))));
  for (int64_t k = s.range(0, 2); k-- > 0 && m.N_colloc() < most;) {
    const auto i = static_cast<std::size_t>(s.range(0, int64_t(m.N_ivals()) - 1));
    if (s.coin())
      m.refine_ph(i, Kmax + 1);
    else
      m.set_N_colloc_ival(i, static_cast<std::size_t>(s.range(Kmin, Kmax + 1)));
  }
  return m;
}

/// t_i = t0 + (tf - t0) tau_i, quadrature weights, differentiation matrices, laid out densely
struct Layout
{
  Index N;
  VectorXd tau, w;
  MatrixXd D;  // (N+1) x N
  template<typename M>
  explicit Layout(const M & m) : N(Index(m.N_colloc())), tau(N + 1), w(N), D(MatrixXd::Zero(N + 1, N))
  {
    Index i0 = 0;
    for (std::size_t i = 0; i < m.N_ivals(); ++i) {
      const Index K = Index(m.N_colloc_ival(i));
      Index k       = 0;
      for (const double t : m.interval_nodes(i)) tau(i0 + k++) = t;
      k = 0;
      for (const double v : m.interval_weights(i))
        if (k < K) w(i0 + k++) = v;
      D.block(i0, i0, K + 1, K) = m.interval_diffmat(i);
      i0 += K;
    }
  }
};

enum class Op { Eval, EvalScaled, Integrate, Dyn };

/// dense value, Jacobian and multiplier-weighted Hessian by definition
struct Ref
{
  VectorXd F;
  MatrixXd J, H;
};
inline Ref reference(Op op, const Layout & L, const Data & d, double t0, double tf, const MatrixXd & X, const MatrixXd & U, const VectorXd & lam)
{
  const Index nx = X.rows(), nu = U.rows(), nf = d.nf, nz = d.nz, N = L.N, nv = 2 + nx * (N + 1) + nu * N;
  const Index nout = op == Op::Integrate ? nf : nf * N;
  Ref r{VectorXd::Zero(nout), MatrixXd::Zero(nout, nv), MatrixXd::Zero(nv, nv)};
  VectorXd e = VectorXd::Zero(nv);
  e(0) = -1, e(1) = 1;
  for (Index i = 0; i < N; ++i) {
    // z_i = M v
    MatrixXd M = MatrixXd::Zero(nz, nv);
    M(0, 0) = 1 - L.tau(i), M(0, 1) = L.tau(i);
    for (Index k = 0; k < nx; ++k) M(1 + k, 2 + nx * i + k) = 1;
    for (Index k = 0; k < nu; ++k) M(1 + nx + k, 2 + nx * (N + 1) + nu * i + k) = 1;
    VectorXd z(nz);
    z << (1 - L.tau(i)) * t0 + L.tau(i) * tf, X.col(i), U.col(i);
    const VectorXd f = d.value(z);
    const MatrixXd G = d.jac(z) * M;
    const bool scaled = op == Op::Integrate || op == Op::Dyn;
    const double w = op == Op::Eval ? 1 : L.w(i), T = scaled ? tf - t0 : 1;
    const Index row = op == Op::Integrate ? 0 : nf * i;
    r.F.segment(row, nf) += w * T * f;
    r.J.middleRows(row, nf) += w * T * G;
    if (scaled) r.J.middleRows(row, nf) += w * f * e.transpose();
    for (Index j = 0; j < nf; ++j) {
      MatrixXd h = T * M.transpose() * d.hess(z, j) * M;
      if (scaled) h += e * G.row(j) + G.row(j).transpose() * e.transpose();
      r.H += w * lam(row + j) * h;
    }
    if (op == Op::Dyn)
      for (Index k = 0; k <= N; ++k) {
        r.F.segment(row, nf) -= w * L.D(k, i) * X.col(k);
        for (Index c = 0; c < nx; ++c) r.J(row + c, 2 + nx * k + c) -= w * L.D(k, i);
      }
  }
  return r;
}

template<uint8_t Deriv, Type DT, typename M, typename F, typename Xs, typename Us>
void call(Op op, sf::MeshValue<Deriv> & out, const M & m, F & f, double t0, double tf, Xs && xs, Us && us)
{
  switch (op) {
  case Op::Eval: return sf::mesh_eval<Deriv, DT>(out, m, f, t0, tf, xs, us);
  case Op::EvalScaled: return sf::mesh_eval<Deriv, DT>(out, m, f, t0, tf, xs, us, true);
  case Op::Integrate: return sf::mesh_integrate<Deriv, DT>(out, m, f, t0, tf, xs, us);
  case Op::Dyn: {
    using R = std::invoke_result_t<F &, double, smooth::PlainObject<std::ranges::range_value_t<Xs>>, smooth::PlainObject<std::ranges::range_value_t<Us>>>;
    if constexpr (int(smooth::Dof<R>) == int(smooth::Dof<smooth::PlainObject<std::ranges::range_value_t<Xs>>>)) return sf::mesh_dyn<Deriv, DT>(out, m, f, t0, tf, xs, us);
  }
  }
}

template<uint8_t Deriv>
void poke(eng::Src & s, sf::MeshValue<Deriv> & out)
{
  // whatever the user may have done with the buffers in between
  if constexpr (Deriv >= 1) {
    if (s.coin()) out.dF.makeCompressed();
    if (s.chance(1, 4))
      for (Index k = 0; k < out.dF.outerSize(); ++k)
        for (Eigen::SparseMatrix<double>::InnerIterator it(out.dF, k); it; ++it) it.valueRef() = 7;
  }
  if constexpr (Deriv >= 2) {
    if (s.coin()) out.d2F.makeCompressed();
  }
  if (s.chance(1, 4)) out.F.setConstant(3.);
}

template<int nf, int nx, int nu, typename M>
void run(eng::Src & s, const M & m)
{
  constexpr int nz = 1 + nx + nu;
  const Layout L(m);
  const Index N = L.N;
  const Op op   = nf == nx ? s.pick({Op::Eval, Op::EvalScaled, Op::Integrate, Op::Dyn, Op::Dyn}) : s.pick({Op::Eval, Op::EvalScaled, Op::Integrate});
  const char * names[] = {"mesh_eval", "mesh_eval (scaled)", "mesh_integrate", "mesh_dyn"};
  const char * opn     = names[int(op)];
  const int how   = int(s.weighted({4, 4, 2, 1}));  // dense, sparse, numerical, default without derivatives
  const int order = how >= 2 ? int(s.weighted({1, 3, 2})) : int(s.weighted({1, 2, 5}));
  s.note("op", opn).note("nf,nx,nu", eng::cat(nf, ",", nx, ",", nu)).note("N", N).note("ivals", m.N_ivals()).note("derivatives", how).note("order", order);
  s.cls(opn);
  s.cls(eng::cat("order ", order, how == 0 ? ", dense" : how == 1 ? ", sparse" : ", numerical"));
  if (m.N_ivals() > 1) s.nontrivial();

  sf::MeshValue<0> o0;
  sf::MeshValue<1> o1;
  sf::MeshValue<2> o2;
  const auto uses = s.range(1, 3);
  if (uses > 1) s.cls("buffers reused");
  for (int use = 0; use < uses; ++use) {
    const Data d   = data(s, nf, nz, int(s.weighted({1, 2, 3})));
    const double t0 = s.real(2), tf = t0 + s.pick({1., 0.25, 3.}) * s.unif(0.2, 1) * (s.chance(1, 8) ? -1 : 1);
    const Eigen::Matrix<double, nx, -1> X = lg::matrix(s, nx, N + 1, 1.5);
    const Eigen::Matrix<double, nu, -1> U = lg::matrix(s, nu, N, 1.5);
    const VectorXd lam = lg::matrix(s, op == Op::Integrate ? nf : nf * N, 1, 2.);
    const Ref r        = reference(op, L, d, t0, tf, X, U, lam);
    const bool vecs    = s.coin();
    if (vecs) s.cls("points as vectors");
    std::vector<Eigen::Vector<double, nx>> xv;
    std::vector<Eigen::Vector<double, nu>> uv;
    if (vecs) {
      for (Index i = 0; i <= N; ++i) xv.push_back(X.col(i));
      for (Index i = 0; i < N; ++i) uv.push_back(U.col(i));
    }
    const auto go = [&]<uint8_t Deriv>(sf::MeshValue<Deriv> & out) {
      if (use > 0) poke(s, out);
      if constexpr (Deriv == 2) out.lambda = lam;
      const auto with = [&]<Type DT>(auto & f) {
        if (vecs)
          call<Deriv, DT>(op, out, m, f, t0, tf, xv, uv);
        else
          call<Deriv, DT>(op, out, m, f, t0, tf, X.colwise(), U.colwise());
      };
      if (how == 0) {
        Dense<nf, nz> f{{d}};
        if (s.coin())
          with.template operator()<Type::Analytic>(f);
        else
          with.template operator()<Type::Default>(f);
      } else if (how == 1) {
        Sparse<nf, nz> f{{d}, s.coin()};
        with.template operator()<Type::Analytic>(f);
      } else {
        Plain<nf> f{d};
        if (how == 2)
          with.template operator()<Type::Numerical>(f);
        else
          with.template operator()<Type::Default>(f);
      }
      const double sc = 10 * (1 + d.size()) * (1 + r.J.cwiseAbs().maxCoeff());
      s.require(out.F.size() == r.F.size(), "value-size", [&] { return eng::cat(opn, ": ", out.F.size(), " values instead of ", r.F.size()); });
      s.require((out.F - r.F).norm() <= 1e-11 * sc, "value", [&] { return eng::cat(opn, " (use ", use, "): value is off by ", (out.F - r.F).transpose()); });
      if constexpr (Deriv >= 1) {
        const MatrixXd J = out.dF;
        s.require(J.rows() == r.J.rows() && J.cols() == r.J.cols(), "jacobian-size", "size of the first derivative");
        Index a, b;
        const double e = (J - r.J).cwiseAbs().maxCoeff(&a, &b);
        s.require(e <= (how < 2 ? 1e-11 : 1e-7) * sc, "jacobian", [&] { return eng::cat(opn, " (use ", use, "): first derivative (", a, ",", b, ") is ", J(a, b), " instead of ", r.J(a, b)); });
      }
      if constexpr (Deriv >= 2) {
        s.require(out.d2F.rows() == r.H.rows() && out.d2F.cols() == r.H.cols(), "hessian-size", "size of the second derivative");
        const MatrixXd H = MatrixXd(out.d2F).selfadjointView<Eigen::Upper>();
        Index a, b;
        const double e = (H - r.H).cwiseAbs().maxCoeff(&a, &b);
        s.require(e <= (how < 2 ? 1e-10 : 1e-4) * sc * (1 + lam.norm()), "hessian", [&] { return eng::cat(opn, " (use ", use, "): second derivative (", a, ",", b, ") is ", H(a, b), " instead of ", r.H(a, b)); });
        s.require((out.lambda.array() == lam.array()).all(), "lambda", "multipliers were changed");
      }
    };
    if (order == 0)
      go(o0);
    else if (order == 1)
      go(o1);
    else
      go(o2);
  }
}

/// states on a Lie group: values and first derivatives against the definition and difference quotients
template<typename G, int nu, typename M>
void run_group(eng::Src & s, const M & m)
{
  constexpr int nx = smooth::Dof<G>, nz = 1 + nx + nu, nf = 2;
  const Layout L(m);
  const Index N = L.N;
  const Op op   = s.pick({Op::Eval, Op::EvalScaled, Op::Integrate});
  const Data d   = data(s, nf, nz, 2);
  const double t0 = s.real(2), tf = t0 + s.unif(0.2, 2);
  std::vector<G> xs;
  for (Index i = 0; i <= N; ++i) xs.push_back(lg::element<G>(s, 0.7));
  std::vector<Eigen::Vector<double, nu>> us;
  for (Index i = 0; i < N; ++i) us.push_back(lg::matrix<nu>(s, 1.));
  const auto f = [&d](double t, const G & x, const Eigen::Vector<double, nu> & u) -> Eigen::Vector2d { return d.value(pack(t, smooth::log(x), u)); };
  const char * names[] = {"mesh_eval", "mesh_eval (scaled)", "mesh_integrate", "mesh_dyn"};
  s.note("op", names[int(op)]).note("group", lg::gname<G>()).note("N", N);
  s.cls(eng::cat("states on ", lg::gname<G>()));
  s.nontrivial();
  sf::MeshValue<1> out;
  call<1, Type::Numerical>(op, out, m, f, t0, tf, xs, us);
  const Index nout = op == Op::Integrate ? nf : nf * N, nv = 2 + nx * (N + 1) + nu * N;
  s.require(out.F.size() == nout && out.dF.rows() == nout && out.dF.cols() == nv, "group-size", "sizes");
  VectorXd F = VectorXd::Zero(nout);
  MatrixXd J = MatrixXd::Zero(nout, nv);
  for (Index i = 0; i < N; ++i) {
    const double tau = L.tau(i), t = t0 + (tf - t0) * tau, w = op == Op::Eval ? 1 : L.w(i), T = op == Op::Integrate ? tf - t0 : 1;
    const G & x     = xs[std::size_t(i)];
    const auto & u  = us[std::size_t(i)];
    const Index row = op == Op::Integrate ? 0 : nf * i;
    const VectorXd v = f(t, x, u);
    F.segment(row, nf) += w * T * v;
    const double h = 1e-5;
    MatrixXd D(nf, nz);
    for (Index k = 0; k < nz; ++k) {
      const auto at = [&](double e) -> VectorXd {
        if (k == 0) return f(t + e, x, u);
        if (k <= nx) return f(t, smooth::rplus(x, smooth::Tangent<G>(e * smooth::Tangent<G>::Unit(k - 1))), u);
        return f(t, x, Eigen::Vector<double, nu>(u + e * Eigen::Vector<double, nu>::Unit(k - 1 - nx)));
      };
      D.col(k) = (at(h) - at(-h)) / (2 * h);
    }
    J.block(row, 0, nf, 1) += w * T * (1 - tau) * D.col(0);
    J.block(row, 1, nf, 1) += w * T * tau * D.col(0);
    if (op == Op::Integrate) J.block(row, 0, nf, 1) -= w * v, J.block(row, 1, nf, 1) += w * v;
    J.block(row, 2 + nx * i, nf, nx) += w * T * D.middleCols(1, nx);
    J.block(row, 2 + nx * (N + 1) + nu * i, nf, nu) += w * T * D.rightCols(nu);
  }
  const double sc = 1 + d.size();
  s.require((out.F - F).norm() <= 1e-11 * sc * double(N), "group-value", [&] { return eng::cat("value on the group is off by ", (out.F - F).norm()); });
  s.require((MatrixXd(out.dF) - J).cwiseAbs().maxCoeff() <= 1e-5 * sc * sc, "group-jacobian", [&] { return eng::cat("first derivative on the group is off by ", (MatrixXd(out.dF) - J).cwiseAbs().maxCoeff()); });
}
}  // namespace m02
