// Random smooth vector functions of (t, x, u) with exact derivatives, in the forms the library accepts.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "engine.hpp"

namespace fg {
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

/// f_j(z) = a_j + b_j'z + z'Q_j z / 2 + c_j sin(w_j'z + d_j)
struct Data
{
  Index nf, nz;
  VectorXd a, c, d;
  MatrixXd B, W;
  std::vector<MatrixXd> Q;
  VectorXd value(const VectorXd & z) const
  {
    VectorXd r = a + B * z;
    for (Index j = 0; j < nf; ++j) r(j) += 0.5 * z.dot(Q[std::size_t(j)] * z) + c(j) * std::sin(W.row(j).dot(z) + d(j));
    return r;
  }
  MatrixXd jac(const VectorXd & z) const
  {
    MatrixXd r = B;
    for (Index j = 0; j < nf; ++j) r.row(j) += (Q[std::size_t(j)] * z).transpose() + c(j) * std::cos(W.row(j).dot(z) + d(j)) * W.row(j);
    return r;
  }
  MatrixXd hess(const VectorXd & z, Index j) const
  {
    return Q[std::size_t(j)] - c(j) * std::sin(W.row(j).dot(z) + d(j)) * W.row(j).transpose() * W.row(j);
  }
  double size() const
  {
    double r = a.norm() + B.norm() + c.norm();
    for (const auto & q : Q) r += q.norm();
    return r;
  }
};

/// every coefficient is zero with some probability; kind 0: affine, 1: quadratic, 2: all terms
inline Data data(eng::Src & s, Index nf, Index nz, int kind)
{
  Data f;
  f.nf = nf, f.nz = nz;
  f.a = f.c = f.d = VectorXd::Zero(nf);
  f.B = f.W = MatrixXd::Zero(nf, nz);
  const auto coef = [&](double scale) { return s.weighted({2, 1}) == 0 ? s.real(scale) : 0.; };
  for (Index j = 0; j < nf; ++j) {
    f.a(j) = coef(1);
    for (Index k = 0; k < nz; ++k) f.B(j, k) = coef(1);
    MatrixXd q = MatrixXd::Zero(nz, nz);
    if (kind >= 1)
      for (Index k = 0; k < nz; ++k)
        for (Index l = 0; l <= k; ++l) q(k, l) = q(l, k) = coef(1);
    f.Q.push_back(q);
    if (kind >= 2) {
      f.c(j) = coef(1), f.d(j) = coef(1);
      for (Index k = 0; k < nz; ++k) f.W(j, k) = coef(0.7);
    }
  }
  return f;
}

/// all arguments (scalars and vectors) in one vector
template<typename... A>
VectorXd pack(const A &... as)
{
  const auto size = [](const auto & a) -> Index {
    if constexpr (std::is_arithmetic_v<std::decay_t<decltype(a)>>)
      return 1;
    else
      return a.size();
  };
  VectorXd z((size(as) + ...));
  Index at       = 0;
  const auto put = [&](const auto & a) {
    if constexpr (std::is_arithmetic_v<std::decay_t<decltype(a)>>)
      z(at) = a;
    else
      z.segment(at, a.size()) = a;
    at += size(a);
  };
  (put(as), ...);
  return z;
}
inline MatrixXd stack_hess(const Data & d, const VectorXd & z)
{
  MatrixXd h(d.nz, d.nz * d.nf);
  for (Index j = 0; j < d.nf; ++j) h.middleCols(d.nz * j, d.nz) = d.hess(z, j);
  return h;
}

/// no derivatives; nf == 0 stands for a scalar function
template<int nf>
struct Plain
{
  Data d;
  template<typename... A>
  auto operator()(const A &... as) const
  {
    const VectorXd v = d.value(pack(as...));
    if constexpr (nf == 0)
      return double(v(0));
    else
      return Eigen::Vector<double, nf>(v);
  }
};

/// dense derivatives
template<int nf, int nz>
struct Dense : Plain<nf>
{
  template<typename... A>
  Eigen::Matrix<double, nf == 0 ? 1 : nf, nz, (nf <= 1 && nz > 1) ? Eigen::RowMajor : Eigen::ColMajor> jacobian(const A &... as) const
  {
    return this->d.jac(pack(as...));
  }
  template<typename... A>
  MatrixXd hessian(const A &... as) const
  {
    return stack_hess(this->d, pack(as...));
  }
};

/// sparse derivatives, returned by reference to storage that is reused
template<int nf, int nz>
struct Sparse : Plain<nf>
{
  bool compress = true;
  Eigen::SparseMatrix<double> j_{}, h_{};
  static void assign(Eigen::SparseMatrix<double> & out, const MatrixXd & m, bool compress)
  {
    if (out.rows() != m.rows() || out.cols() != m.cols()) out.resize(m.rows(), m.cols());
    out.setZero();
    out.uncompress();
    for (Index c = 0; c < m.cols(); ++c)
      for (Index r = 0; r < m.rows(); ++r)
        if (m(r, c) != 0) out.insert(r, c) = m(r, c);
    if (compress) out.makeCompressed();
  }
  template<typename... A>
  const Eigen::SparseMatrix<double> & jacobian(const A &... as)
  {
    assign(j_, this->d.jac(pack(as...)), compress);
    return j_;
  }
  template<typename... A>
  const Eigen::SparseMatrix<double> & hessian(const A &... as)
  {
    assign(h_, stack_hess(this->d, pack(as...)), compress);
    return h_;
  }
};

}  // namespace fg
