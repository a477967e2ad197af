// Random sparse matrices with explicit zeros, both storage orders, compressed or not.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>

#include "engine.hpp"

namespace spg {
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::MatrixXi;
using Eigen::VectorXd;

/// dense values plus the pattern of stored entries
struct Model
{
  MatrixXd v;
  MatrixXi p;  // 1: stored
  Index rows() const { return v.rows(); }
  Index cols() const { return v.cols(); }
};

inline double value(eng::Src & s)
{
  switch (s.weighted({3, 1, 3})) {
  case 0: return static_cast<double>(s.small(3));
  case 1: return 0;
  default: return s.real(4);
  }
}

inline Model model(eng::Src & s, Index r, Index c)
{
  Model m{MatrixXd::Zero(r, c), MatrixXi::Zero(r, c)};
  const unsigned fill = static_cast<unsigned>(s.range(0, 4));
  for (Index i = 0; i < r; ++i)
    for (Index j = 0; j < c; ++j)
      if (s.chance(fill, 4)) {
        m.p(i, j) = 1;
        m.v(i, j) = value(s);
      }
  return m;
}

/// free: slack left in uncompressed storage (0: compressed)
template<typename SM>
SM build(const Model & m, int free)
{
  using Sc = typename SM::Scalar;
  SM S(m.rows(), m.cols());
  if (free && S.outerSize() > 0) S.reserve(Eigen::VectorXi::Constant(S.outerSize(), free));
  for (Index i = 0; i < m.rows(); ++i)
    for (Index j = 0; j < m.cols(); ++j)
      if (m.p(i, j)) S.insert(i, j) = static_cast<Sc>(m.v(i, j));
  if (!free) S.makeCompressed();
  return S;
}

/// stored entries of any matrix expression
template<typename SM>
Model read(const SM & S)
{
  Model m{MatrixXd::Zero(S.rows(), S.cols()), MatrixXi::Zero(S.rows(), S.cols())};
  for (Index o = 0; o < S.outerSize(); ++o)
    for (typename SM::InnerIterator it(S, o); it; ++it) {
      m.p(it.row(), it.col()) += 1;
      m.v(it.row(), it.col()) = static_cast<double>(it.value());
    }
  return m;
}

template<typename M>
std::string show(const M & m)
{
  static const Eigen::IOFormat f(17, Eigen::DontAlignCols, ", ", ", ", "[", "]", "[", "]");
  std::ostringstream ss;
  ss << m.format(f);
  return ss.str();
}

inline std::string show(const Model & m)
{
  std::ostringstream ss;
  ss << m.rows() << "x" << m.cols() << "{";
  for (Index i = 0; i < m.rows(); ++i)
    for (Index j = 0; j < m.cols(); ++j)
      if (m.p(i, j)) ss << "(" << i << "," << j << ")=" << m.v(i, j) << " ";
  ss << "}";
  return ss.str();
}

inline bool near(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-12 * (1e-3 + scale); }

}  // namespace spg
