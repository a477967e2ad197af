// Random elements of the groups of the stand-in, and helpers shared by the checks that need them.
#pragma once

#include <smooth/bundle.hpp>
#include <smooth/se2.hpp>
#include <smooth/se3.hpp>
#include <smooth/so2.hpp>
#include <smooth/so3.hpp>

#include "engine.hpp"

namespace lg {

using namespace smooth;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

using V1  = Eigen::Vector<double, 1>;
using V2  = Eigen::Vector<double, 2>;
using V3  = Eigen::Vector<double, 3>;
using V4  = Eigen::Vector<double, 4>;
using BSV = Bundle<SO3<double>, V2>;
using BVS = Bundle<V1, SE2<double>>;

template<typename G>
inline constexpr bool is_flat = smooth::RnType<G>;

template<typename G>
const char * gname()
{
  if constexpr (is_flat<G>)
    return G::RowsAtCompileTime == 1 ? "R1" : G::RowsAtCompileTime == 2 ? "R2" : G::RowsAtCompileTime == 3 ? "R3" : "Rn";
  else if constexpr (std::is_same_v<G, SO2<double>>)
    return "SO2";
  else if constexpr (std::is_same_v<G, SO3<double>>)
    return "SO3";
  else if constexpr (std::is_same_v<G, SE2<double>>)
    return "SE2";
  else if constexpr (std::is_same_v<G, SE3<double>>)
    return "SE3";
  else
    return "bundle";
}

template<typename G>
Tangent<G> tangent(eng::Src & s, double sc)
{
  Tangent<G> a;
  for (Index i = 0; i < Dof<G>; ++i) a(i) = s.real(sc);
  return a;
}
template<int R, int C = 1>
Eigen::Matrix<double, R, C> matrix(eng::Src & s, double sc)
{
  Eigen::Matrix<double, R, C> a;
  for (Index i = 0; i < a.rows(); ++i)
    for (Index j = 0; j < a.cols(); ++j) a(i, j) = s.real(sc);
  return a;
}
inline MatrixXd matrix(eng::Src & s, Index r, Index c, double sc)
{
  MatrixXd a(r, c);
  for (Index i = 0; i < r; ++i)
    for (Index j = 0; j < c; ++j) a(i, j) = s.real(sc);
  return a;
}
/// group element with log of norm up to about sc
template<typename G>
G element(eng::Src & s, double sc = 1)
{
  return smooth::exp<G>(tangent<G>(s, sc));
}
/// symmetric positive definite matrix with eigenvalues of at least lo
template<int N>
Eigen::Matrix<double, N, N> spd(eng::Src & s, double sc, double lo)
{
  const Eigen::Matrix<double, N, N> L = matrix<N, N>(s, sc);
  Eigen::Matrix<double, N, N> r       = L * L.transpose();
  r.diagonal().array() += lo;
  return r;
}
template<typename D>
std::string show(const Eigen::MatrixBase<D> & m)
{
  std::ostringstream ss;
  ss.precision(9);
  for (Index i = 0; i < m.rows(); ++i) {
    ss << (i ? "; " : "[");
    for (Index j = 0; j < m.cols(); ++j) ss << (j ? " " : "") << m(i, j);
  }
  ss << "]";
  return ss.str();
}
template<typename G>
  requires(LieGroup<G>)
std::string show_g(const G & g)
{
  return show(smooth::log(g));
}

}  // namespace lg
