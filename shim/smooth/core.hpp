// Stand-in for the parts of the external library pettni/smooth that smooth_feedback uses.
// Written from the documented semantics (manifolds, Lie groups, right derivatives); scalar type double is what the
// checks use. Everything lives in this header; the other headers of this folder only forward to it.
#pragma once

#include <array>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <limits>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/Sparse>

namespace smooth {

// ------------------------------------------------------------------------------------------------ traits

namespace traits {
template<typename M>
struct man;

template<typename T, template<typename...> class Z>
struct is_specialization_of : std::false_type
{};
template<typename... Args, template<typename...> class Z>
struct is_specialization_of<Z<Args...>, Z> : std::true_type
{};
template<typename T, template<typename...> class Z>
static constexpr bool is_specialization_of_v = is_specialization_of<T, Z>::value;
}  // namespace traits

template<typename M>
concept Manifold = requires(const M & m)
{
  typename traits::man<M>::Scalar;
  typename traits::man<M>::PlainObject;
  {traits::man<M>::Dof}->std::convertible_to<Eigen::Index>;
};

template<typename M>
using Scalar = typename traits::man<std::remove_cvref_t<M>>::Scalar;
template<typename M>
using PlainObject = typename traits::man<std::remove_cvref_t<M>>::PlainObject;
template<typename M>
static constexpr Eigen::Index Dof = traits::man<std::remove_cvref_t<M>>::Dof;
template<typename M>
using Tangent = Eigen::Vector<Scalar<M>, Dof<M>>;
template<typename NS, typename M>
using CastT = typename traits::man<M>::template CastT<NS>;
template<typename G>
using TangentMap = Eigen::Matrix<Scalar<G>, Dof<G>, Dof<G>>;
template<typename G>
using Hessian = Eigen::Matrix<Scalar<G>, Dof<G>, (Dof<G> < 0 ? -1 : Dof<G> * Dof<G>)>;

template<typename G>
concept ScalarType = std::is_floating_point_v<G>;

template<typename G>
concept RnType = std::is_base_of_v<Eigen::MatrixBase<G>, G> && (G::ColsAtCompileTime == 1);

template<typename G>
concept LieGroup = Manifold<G> && requires { {traits::man<G>::is_lie}->std::convertible_to<bool>; requires traits::man<G>::is_lie; };

template<typename G>
inline constexpr bool IsCommutative = traits::man<std::remove_cvref_t<G>>::commutative;

// scalars
template<ScalarType S>
struct traits::man<S>
{
  using Scalar      = S;
  using PlainObject = S;
  template<typename NS>
  using CastT                         = NS;
  static constexpr Eigen::Index Dof   = 1;
  static constexpr bool is_lie        = true;
  static constexpr bool commutative   = true;
  using T                             = Eigen::Vector<S, 1>;
  using TM                            = Eigen::Matrix<S, 1, 1>;
  static S Default() { return S(0); }
  static S Identity() { return S(0); }
  static S Random() { return S(2.0 * std::rand() / RAND_MAX - 1); }
  static Eigen::Index dof(const S &) { return 1; }
  template<typename NS>
  static NS cast(const S & s)
  {
    return NS(s);
  }
  template<typename D>
  static S rplus(const S & s, const Eigen::MatrixBase<D> & a)
  {
    return s + a.x();
  }
  static T rminus(const S & a, const S & b) { return T(a - b); }
  static S composition(const S & a, const S & b) { return a + b; }
  static S inverse(const S & a) { return -a; }
  static T log(const S & a) { return T(a); }
  static S exp(const T & a) { return a.x(); }
  static TM Ad(const S &) { return TM::Identity(); }
  static TM ad(const T &) { return TM::Zero(); }
};

// Eigen vectors
template<RnType V>
struct traits::man<V>
{
  using Scalar                       = typename V::Scalar;
  using PlainObject                  = Eigen::Vector<Scalar, V::RowsAtCompileTime>;
  static constexpr Eigen::Index Dof  = V::RowsAtCompileTime;
  static constexpr bool is_lie       = true;
  static constexpr bool commutative  = true;
  template<typename NS>
  using CastT = Eigen::Matrix<NS, V::RowsAtCompileTime, 1>;
  using P     = PlainObject;
  using T     = Eigen::Vector<Scalar, Dof>;
  using TM    = Eigen::Matrix<Scalar, Dof, Dof>;
  static P Default() requires(Dof > 0) { return P::Zero(); }
  static P Identity() requires(Dof > 0) { return P::Zero(); }
  static P Random() requires(Dof > 0) { return P::Random(); }
  static Eigen::Index dof(const V & v) { return v.size(); }
  template<typename NS>
  static CastT<NS> cast(const V & v)
  {
    return v.template cast<NS>();
  }
  template<typename A, typename D>
  static P rplus(const A & v, const Eigen::MatrixBase<D> & a)
  {
    return v + a;
  }
  template<typename A, typename B>
  static T rminus(const A & a, const B & b)
  {
    return a - b;
  }
  static P composition(const P & a, const P & b) { return a + b; }
  static P inverse(const P & a) { return -a; }
  static T log(const P & a) { return a; }
  static P exp(const T & a) { return a; }
  static TM Ad(const P & v) { return TM::Identity(v.size(), v.size()); }
  static TM ad(const T & v) { return TM::Zero(v.size(), v.size()); }
};

// ------------------------------------------------------------------------------------------------ free functions

template<Manifold M>
inline PlainObject<M> Default()
{
  return traits::man<M>::Default();
}
template<Manifold M>
inline Eigen::Index dof(const M & m)
{
  return traits::man<M>::dof(m);
}
template<typename NS, Manifold M>
inline CastT<NS, M> cast(const M & m)
{
  return traits::man<M>::template cast<NS>(m);
}
template<Manifold M, typename D>
inline PlainObject<M> rplus(const M & m, const Eigen::MatrixBase<D> & a)
{
  return traits::man<M>::rplus(m, a);
}
template<Manifold M, Manifold N>
inline Tangent<M> rminus(const M & m1, const N & m2)
{
  return traits::man<M>::rminus(m1, m2);
}
template<LieGroup G>
inline PlainObject<G> Identity()
{
  return traits::man<G>::Identity();
}
template<LieGroup G>
inline PlainObject<G> Random()
{
  return traits::man<G>::Random();
}
template<LieGroup G>
inline PlainObject<G> composition(const G & a, const G & b)
{
  return traits::man<G>::composition(a, b);
}
template<LieGroup G, typename... Gs>
inline PlainObject<G> composition(const G & a, const G & b, const Gs &... gs)
{
  return composition(traits::man<G>::composition(a, b), gs...);
}
template<LieGroup G>
inline PlainObject<G> inverse(const G & a)
{
  return traits::man<G>::inverse(a);
}
template<LieGroup G>
inline Tangent<G> log(const G & a)
{
  return traits::man<G>::log(a);
}
template<LieGroup G, typename D>
inline PlainObject<G> exp(const Eigen::MatrixBase<D> & a)
{
  return traits::man<G>::exp(a);
}
template<LieGroup G>
inline TangentMap<G> Ad(const G & a)
{
  return traits::man<G>::Ad(a);
}
template<LieGroup G, typename D>
inline TangentMap<G> ad(const Eigen::MatrixBase<D> & a)
{
  return traits::man<G>::ad(a);
}
template<LieGroup G>
inline bool isApprox(const G & a, const G & b, double eps = 1e-8)
{
  return rminus(a, b).norm() <= eps;
}

/// sum_k (-1)^k ad_a^k / (k+1)!
template<LieGroup G, typename D>
inline TangentMap<G> dr_exp(const Eigen::MatrixBase<D> & a)
{
  const Tangent<G> av = a;
  TangentMap<G> ret   = TangentMap<G>::Identity(av.size(), av.size());
  if constexpr (!IsCommutative<G>) {
    const TangentMap<G> A = ad<G>(av);
    TangentMap<G> term    = ret;
    for (int k = 1; k < 200; ++k) {
      term = -(A * term) / (k + 1);
      ret += term;
      if (!(term.cwiseAbs().maxCoeff() > 1e-18)) { break; }
    }
  }
  return ret;
}
template<LieGroup G, typename D>
inline TangentMap<G> dl_exp(const Eigen::MatrixBase<D> & a)
{
  return dr_exp<G>(-a);
}
template<LieGroup G, typename D>
inline TangentMap<G> dr_expinv(const Eigen::MatrixBase<D> & a)
{
  if constexpr (IsCommutative<G>) {
    return dr_exp<G>(a);
  } else {
    return dr_exp<G>(a).inverse();
  }
}
template<LieGroup G, typename D>
inline TangentMap<G> dl_expinv(const Eigen::MatrixBase<D> & a)
{
  return dr_expinv<G>(-a);
}

namespace detail {
/// d dr_exp(a) / d a_b for b = 0..n-1
template<LieGroup G>
inline std::array<TangentMap<G>, std::size_t(Dof<G>)> dr_exp_partials(const Tangent<G> & a)
{
  std::array<TangentMap<G>, std::size_t(Dof<G>)> ret;
  const TangentMap<G> A = ad<G>(a);
  for (Eigen::Index b = 0; b < Dof<G>; ++b) {
    const TangentMap<G> E = ad<G>(Tangent<G>(Tangent<G>::Unit(b)));
    TangentMap<G> S = TangentMap<G>::Identity(), dS = TangentMap<G>::Zero(), sum = TangentMap<G>::Zero();
    for (int k = 1; k < 200; ++k) {
      dS = (-(E * S + A * dS) / (k + 1)).eval();
      S  = (-(A * S) / (k + 1)).eval();
      sum += dS;
      if (!(dS.cwiseAbs().maxCoeff() > 1e-18) && k > 3) { break; }
    }
    ret[std::size_t(b)] = sum;
  }
  return ret;
}
}  // namespace detail

/// H_j(a, b) = d dr_exp(j, a) / d b, horizontally stacked
template<LieGroup G, typename D>
inline Hessian<G> d2r_exp(const Eigen::MatrixBase<D> & a)
{
  Hessian<G> H = Hessian<G>::Zero();
  if constexpr (!IsCommutative<G>) {
    const auto P = detail::dr_exp_partials<G>(a);
    for (Eigen::Index b = 0; b < Dof<G>; ++b)
      for (Eigen::Index j = 0; j < Dof<G>; ++j)
        for (Eigen::Index i = 0; i < Dof<G>; ++i) H(i, j * Dof<G> + b) = P[std::size_t(b)](j, i);
  }
  return H;
}
template<LieGroup G, typename D>
inline Hessian<G> d2r_expinv(const Eigen::MatrixBase<D> & a)
{
  Hessian<G> H = Hessian<G>::Zero();
  if constexpr (!IsCommutative<G>) {
    const auto P          = detail::dr_exp_partials<G>(a);
    const TangentMap<G> I = dr_expinv<G>(a);
    for (Eigen::Index b = 0; b < Dof<G>; ++b) {
      const TangentMap<G> d = -I * P[std::size_t(b)] * I;
      for (Eigen::Index j = 0; j < Dof<G>; ++j)
        for (Eigen::Index i = 0; i < Dof<G>; ++i) H(i, j * Dof<G> + b) = d(j, i);
    }
  }
  return H;
}

// ------------------------------------------------------------------------------------------------ groups

template<typename Derived, typename S, int N>
class LieBase
{
public:
  using Scalar                     = S;
  using Tangent                    = Eigen::Vector<S, N>;
  using TangentMap                 = Eigen::Matrix<S, N, N>;
  static constexpr Eigen::Index Dof = N;

  const Derived & self() const { return static_cast<const Derived &>(*this); }
  Derived & self() { return static_cast<Derived &>(*this); }

  static Derived Identity() { return Derived{}; }
  static Derived Random()
  {
    Tangent a;
    for (int i = 0; i < N; ++i) { a(i) = S(4.0 * std::rand() / RAND_MAX - 2); }
    return Derived::exp(a);
  }
  void setIdentity() { self() = Derived{}; }
  void setRandom() { self() = Random(); }
  Derived operator*(const Derived & o) const { return self().compose(o); }
  Derived & operator*=(const Derived & o) { return self() = self().compose(o); }
  template<typename D>
  friend Derived operator+(const Derived & g, const Eigen::MatrixBase<D> & a)
  {
    return g.compose(Derived::exp(a));
  }
  template<typename D>
  Derived & operator+=(const Eigen::MatrixBase<D> & a)
  {
    return self() = self().compose(Derived::exp(a));
  }
  friend Tangent operator-(const Derived & g, const Derived & h) { return h.inverse().compose(g).log(); }
  bool isApprox(const Derived & o, double eps = 1e-8) const { return (self() - o).norm() <= eps; }
  static TangentMap dr_exp(const Tangent & a) { return smooth::dr_exp<Derived>(a); }
  static TangentMap dr_expinv(const Tangent & a) { return smooth::dr_expinv<Derived>(a); }
  static Eigen::Matrix<S, N, N * N> d2r_exp(const Tangent & a) { return smooth::d2r_exp<Derived>(a); }
  static Eigen::Matrix<S, N, N * N> d2r_expinv(const Tangent & a) { return smooth::d2r_expinv<Derived>(a); }
};

namespace detail {
template<typename S>
inline Eigen::Matrix<S, 3, 3> hat3(const Eigen::Vector<S, 3> & v)
{
  Eigen::Matrix<S, 3, 3> m;
  m << S(0), -v.z(), v.y(), v.z(), S(0), -v.x(), -v.y(), v.x(), S(0);
  return m;
}
}  // namespace detail

template<typename S>
class SO2 : public LieBase<SO2<S>, S, 1>
{
  S c_{1}, s_{0};

public:
  using B = LieBase<SO2<S>, S, 1>;
  template<typename NS>
  using Other                         = SO2<NS>;
  static constexpr bool commutative   = true;
  SO2()                               = default;
  explicit SO2(S angle) : c_(std::cos(angle)), s_(std::sin(angle)) {}
  S angle() const { return std::atan2(s_, c_); }
  Eigen::Matrix<S, 2, 2> matrix() const
  {
    Eigen::Matrix<S, 2, 2> m;
    m << c_, -s_, s_, c_;
    return m;
  }
  using B::operator*;
  Eigen::Vector<S, 2> operator*(const Eigen::Vector<S, 2> & v) const { return matrix() * v; }
  SO2 compose(const SO2 & o) const
  {
    SO2 r;
    r.c_      = c_ * o.c_ - s_ * o.s_;
    r.s_      = s_ * o.c_ + c_ * o.s_;
    const S n = std::hypot(r.c_, r.s_);
    r.c_ /= n;
    r.s_ /= n;
    return r;
  }
  SO2 inverse() const
  {
    SO2 r;
    r.c_ = c_;
    r.s_ = -s_;
    return r;
  }
  Eigen::Vector<S, 1> log() const { return Eigen::Vector<S, 1>(angle()); }
  template<typename D>
  static SO2 exp(const Eigen::MatrixBase<D> & a)
  {
    return SO2(a.eval().x());
  }
  Eigen::Matrix<S, 1, 1> Ad() const { return Eigen::Matrix<S, 1, 1>::Identity(); }
  static Eigen::Matrix<S, 1, 1> ad(const Eigen::Vector<S, 1> &) { return Eigen::Matrix<S, 1, 1>::Zero(); }
};

template<typename S>
class SE2 : public LieBase<SE2<S>, S, 3>
{
  Eigen::Vector<S, 2> p_ = Eigen::Vector<S, 2>::Zero();
  SO2<S> r_;

public:
  using B = LieBase<SE2<S>, S, 3>;
  template<typename NS>
  using Other                       = SE2<NS>;
  static constexpr bool commutative = false;
  SE2()                             = default;
  SE2(const SO2<S> & r, const Eigen::Vector<S, 2> & p) : p_(p), r_(r) {}
  const Eigen::Vector<S, 2> & r2() const { return p_; }
  Eigen::Vector<S, 2> & r2() { return p_; }
  const SO2<S> & so2() const { return r_; }
  SO2<S> & so2() { return r_; }
  using B::operator*;
  Eigen::Vector<S, 2> operator*(const Eigen::Vector<S, 2> & v) const { return r_ * v + p_; }
  SE2 compose(const SE2 & o) const { return SE2(r_.compose(o.r_), r_ * o.p_ + p_); }
  SE2 inverse() const
  {
    const SO2<S> ri = r_.inverse();
    return SE2(ri, -(ri * p_));
  }
  static Eigen::Matrix<S, 2, 2> V(S w)
  {
    S A, C;  // sin w / w, (1 - cos w) / w
    if (std::abs(w) < S(1e-4)) {
      A = 1 - w * w / 6 + w * w * w * w / 120;
      C = w / 2 - w * w * w / 24;
    } else {
      A = std::sin(w) / w;
      C = (1 - std::cos(w)) / w;
    }
    Eigen::Matrix<S, 2, 2> m;
    m << A, -C, C, A;
    return m;
  }
  Eigen::Vector<S, 3> log() const
  {
    const S w = r_.angle();
    Eigen::Vector<S, 3> ret;
    ret << V(w).inverse() * p_, w;
    return ret;
  }
  template<typename D>
  static SE2 exp(const Eigen::MatrixBase<D> & a_)
  {
    const Eigen::Vector<S, 3> a = a_;
    return SE2(SO2<S>(a(2)), V(a(2)) * a.template head<2>());
  }
  Eigen::Matrix<S, 3, 3> Ad() const
  {
    Eigen::Matrix<S, 3, 3> m    = Eigen::Matrix<S, 3, 3>::Identity();
    m.template topLeftCorner<2, 2>() = r_.matrix();
    m(0, 2)                     = p_.y();
    m(1, 2)                     = -p_.x();
    return m;
  }
  static Eigen::Matrix<S, 3, 3> ad(const Eigen::Vector<S, 3> & a)
  {
    Eigen::Matrix<S, 3, 3> m;
    m << S(0), -a(2), a(1), a(2), S(0), -a(0), S(0), S(0), S(0);
    return m;
  }
};

template<typename S>
class SO3 : public LieBase<SO3<S>, S, 3>
{
  Eigen::Quaternion<S> q_ = Eigen::Quaternion<S>::Identity();

public:
  using B = LieBase<SO3<S>, S, 3>;
  template<typename NS>
  using Other                       = SO3<NS>;
  static constexpr bool commutative = false;
  SO3()                             = default;
  explicit SO3(const Eigen::Quaternion<S> & q) : q_(q.normalized()) {}
  const Eigen::Quaternion<S> & quat() const { return q_; }
  Eigen::Matrix<S, 3, 3> matrix() const { return q_.toRotationMatrix(); }
  using B::operator*;
  Eigen::Vector<S, 3> operator*(const Eigen::Vector<S, 3> & v) const { return matrix() * v; }
  SO3 compose(const SO3 & o) const { return SO3(q_ * o.q_); }
  SO3 inverse() const { return SO3(q_.conjugate()); }
  Eigen::Vector<S, 3> log() const
  {
    Eigen::Quaternion<S> q = q_;
    if (q.w() < 0) { q.coeffs() = -q.coeffs(); }
    const S n = q.vec().norm();
    const S f = n < S(1e-9) ? S(2) / q.w() : 2 * std::atan2(n, q.w()) / n;
    return f * q.vec();
  }
  template<typename D>
  static SO3 exp(const Eigen::MatrixBase<D> & a_)
  {
    const Eigen::Vector<S, 3> a = a_;
    const S th                  = a.norm();
    const S f                   = th < S(1e-6) ? S(0.5) - th * th / 48 : std::sin(th / 2) / th;
    return SO3(Eigen::Quaternion<S>(std::cos(th / 2), f * a.x(), f * a.y(), f * a.z()));
  }
  Eigen::Matrix<S, 3, 3> Ad() const { return matrix(); }
  static Eigen::Matrix<S, 3, 3> ad(const Eigen::Vector<S, 3> & a) { return detail::hat3<S>(a); }
};

template<typename S>
class SE3 : public LieBase<SE3<S>, S, 6>
{
  Eigen::Vector<S, 3> p_ = Eigen::Vector<S, 3>::Zero();
  SO3<S> r_;

public:
  using B = LieBase<SE3<S>, S, 6>;
  template<typename NS>
  using Other                       = SE3<NS>;
  static constexpr bool commutative = false;
  SE3()                             = default;
  SE3(const SO3<S> & r, const Eigen::Vector<S, 3> & p) : p_(p), r_(r) {}
  const Eigen::Vector<S, 3> & r3() const { return p_; }
  const SO3<S> & so3() const { return r_; }
  using B::operator*;
  Eigen::Vector<S, 3> operator*(const Eigen::Vector<S, 3> & v) const { return r_ * v + p_; }
  SE3 compose(const SE3 & o) const { return SE3(r_.compose(o.r_), r_ * o.p_ + p_); }
  SE3 inverse() const
  {
    const SO3<S> ri = r_.inverse();
    return SE3(ri, -(ri * p_));
  }
  Eigen::Vector<S, 6> log() const
  {
    const Eigen::Vector<S, 3> w = r_.log();
    Eigen::Vector<S, 6> ret;
    ret << dl_exp<SO3<S>>(w).inverse() * p_, w;
    return ret;
  }
  template<typename D>
  static SE3 exp(const Eigen::MatrixBase<D> & a_)
  {
    const Eigen::Vector<S, 6> a = a_;
    return SE3(SO3<S>::exp(a.template tail<3>()), dl_exp<SO3<S>>(a.template tail<3>()) * a.template head<3>());
  }
  Eigen::Matrix<S, 6, 6> Ad() const
  {
    Eigen::Matrix<S, 6, 6> m               = Eigen::Matrix<S, 6, 6>::Zero();
    m.template topLeftCorner<3, 3>()     = r_.matrix();
    m.template bottomRightCorner<3, 3>() = r_.matrix();
    m.template topRightCorner<3, 3>()    = detail::hat3<S>(p_) * r_.matrix();
    return m;
  }
  static Eigen::Matrix<S, 6, 6> ad(const Eigen::Vector<S, 6> & a)
  {
    Eigen::Matrix<S, 6, 6> m               = Eigen::Matrix<S, 6, 6>::Zero();
    m.template topLeftCorner<3, 3>()     = detail::hat3<S>(a.template tail<3>());
    m.template bottomRightCorner<3, 3>() = detail::hat3<S>(a.template tail<3>());
    m.template topRightCorner<3, 3>()    = detail::hat3<S>(a.template head<3>());
    return m;
  }
};

using SO2d = SO2<double>;
using SE2d = SE2<double>;
using SO3d = SO3<double>;
using SE3d = SE3<double>;
using SO2f = SO2<float>;
using SE2f = SE2<float>;
using SO3f = SO3<float>;
using SE3f = SE3<float>;

namespace detail {
template<typename G>
struct man_group
{
  using Scalar                       = typename G::Scalar;
  using PlainObject                  = G;
  static constexpr Eigen::Index Dof  = G::Dof;
  static constexpr bool is_lie       = true;
  static constexpr bool commutative  = G::commutative;
  using T                            = typename G::Tangent;
  static G Default() { return G::Identity(); }
  static G Identity() { return G::Identity(); }
  static G Random() { return G::Random(); }
  static Eigen::Index dof(const G &) { return Dof; }
  template<typename D>
  static G rplus(const G & g, const Eigen::MatrixBase<D> & a)
  {
    return g.compose(G::exp(a));
  }
  static T rminus(const G & a, const G & b) { return b.inverse().compose(a).log(); }
  static G composition(const G & a, const G & b) { return a.compose(b); }
  static G inverse(const G & a) { return a.inverse(); }
  static T log(const G & a) { return a.log(); }
  static G exp(const T & a) { return G::exp(a); }
  static auto Ad(const G & a) { return a.Ad(); }
  static auto ad(const T & a) { return G::ad(a); }
};
}  // namespace detail

#define SHIM_GROUP(NAME)                                                   \
  template<typename S>                                                     \
  struct traits::man<NAME<S>> : public detail::man_group<NAME<S>>          \
  {                                                                        \
    template<typename NS>                                                  \
    using CastT = NAME<NS>;                                                \
    template<typename NS>                                                  \
    static NAME<NS> cast(const NAME<S> & g)                                \
    {                                                                      \
      if constexpr (std::is_same_v<NS, S>) {                               \
        return g;                                                          \
      } else {                                                             \
        return NAME<NS>::exp(g.log().template cast<NS>());                 \
      }                                                                    \
    }                                                                      \
  };
SHIM_GROUP(SO2)
SHIM_GROUP(SE2)
SHIM_GROUP(SO3)
SHIM_GROUP(SE3)
#undef SHIM_GROUP

// ------------------------------------------------------------------------------------------------ bundle

template<LieGroup... Gs>
class Bundle : public LieBase<Bundle<Gs...>, smooth::Scalar<std::tuple_element_t<0, std::tuple<Gs...>>>, int((smooth::Dof<Gs> + ...))>
{
public:
  using S = smooth::Scalar<std::tuple_element_t<0, std::tuple<Gs...>>>;
  static constexpr int N = int((smooth::Dof<Gs> + ...));
  using B = LieBase<Bundle<Gs...>, S, N>;
  using Parts = std::tuple<PlainObject<Gs>...>;
  template<std::size_t I>
  using PartType = std::tuple_element_t<I, std::tuple<Gs...>>;
  static constexpr std::size_t Count = sizeof...(Gs);
  static constexpr std::array<Eigen::Index, sizeof...(Gs)> Dofs{smooth::Dof<Gs>...};
  static constexpr Eigen::Index off(std::size_t i)
  {
    Eigen::Index r = 0;
    for (std::size_t k = 0; k < i; ++k) { r += Dofs[k]; }
    return r;
  }
  static constexpr bool commutative = (IsCommutative<Gs> && ...);

private:
  Parts p_{smooth::Identity<Gs>()...};
  template<typename F, std::size_t... I>
  static void each_impl(F && f, std::index_sequence<I...>)
  {
    (f(std::integral_constant<std::size_t, I>{}), ...);
  }

public:
  template<typename F>
  static void each(F && f)
  {
    each_impl(std::forward<F>(f), std::make_index_sequence<Count>{});
  }
  Bundle() = default;
  template<typename... A>
    requires(sizeof...(A) == sizeof...(Gs) && (std::is_convertible_v<A, PlainObject<Gs>> && ...))
  explicit Bundle(A &&... a) : p_(std::forward<A>(a)...)
  {}
  template<std::size_t I>
  auto & part()
  {
    return std::get<I>(p_);
  }
  template<std::size_t I>
  const auto & part() const
  {
    return std::get<I>(p_);
  }
  Bundle compose(const Bundle & o) const
  {
    Bundle r;
    each([&](auto i) { r.template part<i>() = composition(this->template part<i>(), o.template part<i>()); });
    return r;
  }
  Bundle inverse() const
  {
    Bundle r;
    each([&](auto i) { r.template part<i>() = smooth::inverse(this->template part<i>()); });
    return r;
  }
  Eigen::Vector<S, N> log() const
  {
    Eigen::Vector<S, N> r;
    each([&](auto i) { r.segment(off(i), Dofs[i]) = smooth::log(this->template part<i>()); });
    return r;
  }
  template<typename D>
  static Bundle exp(const Eigen::MatrixBase<D> & a_)
  {
    const Eigen::Vector<S, N> a = a_;
    Bundle r;
    each([&](auto i) { r.template part<i>() = smooth::exp<PartType<i>>(a.template segment<smooth::Dof<PartType<i>>>(off(i))); });
    return r;
  }
  Eigen::Matrix<S, N, N> Ad() const
  {
    Eigen::Matrix<S, N, N> m = Eigen::Matrix<S, N, N>::Zero();
    each([&](auto i) { m.block(off(i), off(i), Dofs[i], Dofs[i]) = smooth::Ad<PartType<i>>(this->template part<i>()); });
    return m;
  }
  static Eigen::Matrix<S, N, N> ad(const Eigen::Vector<S, N> & a)
  {
    Eigen::Matrix<S, N, N> m = Eigen::Matrix<S, N, N>::Zero();
    each([&](auto i) {
      m.block(off(i), off(i), Dofs[i], Dofs[i]) = smooth::ad<PartType<i>>(a.template segment<smooth::Dof<PartType<i>>>(off(i)));
    });
    return m;
  }
};

template<typename... Gs>
struct traits::man<Bundle<Gs...>> : public detail::man_group<Bundle<Gs...>>
{
  template<typename NS>
  using CastT = Bundle<smooth::CastT<NS, Gs>...>;
  template<typename NS>
  static CastT<NS> cast(const Bundle<Gs...> & g)
  {
    CastT<NS> r;
    Bundle<Gs...>::each([&](auto i) { r.template part<i>() = smooth::cast<NS>(g.template part<i>()); });
    return r;
  }
};

// ------------------------------------------------------------------------------------------------ utils

namespace utils {

namespace detail {
template<typename F, std::size_t... I>
constexpr void static_for_impl(F && f, std::index_sequence<I...>)
{
  (f(std::integral_constant<std::size_t, I>{}), ...);
}
}  // namespace detail

template<std::size_t N, typename F>
constexpr void static_for(F && f)
{
  detail::static_for_impl(std::forward<F>(f), std::make_index_sequence<N>{});
}

template<typename... Rs>
class zip_range
{
  std::tuple<Rs...> r_;

  template<typename... Ss>
  struct sentinel
  {
    std::tuple<Ss...> s;
  };
  template<typename... Is>
  struct iterator
  {
    using iterator_category = std::input_iterator_tag;
    using difference_type   = std::ptrdiff_t;
    using value_type        = std::tuple<decltype(*std::declval<Is &>())...>;
    std::tuple<Is...> i;
    value_type operator*()
    {
      return std::apply([](auto &... it) { return value_type(*it...); }, i);
    }
    iterator & operator++()
    {
      std::apply([](auto &... it) { (static_cast<void>(++it), ...); }, i);
      return *this;
    }
    template<typename... Ss>
    bool operator!=(const sentinel<Ss...> & o) const
    {
      return [&]<std::size_t... K>(std::index_sequence<K...>)
      {
        return (!(std::get<K>(i) == std::get<K>(o.s)) && ...);
      }
      (std::make_index_sequence<sizeof...(Is)>{});
    }
    template<typename... Ss>
    bool operator==(const sentinel<Ss...> & o) const
    {
      return !(*this != o);
    }
  };

public:
  template<typename... A>
  explicit zip_range(std::in_place_t, A &&... a) : r_(std::forward<A>(a)...)
  {}
  auto begin()
  {
    return std::apply([](auto &... r) { return iterator<decltype(std::ranges::begin(r))...>{{std::ranges::begin(r)...}}; }, r_);
  }
  auto end()
  {
    return std::apply([](auto &... r) { return sentinel<decltype(std::ranges::end(r))...>{{std::ranges::end(r)...}}; }, r_);
  }
};

template<typename... Rs>
auto zip(Rs &&... rs)
{
  return zip_range<Rs...>(std::in_place, std::forward<Rs>(rs)...);
}

template<typename R, typename T, typename WO>
constexpr auto binary_interval_search(const R & r, const T & t, WO && wo)
{
  auto b = std::ranges::begin(r), e = std::ranges::end(r);
  const auto n = std::ranges::distance(b, e);
  if (n == 0) { return e; }
  if (wo(*b, t) > 0) { return e; }
  // invariant: r[lo] <= t < r[hi]
  auto lo = decltype(n)(0), hi = n;
  while (hi - lo > 1) {
    const auto mid = lo + (hi - lo) / 2;
    if (wo(*(b + mid), t) > 0) {
      hi = mid;
    } else {
      lo = mid;
    }
  }
  return b + lo;
}
template<typename R, typename T>
constexpr auto binary_interval_search(const R & r, const T & t)
{
  return binary_interval_search(r, t, [](const auto & a, const auto & b) { return a <=> b; });
}

}  // namespace utils

// ------------------------------------------------------------------------------------------------ polynomials

template<typename S, std::size_t N, std::size_t M>
struct StaticMatrix : public std::array<std::array<S, M>, N>
{
  static constexpr auto Rows = N;
  static constexpr auto Cols = M;

  constexpr StaticMatrix() : std::array<std::array<S, M>, N>{} {}

  template<std::size_t R, std::size_t C>
  constexpr StaticMatrix<S, R, C> block(std::size_t r0, std::size_t c0) const
  {
    StaticMatrix<S, R, C> ret;
    for (std::size_t i = 0; i < R; ++i)
      for (std::size_t j = 0; j < C; ++j) ret[i][j] = (*this)[r0 + i][c0 + j];
    return ret;
  }
  constexpr StaticMatrix<S, M, N> transpose() const
  {
    StaticMatrix<S, M, N> ret;
    for (std::size_t i = 0; i < N; ++i)
      for (std::size_t j = 0; j < M; ++j) ret[j][i] = (*this)[i][j];
    return ret;
  }
  template<std::size_t L>
  constexpr StaticMatrix<S, N, L> operator*(const StaticMatrix<S, M, L> & o) const
  {
    StaticMatrix<S, N, L> ret;
    for (std::size_t i = 0; i < N; ++i)
      for (std::size_t j = 0; j < L; ++j)
        for (std::size_t k = 0; k < M; ++k) ret[i][j] += (*this)[i][k] * o[k][j];
    return ret;
  }
};

namespace detail {
/// value and derivative of the Legendre polynomial of degree n
constexpr std::pair<double, double> legendre(std::size_t n, double x)
{
  double p0 = 1, p1 = x, d0 = 0, d1 = 1;
  if (n == 0) { return {p0, d0}; }
  for (std::size_t k = 2; k <= n; ++k) {
    const double kd = double(k);
    const double p2 = ((2 * kd - 1) * x * p1 - (kd - 1) * p0) / kd;
    const double d2 = d0 + (2 * kd - 1) * p1;
    p0 = p1;
    p1 = p2;
    d0 = d1;
    d1 = d2;
  }
  return {p1, d1};
}
constexpr double cos_taylor(double x)  // |x| <= pi
{
  double sum = 1, term = 1;
  for (int k = 1; k < 25; ++k) {
    term *= -x * x / double((2 * k - 1) * (2 * k));
    sum += term;
  }
  return sum;
}
}  // namespace detail

/// Legendre-Gauss-Radau nodes (including -1) and weights
template<std::size_t K, std::size_t I = 8>
constexpr std::pair<std::array<double, K>, std::array<double, K>> lgr_nodes()
{
  std::array<double, K> xs{}, ws{};
  for (std::size_t j = 0; j < K; ++j) {
    if (j == 0) {
      xs[j] = -1;
      ws[j] = 2. / double(K * K);
      continue;
    }
    double x = -detail::cos_taylor(2 * 3.14159265358979323846 * double(j) / double(2 * K - 1));
    for (std::size_t it = 0; it < I; ++it) {
      const auto a = detail::legendre(K - 1, x), b = detail::legendre(K, x);
      x -= (a.first + b.first) / (a.second + b.second);
    }
    xs[j]          = x;
    const double p = detail::legendre(K - 1, x).first;
    ws[j]          = (1 - x) / (double(K * K) * p * p);
  }
  return {xs, ws};
}

/// column j holds the monomial coefficients of the j:th Lagrange polynomial
template<std::size_t K>
constexpr StaticMatrix<double, K + 1, K + 1> lagrange_basis(const std::array<double, K + 1> & ts)
{
  StaticMatrix<double, K + 1, K + 1> ret;
  for (std::size_t j = 0; j <= K; ++j) {
    std::array<double, K + 1> c{};
    c[0]           = 1;
    std::size_t dg = 0;
    for (std::size_t m = 0; m <= K; ++m) {
      if (m == j) { continue; }
      const double s = 1. / (ts[j] - ts[m]);
      // multiply by (x - t_m) * s
      ++dg;
      for (std::size_t k = dg + 1; k-- > 0;) { c[k] = s * ((k > 0 ? c[k - 1] : 0.) - ts[m] * c[k]); }
    }
    for (std::size_t k = 0; k <= K; ++k) { ret[k][j] = c[k]; }
  }
  return ret;
}

template<std::size_t K>
constexpr StaticMatrix<double, 1, K + 1> monomial_derivative(double u, std::size_t p = 0)
{
  StaticMatrix<double, 1, K + 1> ret;
  for (std::size_t k = p; k <= K; ++k) {
    double v = 1;
    for (std::size_t m = 0; m < p; ++m) { v *= double(k - m); }
    for (std::size_t m = 0; m < k - p; ++m) { v *= u; }
    ret[0][k] = v;
  }
  return ret;
}

/// entry (i, j) is the derivative of basis function i at ts[j]
template<std::size_t K, std::size_t N>
constexpr StaticMatrix<double, K + 1, N>
polynomial_basis_derivatives(const StaticMatrix<double, K + 1, K + 1> & B, const std::array<double, N> & ts)
{
  StaticMatrix<double, K + 1, N> ret;
  for (std::size_t j = 0; j < N; ++j) {
    const auto U = monomial_derivative<K>(ts[j], 1);
    const auto W = U * B;
    for (std::size_t i = 0; i <= K; ++i) { ret[i][j] = W[0][i]; }
  }
  return ret;
}

// ------------------------------------------------------------------------------------------------ differentiation

template<typename... Args>
auto wrt(Args &&... args)
{
  return std::forward_as_tuple(std::forward<Args>(args)...);
}

namespace diff {

enum class Type { Numerical, Autodiff, Ceres, Default, Analytic };

namespace detail {

template<typename F, typename Tup>
struct order1 : std::false_type
{};
template<typename F, typename... A>
struct order1<F, std::tuple<A...>>
    : std::bool_constant < requires(F & f, A... a) { f.jacobian(a...); }>
{};
template<typename F, typename Tup>
struct order2 : std::false_type
{};
template<typename F, typename... A>
struct order2<F, std::tuple<A...>>
    : std::bool_constant < requires(F & f, A... a) { f.hessian(a...); }>
{};

template<typename F, typename Tup>
concept diffable_order1 = order1<std::remove_reference_t<F>, Tup>::value;
template<typename F, typename Tup>
concept diffable_order2 = order2<std::remove_reference_t<F>, Tup>::value;

template<typename Tup>
struct tup;
template<typename... A>
struct tup<std::tuple<A...>>
{
  using plain                     = std::tuple<PlainObject<A>...>;
  static constexpr bool stat      = ((Dof<A> >= 0) && ...);
  static constexpr Eigen::Index n = stat ? (Dof<A> + ... + 0) : -1;
};

template<typename Plain>
Eigen::Index tuple_dof(const Plain & x)
{
  return std::apply([](const auto &... a) { return (Eigen::Index(smooth::dof(a)) + ... + 0); }, x);
}

/// arguments are handed to the user function as non-const lvalues
template<typename F, typename Plain>
auto call(F & f, Plain x)
{
  using R = PlainObject<std::decay_t<decltype(std::apply(f, x))>>;
  return R(std::apply(f, x));
}

/// call fun(k, x') for every coordinate k with a function perturbing the tuple along it
template<typename Plain, typename Fun>
void each_coordinate(const Plain & x, Fun && fun)
{
  Eigen::Index k = 0;
  smooth::utils::static_for<std::tuple_size_v<Plain>>([&](auto I) {
    using A              = std::tuple_element_t<I, Plain>;
    const Eigen::Index n = smooth::dof(std::get<I>(x));
    for (Eigen::Index j = 0; j < n; ++j, ++k) {
      fun(k, [&](double h) {
        Plain y = x;
        if constexpr (Dof<A> != 0) {
          std::get<I>(y) = rplus(std::get<I>(x), Tangent<A>(h * Tangent<A>::Unit(n, j)));
        }
        return y;
      });
    }
  });
}

inline constexpr std::array<double, 4> kOff{-2, -1, 1, 2};
inline constexpr std::array<double, 4> kCoef{1. / 12, -8. / 12, 8. / 12, -1. / 12};

/// five-point right Jacobian
template<typename F, typename Plain>
auto num_jac(F & f, const Plain & x)
{
  const auto f0         = call(f, x);
  using R               = std::decay_t<decltype(f0)>;
  constexpr auto nx     = tup<Plain>::n;
  constexpr auto ny     = Dof<R>;
  const Eigen::Index m  = smooth::dof(f0);
  const Eigen::Index nv = tuple_dof(x);
  Eigen::Matrix<double, ny, nx> J(m, nv);
  const double h = 1e-3;
  each_coordinate(x, [&](Eigen::Index k, auto && at) {
    Eigen::Vector<double, ny> s = Eigen::Vector<double, ny>::Zero(m);
    for (std::size_t q = 0; q < 4; ++q) {
      const R fq = call(f, at(kOff[q] * h));
      s += kCoef[q] * rminus(fq, f0);
    }
    J.col(k) = s / h;
  });
  return J;
}

template<typename F, typename Plain>
auto num_hess(F & f, const Plain & x)
{
  const auto f0         = call(f, x);
  using R               = std::decay_t<decltype(f0)>;
  constexpr auto nx     = tup<Plain>::n;
  constexpr auto ny     = Dof<R>;
  const Eigen::Index m  = smooth::dof(f0);
  const Eigen::Index nv = tuple_dof(x);
  Eigen::Matrix<double, nx, (ny < 0 || nx < 0 ? -1 : ny * nx)> H(nv, m * nv);
  const double h = 4e-3;
  each_coordinate(x, [&](Eigen::Index b, auto && at) {
    Eigen::Matrix<double, ny, nx> s = Eigen::Matrix<double, ny, nx>::Zero(m, nv);
    for (std::size_t q = 0; q < 4; ++q) { s += kCoef[q] * num_jac(f, at(kOff[q] * h)); }
    for (Eigen::Index j = 0; j < m; ++j) { H.col(j * nv + b) = s.row(j).transpose() / h; }
  });
  return H;
}

}  // namespace detail

template<std::size_t K = 1, Type D = Type::Default, typename F, typename... Args>
auto dr(F && f, std::tuple<Args...> x)
{
  using Plain = typename detail::tup<std::tuple<Args...>>::plain;
  Plain xp    = std::apply([](const auto &... a) { return Plain(a...); }, x);
  if constexpr (K == 0) {
    return std::make_tuple(detail::call(f, xp));
  } else {
    constexpr bool a1       = detail::diffable_order1<F, Plain>;
    constexpr bool a2       = detail::diffable_order2<F, Plain>;
    constexpr bool analytic = D == Type::Analytic || (D == Type::Default && a1 && (K < 2 || a2));
    if constexpr (analytic) {
      static_assert(a1 && (K < 2 || a2), "analytic derivatives requested but not available");
      if constexpr (K == 1) {
        return std::make_tuple(
          detail::call(f, xp), std::apply([&](auto &... a) { return f.jacobian(a...); }, xp));
      } else {
        return std::make_tuple(
          detail::call(f, xp),
          std::apply([&](auto &... a) { return f.jacobian(a...); }, xp),
          std::apply([&](auto &... a) { return f.hessian(a...); }, xp));
      }
    } else {
      if constexpr (K == 1) {
        return std::make_tuple(detail::call(f, xp), detail::num_jac(f, xp));
      } else {
        return std::make_tuple(detail::call(f, xp), detail::num_jac(f, xp), detail::num_hess(f, xp));
      }
    }
  }
}

template<Type D, typename F, typename... Args>
auto dr(F && f, std::tuple<Args...> x)
{
  return dr<1, D>(std::forward<F>(f), std::move(x));
}

}  // namespace diff

// ------------------------------------------------------------------------------------------------ sparse Lie

namespace detail {
template<typename G>
struct is_bundle : std::false_type
{};
template<typename... Gs>
struct is_bundle<Bundle<Gs...>> : std::true_type
{};

/// visit all (row, col) of the structural pattern of ad / d exp
template<LieGroup G, typename F>
void each_pattern1(bool ident, Eigen::Index o, F && f)
{
  if constexpr (is_bundle<G>::value) {
    G::each([&](auto i) { each_pattern1<typename G::template PartType<i>>(ident, o + G::off(i), f); });
  } else if constexpr (IsCommutative<G>) {
    if (ident) {
      for (Eigen::Index i = 0; i < Dof<G>; ++i) { f(o + i, o + i); }
    }
  } else {
    for (Eigen::Index i = 0; i < Dof<G>; ++i)
      for (Eigen::Index j = 0; j < Dof<G>; ++j) f(o + i, o + j);
  }
}
/// visit all (output, row, col) of the structural pattern of d2 exp
template<LieGroup G, typename F>
void each_pattern2(Eigen::Index o, F && f)
{
  if constexpr (is_bundle<G>::value) {
    G::each([&](auto i) { each_pattern2<typename G::template PartType<i>>(o + G::off(i), f); });
  } else if constexpr (!IsCommutative<G>) {
    for (Eigen::Index q = 0; q < Dof<G>; ++q)
      for (Eigen::Index i = 0; i < Dof<G>; ++i)
        for (Eigen::Index j = 0; j < Dof<G>; ++j) f(o + q, o + i, o + j);
  }
}
template<LieGroup G>
Eigen::SparseMatrix<double> make_pattern1(bool ident)
{
  Eigen::SparseMatrix<double> ret(Dof<G>, Dof<G>);
  each_pattern1<G>(ident, 0, [&](auto i, auto j) { ret.coeffRef(i, j) = 0; });
  ret.makeCompressed();
  return ret;
}
template<LieGroup G>
Eigen::SparseMatrix<double> make_pattern2()
{
  Eigen::SparseMatrix<double> ret(Dof<G>, Dof<G> * Dof<G>);
  each_pattern2<G>(0, [&](auto q, auto i, auto j) { ret.coeffRef(i, q * Dof<G> + j) = 0; });
  ret.makeCompressed();
  return ret;
}
template<typename G>
struct Generators
{
  Eigen::SparseMatrix<double, Eigen::RowMajor> operator[](std::size_t i) const
  {
    Eigen::MatrixXd m = ad<G>(Tangent<G>(Tangent<G>::Unit(Eigen::Index(i))));
    return m.sparseView();
  }
  constexpr std::size_t size() const { return std::size_t(Dof<G>); }
};
}  // namespace detail

template<LieGroup G>
inline constexpr detail::Generators<G> generators_sparse{};

template<LieGroup G>
inline const Eigen::SparseMatrix<double> ad_sparse_pattern = detail::make_pattern1<G>(false);
template<LieGroup G>
inline const Eigen::SparseMatrix<double> d_exp_sparse_pattern = detail::make_pattern1<G>(true);
template<LieGroup G>
inline const Eigen::SparseMatrix<double> d2_exp_sparse_pattern = detail::make_pattern2<G>();

template<LieGroup G, typename SP, typename D>
void ad_sparse(SP & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  const TangentMap<G> M = ad<G>(Tangent<G>(a));
  detail::each_pattern1<G>(false, 0, [&](auto i, auto j) { sp.coeffRef(i0 + i, i0 + j) = M(i, j); });
}
template<LieGroup G, typename SP, typename D>
void dr_exp_sparse(SP & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  const TangentMap<G> M = dr_exp<G>(Tangent<G>(a));
  detail::each_pattern1<G>(true, 0, [&](auto i, auto j) { sp.coeffRef(i0 + i, i0 + j) = M(i, j); });
}
template<LieGroup G, typename SP, typename D>
void dr_expinv_sparse(SP & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  const TangentMap<G> M = dr_expinv<G>(Tangent<G>(a));
  detail::each_pattern1<G>(true, 0, [&](auto i, auto j) { sp.coeffRef(i0 + i, i0 + j) = M(i, j); });
}
template<LieGroup G, typename SP, typename D>
void d2r_exp_sparse(SP & sp, const Eigen::MatrixBase<D> & a, Eigen::Index r0 = 0, Eigen::Index c0 = 0)
{
  const Hessian<G> H = d2r_exp<G>(Tangent<G>(a));
  detail::each_pattern2<G>(
    0, [&](auto q, auto i, auto j) { sp.coeffRef(r0 + i, c0 + q * Dof<G> + j) = H(i, q * Dof<G> + j); });
}
template<LieGroup G, typename SP, typename D>
void d2r_expinv_sparse(SP & sp, const Eigen::MatrixBase<D> & a, Eigen::Index r0 = 0, Eigen::Index c0 = 0)
{
  const Hessian<G> H = d2r_expinv<G>(Tangent<G>(a));
  detail::each_pattern2<G>(
    0, [&](auto q, auto i, auto j) { sp.coeffRef(r0 + i, c0 + q * Dof<G> + j) = H(i, q * Dof<G> + j); });
}

// ------------------------------------------------------------------------------------------------ derivatives.hpp

template<LieGroup G>
TangentMap<G> dr_rminus(const Tangent<G> & e)
{
  return dr_expinv<G>(e);
}
template<LieGroup G>
Hessian<G> d2r_rminus(const Tangent<G> & e)
{
  // right Hessian of x -> x (-) y: d/db dr_expinv(e) along the group
  const auto H          = d2r_expinv<G>(e);
  const TangentMap<G> J = dr_expinv<G>(e);
  Hessian<G> ret;
  for (Eigen::Index j = 0; j < Dof<G>; ++j) {
    ret.template middleCols<Dof<G>>(j * Dof<G>) = H.template middleCols<Dof<G>>(j * Dof<G>) * J;
  }
  return ret;
}
template<LieGroup G>
Eigen::RowVector<Scalar<G>, Dof<G>> dr_rminus_squarednorm(const Tangent<G> & e)
{
  return e.transpose() * dr_expinv<G>(e);
}
template<LieGroup G>
TangentMap<G> d2r_rminus_squarednorm(const Tangent<G> & e)
{
  const TangentMap<G> J1 = dr_rminus<G>(e);
  const Hessian<G> H1    = d2r_rminus<G>(e);
  TangentMap<G> ret      = J1.transpose() * J1;
  for (Eigen::Index j = 0; j < Dof<G>; ++j) { ret += e(j) * H1.template middleCols<Dof<G>>(j * Dof<G>); }
  return ret;
}

// ------------------------------------------------------------------------------------------------ splines

template<LieGroup G>
using OptTangent = std::optional<Eigen::Ref<Tangent<G>>>;

/// g(t) = g0 (+) (c_1 t + ... + c_K t^K)
template<int K, LieGroup G>
class Spline
{
  G g0_ = Identity<G>();
  std::array<Tangent<G>, std::size_t(K)> c_;

public:
  Spline() { c_.fill(Tangent<G>::Zero()); }
  Spline(const G & g0, const std::array<Tangent<G>, std::size_t(K)> & c) : g0_(g0), c_(c) {}
  G operator()(double t, OptTangent<G> vel = {}, OptTangent<G> acc = {}) const
  {
    Tangent<G> a = Tangent<G>::Zero(), v = Tangent<G>::Zero(), w = Tangent<G>::Zero();
    for (int k = K; k >= 1; --k) {
      const auto & c = c_[std::size_t(k - 1)];
      a += c * std::pow(t, k);
      v += c * (k * std::pow(t, k - 1));
      if (k >= 2) { w += c * (k * (k - 1) * std::pow(t, k - 2)); }
    }
    const TangentMap<G> J = dr_exp<G>(a);
    if (vel.has_value()) { vel.value() = J * v; }
    if (acc.has_value()) {
      Tangent<G> r = J * w;
      if constexpr (!IsCommutative<G>) {
        const auto P = detail::dr_exp_partials<G>(a);
        for (Eigen::Index b = 0; b < Dof<G>; ++b) { r += v(b) * (P[std::size_t(b)] * v); }
      }
      acc.value() = r;
    }
    return rplus(g0_, a);
  }
};
template<LieGroup G>
using CubicSpline = Spline<3, G>;

template<typename TT, typename GG>
auto fit_spline_cubic(const TT &, const GG & gg)
{
  using G = std::decay_t<decltype(gg[0])>;
  const Tangent<G> c = 0.2 * rminus(gg[1], gg[0]);
  return Spline<3, G>(gg[0], {c, c, c});
}

}  // namespace smooth
