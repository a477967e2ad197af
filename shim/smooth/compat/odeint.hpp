#pragma once
#include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <smooth/core.hpp>

namespace smooth::detail {
/// x1 = x2 (+) (a2 d1 + a3 d2 + ...); the first coefficient must be one
struct lie_operations
{
#define SHIM_SS_T(n) class F##n = double
  template<typename... Fs>
  struct ss
  {
    std::tuple<Fs...> a;
    explicit ss(Fs... as) : a(as...) {}
    using result_type = void;
    template<typename X1, typename X2, typename D1, typename... Ds>
    void operator()(X1 & x1, const X2 & x2, const D1 & d1, const Ds &... ds) const
    {
      run(x1, x2, std::index_sequence_for<Ds...>{}, d1, ds...);
    }
    template<typename X1, typename X2, typename D1, std::size_t... I, typename... Ds>
    void run(X1 & x1, const X2 & x2, std::index_sequence<I...>, const D1 & d1, const Ds &... ds) const
    {
      eigen_assert(std::abs(double(std::get<0>(a)) - 1) < 1e-12);
      Tangent<X2> s = std::get<1>(a) * d1;
      ((s += std::get<I + 2>(a) * ds), ...);
      x1 = rplus(x2, s);
    }
  };
  template<class F1 = double, class F2 = F1>
  struct scale_sum2 : ss<F1, F2> { using ss<F1, F2>::ss; };
  template<class F1 = double, class F2 = F1, class F3 = F2>
  struct scale_sum3 : ss<F1, F2, F3> { using ss<F1, F2, F3>::ss; };
  template<class F1 = double, class F2 = F1, class F3 = F2, class F4 = F3>
  struct scale_sum4 : ss<F1, F2, F3, F4> { using ss<F1, F2, F3, F4>::ss; };
  template<class F1 = double, class F2 = F1, class F3 = F2, class F4 = F3, class F5 = F4>
  struct scale_sum5 : ss<F1, F2, F3, F4, F5> { using ss<F1, F2, F3, F4, F5>::ss; };
  template<class F1 = double, class F2 = F1, class F3 = F2, class F4 = F3, class F5 = F4, class F6 = F5>
  struct scale_sum6 : ss<F1, F2, F3, F4, F5, F6> { using ss<F1, F2, F3, F4, F5, F6>::ss; };
  template<class F1 = double, class F2 = F1, class F3 = F2, class F4 = F3, class F5 = F4, class F6 = F5, class F7 = F6>
  struct scale_sum7 : ss<F1, F2, F3, F4, F5, F6, F7> { using ss<F1, F2, F3, F4, F5, F6, F7>::ss; };
#undef SHIM_SS_T
};
}  // namespace smooth::detail

template<smooth::LieGroup G>
  requires(!smooth::RnType<G> && !smooth::ScalarType<G>)
struct boost::numeric::odeint::operations_dispatcher<G>
{
  using operations_type = smooth::detail::lie_operations;
};
