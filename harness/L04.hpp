#pragma once
#include <iostream>
#include "L03.hpp"

namespace l04 {
using namespace fg;
using l03::Charted;
namespace sf = smooth::feedback;
using smooth::Dof;

/// a function with one entry of one of its derivatives displaced
template<typename F>
struct Wrong : F
{
  int which = 0;  // 0: none, 1: jacobian, 2: hessian
  Index row = 0, col = 0;
  double amount = 0;
  double share  = 1;  // part of the time axis on which it is displaced
  int fired     = 0;  // number of displaced evaluations
  bool here(double t) { return std::fmod(37.3 * t, 1.) < share && ++fired; }
  Eigen::SparseMatrix<double> wj_{}, wh_{};
  template<typename... A>
  const Eigen::SparseMatrix<double> & jacobian(double t, const A &... as)
  {
    wj_ = F::jacobian(t, as...);
    if (which == 1 && here(t)) wj_.coeffRef(row, col) += amount * (1 + MatrixXd(wj_).norm());
    return wj_;
  }
  template<typename... A>
  const Eigen::SparseMatrix<double> & hessian(double t, const A &... as)
  {
    wh_ = F::hessian(t, as...);
    if (which == 2 && here(t)) wh_.coeffRef(row, col) += amount * (1 + MatrixXd(wh_).norm());
    return wh_;
  }
};

template<typename X, typename U, int nq, int ncr, int nce>
void check(eng::Src & s)
{
  using Q              = Eigen::Vector<double, nq>;
  constexpr int nx = Dof<X>, nu = Dof<U>, nz = 1 + nx + nu, ne = 1 + 2 * nx + nq;
  const X x0 = smooth::Identity<X>();
  const U u0 = smooth::Identity<U>();
  const auto kind = [&] { return int(s.weighted({1, 2, 3})); };
  const auto inner = [&]<int nf>(std::integral_constant<int, nf>) { return Wrong<Charted<nf, X, U>>{{data(s, nf, nz, kind()), {x0, u0}, s.coin()}}; };
  const auto endpt = [&]<int nf>(std::integral_constant<int, nf>) { return Wrong<Charted<nf, X, X, Q>>{{data(s, std::max(nf, 1), ne, kind()), {x0, x0, Q::Zero()}, s.coin()}}; };
  sf::OCP<X, U, Wrong<Charted<0, X, X, Q>>, Wrong<Charted<nx, X, U>>, Wrong<Charted<nq, X, U>>, Wrong<Charted<ncr, X, U>>, Wrong<Charted<nce, X, X, Q>>> ocp{
    .theta = endpt(std::integral_constant<int, 0>{}), .f = inner(std::integral_constant<int, nx>{}), .g = inner(std::integral_constant<int, nq>{}), .cr = inner(std::integral_constant<int, ncr>{}), .crl = {}, .cru = {}, .ce = endpt(std::integral_constant<int, nce>{}), .cel = {}, .ceu = {}};
  const char * const names[] = {"theta", "f", "g", "cr", "ce"};
  const Index outs[] = {1, nx, nq, ncr, nce}, vars[] = {ne, nz, nz, nz, ne};
  const bool wrong = s.coin();
  bool everywhere  = false;
  std::string what = "none";
  if (wrong) {
    const int k = int(s.range(0, 4)), which = int(s.range(1, 2));
    const Index row  = s.range(0, (which == 1 ? outs[k] : vars[k]) - 1), col = s.range(0, (which == 1 ? vars[k] : vars[k] * outs[k]) - 1);
    const double amt = s.pick({0.5, 0.02, -0.02, -3.}), share = s.pick({1., 0.5, 0.25});
    const auto set   = [&](auto & f) { f.which = which, f.row = row, f.col = col, f.amount = amt, f.share = share; };
    everywhere = share == 1;
    if (!everywhere) s.cls("wrong on a part of the time axis");
    k == 0 ? set(ocp.theta) : k == 1 ? set(ocp.f) : k == 2 ? set(ocp.g) : k == 3 ? set(ocp.cr) : set(ocp.ce);
    what = eng::cat(which == 1 ? "jacobian" : "hessian", " of ", names[k], " at (", row, ",", col, ")");
    s.cls(eng::cat(which == 1 ? "jacobian" : "hessian", " of ", names[k]));
  }
  s.note("X", lg::gname<X>()).note("wrong", what);
  const unsigned trials = unsigned(s.range(1, 4)), seed = unsigned(s.range(0, 1 << 20));
  std::srand(seed);
  std::ostringstream sink;
  auto * const old = std::cout.rdbuf(sink.rdbuf());
  bool ok;
  try {
    ok = sf::test_ocp_derivatives<smooth::diff::Type::Numerical>(ocp, trials);
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  // wrong at a sampled point (somewhere else, the test cannot know)
  const bool seen = everywhere || ocp.theta.fired || ocp.f.fired || ocp.g.fired || ocp.cr.fired || ocp.ce.fired;
  if (seen) s.nontrivial();
  s.require(ok == !seen, seen ? "accepts" : "rejects", [&] { return seen ? eng::cat("wrong ", what, " is accepted") : eng::cat("right derivatives are rejected: ", sink.str().substr(0, 300)); });
}
}  // namespace l04
