#include <smooth/feedback/utils/sparse.hpp>

#include "spgen.hpp"
using namespace spg;
using namespace smooth::feedback;

const eng::CheckInfo eng::check_info{
  "S03",
  "cases: random dimensions (No, Ny, Nx up to 4), derivative blocks of arbitrary sparsity and storage (sparse of either order, dense) and "
  "an output with random prior content and offset; the result is compared entry by entry with the dense chain-rule sum; in addition "
  "random quadratic maps f, g for which the exact second-order expansion of f(g(x)) is computed by polynomial substitution; non-trivial: "
  "Hessian of f and of g both have a stored nonzero",
  200000,
  5000000,
  {}};

namespace {

/// dense reference
MatrixXd reference(const MatrixXd & Jf, const MatrixXd & Hf, const MatrixXd & Jg, const MatrixXd & Hg)
{
  const Index No = Jf.rows(), Ny = Jf.cols(), Nx = Jg.cols();
  MatrixXd H = MatrixXd::Zero(Nx, No * Nx);
  for (Index o = 0; o < No; ++o)
    for (Index i = 0; i < Nx; ++i)
      for (Index j = 0; j < Nx; ++j) {
        double v = 0;
        for (Index a = 0; a < Ny; ++a) {
          for (Index b = 0; b < Ny; ++b) v += Hf(a, o * Ny + b) * Jg(a, i) * Jg(b, j);
          v += Jf(o, a) * Hg(i, a * Nx + j);
        }
        H(i, o * Nx + j) = v;
      }
  return H;
}

template<typename T1, typename T2, typename T3, typename T4>
void run(eng::Src & s, const Model & jf, const Model & hf, const Model & jg, const Model & hg, const T1 & Jf, const T2 & Hf, const T3 & Jg, const T4 & Hg)
{
  const Index No = jf.rows(), Nx = jg.cols();
  const bool def = s.chance(1, 3);
  const Index r0 = def ? 0 : s.range(0, 3), c0 = def ? 0 : s.range(0, 3);
  const Model o  = model(s, Nx + r0 + (def ? 0 : s.range(0, 2)), No * Nx + c0 + (def ? 0 : s.range(0, 2)));
  auto out       = build<Eigen::SparseMatrix<double>>(o, static_cast<int>(s.range(0, 2)));
  s.note("Jf", show(jf)).note("Hf", show(hf)).note("Jg", show(jg)).note("Hg", show(hg)).note("out", show(o)).note("r0", r0).note("c0", c0);
  if (def)
    d2r_fog(out, Jf, Hf, Jg, Hg);
  else
    d2r_fog(out, Jf, Hf, Jg, Hg, r0, c0);
  s.require(out.rows() == o.rows() && out.cols() == o.cols(), "dimensions", "dimensions changed");
  MatrixXd want = o.v;
  want.block(r0, c0, Nx, No * Nx) += reference(jf.v, hf.v, jg.v, hg.v);
  MatrixXd mag = o.v.cwiseAbs();
  mag.block(r0, c0, Nx, No * Nx) += reference(jf.v.cwiseAbs(), hf.v.cwiseAbs(), jg.v.cwiseAbs(), hg.v.cwiseAbs());
  const Model got = read(out);
  for (Index i = 0; i < o.rows(); ++i)
    for (Index j = 0; j < o.cols(); ++j) {
      const bool inside = i >= r0 && i < r0 + Nx && j >= c0 && j < c0 + No * Nx;
      s.require(near(got.v(i, j), want(i, j), mag(i, j)), inside ? "value" : "outside",
        [&] { return eng::cat("entry (", i, ",", j, ") is ", got.v(i, j), " should be ", want(i, j)); });
      s.require(inside || got.p(i, j) == o.p(i, j), "pattern", [&] { return eng::cat("storage changed outside at (", i, ",", j, ")"); });
    }
  if (!hf.v.isZero(0) && !hg.v.isZero(0)) s.nontrivial();
}

}  // namespace

PROP(chain_rule, 3)
{
  const Index No = s.range(1, 4), Ny = s.range(1, 4), Nx = s.range(1, 4);
  const Model jf = model(s, No, Ny), hf = model(s, Ny, No * Ny), jg = model(s, Ny, Nx), hg = model(s, Nx, Ny * Nx);
  using SC     = Eigen::SparseMatrix<double>;
  using SR     = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  const int fr = static_cast<int>(s.range(0, 2));
  switch (s.draw(5)) {
  case 0:
    s.cls("sparse");
    run(s, jf, hf, jg, hg, build<SC>(jf, fr), build<SC>(hf, fr), build<SC>(jg, fr), build<SC>(hg, fr));
    break;
  case 1:
    s.cls("row-major Jf and Jg");
    run(s, jf, hf, jg, hg, build<SR>(jf, fr), build<SC>(hf, fr), build<SC>(jg, fr), build<SC>(hg, fr));
    break;
  case 2:
    s.cls("dense Jf");
    run(s, jf, hf, jg, hg, jf.v, build<SC>(hf, fr), build<SC>(jg, fr), build<SC>(hg, fr));
    break;
  case 3:
    s.cls("dense");
    run(s, jf, hf, jg, hg, jf.v, hf.v, jg.v, hg.v);
    break;
  default:
    s.cls("dense Hg");
    run(s, jf, hf, jg, hg, build<SC>(jf, fr), build<SC>(hf, fr), build<SC>(jg, fr), hg.v);
    break;
  }
}

// quadratic maps: second derivatives of f(g(x)) at 0 by exact substitution
PROP(substitution, 1)
{
  const Index No = s.range(1, 3), Ny = s.range(1, 3), Nx = s.range(1, 3);
  const auto mat = [&](Index r, Index c) {
    MatrixXd m(r, c);
    for (Index i = 0; i < r; ++i)
      for (Index j = 0; j < c; ++j) m(i, j) = static_cast<double>(s.small(4));
    return m;
  };
  const auto sym = [&](Index n) {
    MatrixXd m = mat(n, n);
    return MatrixXd(m + m.transpose());
  };
  // y_k = jg_k x + 1/2 x' G_k x ;  f_o = jf_o y + 1/2 y' F_o y
  const MatrixXd jf = mat(No, Ny), jg = mat(Ny, Nx);
  MatrixXd Hf(Ny, No * Ny), Hg(Nx, Ny * Nx);
  for (Index o = 0; o < No; ++o) Hf.middleCols(o * Ny, Ny) = sym(Ny);
  for (Index k = 0; k < Ny; ++k) Hg.middleCols(k * Nx, Nx) = sym(Nx);
  const auto g = [&](const VectorXd & x) {
    VectorXd y = jg * x;
    for (Index k = 0; k < Ny; ++k) y(k) += 0.5 * x.dot(Hg.middleCols(k * Nx, Nx) * x);
    return y;
  };
  // second-order part of f(g(t x)): coefficient extraction with integer arithmetic at t = +-1 is not exact for the
  // quartic, so use t in {-2,-1,1,2}: c2 = (16 (p(1)+p(-1)) - (p(2)+p(-2))) / 24
  const auto p = [&](const VectorXd & x, Index o) {
    const VectorXd y = g(x);
    return jf.row(o).dot(y) + 0.5 * y.dot(Hf.middleCols(o * Ny, Ny) * y);
  };
  Eigen::SparseMatrix<double> out(Nx, No * Nx);
  d2r_fog(out, Eigen::SparseMatrix<double>(jf.sparseView()), Eigen::SparseMatrix<double>(Hf.sparseView()), Eigen::SparseMatrix<double>(jg.sparseView()),
    Eigen::SparseMatrix<double>(Hg.sparseView()));
  const MatrixXd H = out;
  s.note("jf", spg::show(jf)).note("Hf", spg::show(Hf)).note("jg", spg::show(jg)).note("Hg", spg::show(Hg));
  s.nontrivial();
  for (Index o = 0; o < No; ++o) {
    for (int rep = 0; rep < 3; ++rep) {
      VectorXd x(Nx);
      for (Index i = 0; i < Nx; ++i) x(i) = static_cast<double>(s.small(3));
      const double c2 = (16 * (p(x, o) + p(-x, o)) - (p(2 * x, o) + p(-2 * x, o))) / 24.;
      const double q  = 0.5 * x.dot(H.middleCols(o * Nx, Nx) * x);
      s.require(std::fabs(c2 - q) <= 1e-9 * (1 + std::fabs(c2) + std::fabs(p(2 * x, o))), "second-order", [&] { return eng::cat("x=", spg::show(x), " expansion ", c2, " from Hessian ", q); });
    }
    const MatrixXd Ho = H.middleCols(o * Nx, Nx);
    s.require((Ho - Ho.transpose()).isZero(1e-9), "symmetry", "Hessian of a smooth function is not symmetric");
  }
}
