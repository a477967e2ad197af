#pragma once
#include "qpi.hpp"

#include <functional>

namespace rep {

inline double garbage_at(Eigen::Index i, Eigen::Index j, double mag)
{
  return mag * static_cast<double>((7 * i + 3 * j + 1) % 5 - 2);
}

template<Eigen::Index M, Eigen::Index N>
struct DenseTr
{
  using Pbm = smooth::feedback::QuadraticProgram<M, N>;
  using Sol = smooth::feedback::QPSolution<M, N>;
  static Pbm make(const QPData & d, const Layout & lo)
  {
    Pbm p;
    Eigen::MatrixXd P = d.P;
    for (Eigen::Index j = 0; j < P.cols(); ++j)
      for (Eigen::Index i = j + 1; i < P.rows(); ++i) {
        if (lo.lower == 1) P(i, j) = 0;
        if (lo.lower == 2) P(i, j) = garbage_at(i, j, lo.garbage);
      }
    p.P = P;
    p.q = d.q;
    p.A = d.A;
    p.l = d.l;
    p.u = d.u;
    return p;
  }
  static bool same(const Pbm & a, const Pbm & b)
  {
    return a.P == b.P && a.q == b.q && a.A == b.A && a.l == b.l && a.u == b.u;
  }
};

struct SparseTr
{
  using Pbm = smooth::feedback::QuadraticProgramSparse<double>;
  using Sol = smooth::feedback::QPSolution<-1, -1>;

  template<typename SM>
  static SM build(const Eigen::MatrixXd & D, const Eigen::MatrixXi & mask, bool compressed, int lower, double garb)
  {
    SM S(D.rows(), D.cols());
    for (Eigen::Index o = 0; o < S.outerSize(); ++o) {
      for (Eigen::Index in = 0; in < S.innerSize(); ++in) {
        const auto r = SM::IsRowMajor ? o : in, c = SM::IsRowMajor ? in : o;
        double v = D(r, c);
        if (lower && r > c) {
          if (lower == 1) continue;
          v = garbage_at(r, c, garb);
        }
        if (v != 0 || (mask.size() && mask(r, c))) S.insert(r, c) = v;
      }
    }
    if (compressed) {
      S.makeCompressed();
    } else {
      S.uncompress();
      // leave some free space so that storage really has gaps
      if (S.outerSize() > 0) S.reserve(Eigen::VectorXi::Constant(S.outerSize(), 2));
    }
    return S;
  }

  static Pbm make(const QPData & d, const Layout & lo)
  {
    Pbm p;
    p.P = build<Eigen::SparseMatrix<double>>(d.P, lo.maskP, lo.compressed, lo.lower, lo.garbage);
    p.A = build<Eigen::SparseMatrix<double, Eigen::RowMajor>>(d.A, lo.maskA, lo.compressed, 0, 0);
    p.q = d.q;
    p.l = d.l;
    p.u = d.u;
    return p;
  }
  static bool same(const Pbm & a, const Pbm & b)
  {
    return a.P.nonZeros() == b.P.nonZeros() && a.A.nonZeros() == b.A.nonZeros()
        && a.P.isCompressed() == b.P.isCompressed() && a.A.isCompressed() == b.A.isCompressed()
        && Eigen::MatrixXd(a.P) == Eigen::MatrixXd(b.P) && a.q == b.q && Eigen::MatrixXd(a.A) == Eigen::MatrixXd(b.A)
        && a.l == b.l && a.u == b.u;
  }
};

template<typename Tr>
struct Impl : AnySolver
{
  using Pbm    = typename Tr::Pbm;
  using Sol    = typename Tr::Sol;
  using Solver = smooth::feedback::QPSolver<Pbm>;
  Solver s;

  explicit Impl(const QPSolverParams & prm) : s(prm) {}
  Impl(const Pbm & p, const QPSolverParams & prm) : s(p, prm) {}
  explicit Impl(const Solver & o) : s(o) {}
  explicit Impl(Solver && o) : s(std::move(o)) {}

  static QPResult conv(const Sol & o)
  {
    QPResult r;
    r.code      = o.code;
    r.iter      = o.iter;
    r.x         = o.primal;
    r.y         = o.dual;
    r.objective = o.objective;
    return r;
  }
  static Sol unconv(const QPResult & r)
  {
    Sol o;
    o.code      = r.code;
    o.iter      = r.iter;
    o.primal    = r.x;
    o.dual      = r.y;
    o.objective = r.objective;
    return o;
  }

  void analyze(const QPData & d, const Layout & lo) override { s.analyze(Tr::make(d, lo)); }
  QPResult solve(const QPData & d, const Layout & lo, const QPResult * w) override
  {
    const Pbm p    = Tr::make(d, lo);
    const Pbm copy = Tr::make(d, lo);
    QPResult r;
    if (w) {
      const Sol ws = unconv(*w);
      r            = conv(s.solve(p, std::cref(ws)));
    } else {
      r = conv(s.solve(p));
    }
    r.input_modified = !Tr::same(p, copy);
    return r;
  }
  QPResult solve_warm_self(const QPData & d, const Layout & lo) override
  {
    const Pbm p = Tr::make(d, lo);
    return conv(s.solve(p, std::cref(s.sol())));
  }
  QPResult sol() const override { return conv(s.sol()); }
  std::unique_ptr<AnySolver> clone() const override { return std::make_unique<Impl>(s); }
  std::unique_ptr<AnySolver> move_out() override { return std::make_unique<Impl>(std::move(s)); }
  void assign(const AnySolver & o) override { s = static_cast<const Impl &>(o).s; }
  void move_assign(AnySolver && o) override { s = std::move(static_cast<Impl &>(o).s); }
  std::unique_ptr<AnySolver> fresh(const QPSolverParams & prm) const override { return std::make_unique<Impl>(prm); }
  std::unique_ptr<AnySolver> fresh(const QPData & d, const Layout & lo, const QPSolverParams & prm) const override
  {
    return std::make_unique<Impl>(Tr::make(d, lo), prm);
  }
  QPResult
  solve_once(const QPData & d, const Layout & lo, const QPSolverParams & prm, const QPResult * w) const override
  {
    const Pbm p    = Tr::make(d, lo);
    const Pbm copy = Tr::make(d, lo);
    QPResult r;
    if (w) {
      const Sol ws = unconv(*w);
      r            = conv(smooth::feedback::solve_qp(p, prm, std::cref(ws)));
    } else {
      r = conv(smooth::feedback::solve_qp(p, prm));
    }
    r.input_modified = !Tr::same(p, copy);
    return r;
  }
};

template<typename Tr>
std::unique_ptr<AnySolver> make()
{
  return std::make_unique<Impl<Tr>>(QPSolverParams{});
}

}  // namespace rep
