// Random smooth nonlinear programs with analytic derivatives, in several representations of the same program.
#pragma once

#include <Eigen/Core>
#include <Eigen/Sparse>

#include <cmath>
#include <memory>
#include <vector>

#include "engine.hpp"

namespace ng {

using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using SC = Eigen::SparseMatrix<double>;
using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>;

/// c * phi(x_i, x_j)
struct Term
{
  int kind;
  double c;
  Index i, j;

  /// value, partials (i, j), second partials (ii, ij, jj)
  void eval(const VectorXd & x, double * r) const
  {
    const double a = x(i), b = x(j);
    for (int k = 0; k < 6; ++k) r[k] = 0;
    switch (kind) {
    case 0: r[0] = a, r[1] = 1; break;
    case 1: r[0] = a * b, r[1] = b, r[2] = a, r[4] = 1; break;
    case 2: r[0] = a * a * b, r[1] = 2 * a * b, r[2] = a * a, r[3] = 2 * b, r[4] = 2 * a; break;
    case 3: r[0] = std::sin(a), r[1] = std::cos(a), r[3] = -std::sin(a); break;
    case 4: r[0] = std::exp(a / 4), r[1] = r[0] / 4, r[3] = r[0] / 16; break;
    case 5: r[0] = a * std::cos(b), r[1] = std::cos(b), r[2] = -a * std::sin(b), r[4] = -std::sin(b), r[5] = -a * std::cos(b); break;
    default: r[0] = a * a, r[1] = 2 * a, r[3] = 2; break;
    }
    for (int k = 0; k < 6; ++k) r[k] *= c;
  }
};

struct Fun
{
  double c0 = 0;
  std::vector<Term> t;
  double val(const VectorXd & x) const
  {
    double v = c0, r[6];
    for (auto & a : t) a.eval(x, r), v += r[0];
    return v;
  }
  VectorXd grad(const VectorXd & x) const
  {
    VectorXd g = VectorXd::Zero(x.size());
    double r[6];
    for (auto & a : t) a.eval(x, r), g(a.i) += r[1], g(a.j) += r[2];
    return g;
  }
  MatrixXd hess(const VectorXd & x) const
  {
    MatrixXd h = MatrixXd::Zero(x.size(), x.size());
    double r[6];
    for (auto & a : t) {
      a.eval(x, r);
      h(a.i, a.i) += r[3], h(a.j, a.j) += r[5];
      if (a.i == a.j)
        h(a.i, a.i) += 2 * r[4];
      else
        h(a.i, a.j) += r[4], h(a.j, a.i) += r[4];
    }
    return h;
  }
};

/// The program, independent of the way it is presented.
struct Model
{
  Index n, m;
  Fun f;
  std::vector<Fun> g;
  VectorXd xl, xu, gl, gu;
  // extra structural entries that are always zero
  std::vector<std::pair<Index, Index>> padJ, padHf, padHg;

  VectorXd gval(const VectorXd & x) const
  {
    VectorXd r(m);
    for (Index k = 0; k < m; ++k) r(k) = g[k].val(x);
    return r;
  }
  MatrixXd jac(const VectorXd & x) const
  {
    MatrixXd r(m, n);
    for (Index k = 0; k < m; ++k) r.row(k) = g[k].grad(x).transpose();
    return r;
  }
  MatrixXd ghess(const VectorXd & x, const VectorXd & l) const
  {
    MatrixXd r = MatrixXd::Zero(n, n);
    for (Index k = 0; k < m; ++k) r += l(k) * g[k].hess(x);
    return r;
  }
};

inline Fun fun(eng::Src & s, Index n, int maxterms)
{
  Fun f;
  f.c0         = s.real(2);
  const auto k = s.range(0, maxterms);
  for (int q = 0; q < k; ++q) {
    const int kind = static_cast<int>(s.range(0, 6));
    const double c = s.real(2);
    const Index i  = s.range(0, n - 1);
    f.t.push_back({kind, c, i, s.range(0, n - 1)});
  }
  return f;
}

inline double bound(eng::Src & s, double sgn)
{
  switch (s.weighted({4, 2, 1, 1})) {
  case 0: return sgn * std::fabs(s.real(3));
  case 1: return sgn * std::numeric_limits<double>::infinity();
  case 2: return sgn * 1e25;
  default: return s.real(1);
  }
}

inline Model model(eng::Src & s)
{
  Model m;
  m.n = s.range(1, 7);
  m.m = s.range(0, 6);
  m.f = fun(s, m.n, 6);
  for (Index k = 0; k < m.m; ++k) m.g.push_back(fun(s, m.n, 4));
  m.xl.resize(m.n), m.xu.resize(m.n), m.gl.resize(m.m), m.gu.resize(m.m);
  for (Index i = 0; i < m.n; ++i) m.xl(i) = bound(s, -1), m.xu(i) = bound(s, 1);
  for (Index i = 0; i < m.m; ++i) {
    m.gl(i) = bound(s, -1), m.gu(i) = bound(s, 1);
    if (s.chance(1, 4)) m.gu(i) = m.gl(i);
  }
  if (m.m > 0)
    for (auto k = s.range(0, 3); k > 0; --k) m.padJ.emplace_back(s.range(0, m.m - 1), s.range(0, m.n - 1));
  for (auto k = s.range(0, 2); k > 0; --k) m.padHf.emplace_back(s.range(0, m.n - 1), s.range(0, m.n - 1));
  for (auto k = s.range(0, 2); k > 0; --k) m.padHg.emplace_back(s.range(0, m.n - 1), s.range(0, m.n - 1));
  return m;
}

/// structural pattern (dense 0/1)
inline MatrixXd jac_pattern(const Model & m)
{
  MatrixXd p = MatrixXd::Zero(m.m, m.n);
  for (Index k = 0; k < m.m; ++k)
    for (auto & t : m.g[k].t) {
      p(k, t.i) = 1;
      if (t.kind == 1 || t.kind == 2 || t.kind == 5) p(k, t.j) = 1;
    }
  for (auto [a, b] : m.padJ) p(a, b) = 1;
  return p;
}
inline void hess_pattern(const Fun & f, MatrixXd & p)
{
  for (auto & t : f.t) {
    if (t.kind >= 2) p(t.i, t.i) = 1;
    if (t.kind == 5) p(t.j, t.j) = 1;
    if (t.kind == 1 || t.kind == 2 || t.kind == 5) p(std::min(t.i, t.j), std::max(t.i, t.j)) = 1;
  }
}

/// values v on pattern p
template<typename S>
S sp(const MatrixXd & v, const MatrixXd & p, bool upper, bool compress)
{
  S r(v.rows(), v.cols());
  for (Index i = 0; i < v.rows(); ++i)
    for (Index j = upper ? i : 0; j < v.cols(); ++j)
      if (p(i, j) != 0) r.insert(i, j) = v(i, j);
  if (compress) r.makeCompressed();
  return r;
}

/// The program by value, column-major.
struct Nlp
{
  std::shared_ptr<const Model> p;
  bool compress = true;
  MatrixXd pj, pf, pg;

  explicit Nlp(std::shared_ptr<const Model> q, bool c = true) : p(q), compress(c)
  {
    pj = jac_pattern(*p);
    pf = pg = MatrixXd::Zero(p->n, p->n);
    hess_pattern(p->f, pf);
    for (auto & g : p->g) hess_pattern(g, pg);
    for (auto [a, b] : p->padHf) pf(std::min(a, b), std::max(a, b)) = 1;
    for (auto [a, b] : p->padHg) pg(std::min(a, b), std::max(a, b)) = 1;
  }

  std::size_t n() const { return static_cast<std::size_t>(p->n); }
  std::size_t m() const { return static_cast<std::size_t>(p->m); }
  VectorXd xl() const { return p->xl; }
  VectorXd xu() const { return p->xu; }
  VectorXd gl() const { return p->gl; }
  VectorXd gu() const { return p->gu; }
  double f(const VectorXd & x) const { return p->f.val(x); }
  SC df_dx(const VectorXd & x) const
  {
    const MatrixXd g = p->f.grad(x).transpose();
    SC r             = g.sparseView();
    if (!compress) r.uncompress();
    return r;
  }
  VectorXd g(const VectorXd & x) const { return p->gval(x); }
  SC dg_dx(const VectorXd & x) const { return sp<SC>(p->jac(x), pj, false, compress); }
};

/// ... with second derivatives
struct HNlp : Nlp
{
  using Nlp::Nlp;
  SC d2f_dx2(const VectorXd & x) const { return sp<SC>(p->f.hess(x), pf, true, compress); }
  SC d2g_dx2(const VectorXd & x, const VectorXd & l) const { return sp<SC>(p->ghess(x, l), pg, true, compress); }
};

/// ... with references to internal storage, non-const members, other index types and row-major Jacobians
struct RefNlp
{
  HNlp b;
  VectorXd xl_, xu_, gl_, gu_, g_;
  SR j_;
  SC df_, hf_, hg_;

  explicit RefNlp(std::shared_ptr<const Model> q, bool c = true)
      : b(q, c), xl_(q->xl), xu_(q->xu), gl_(q->gl), gu_(q->gu)
  {}
  int n() { return static_cast<int>(b.p->n); }
  long m() { return static_cast<long>(b.p->m); }
  const VectorXd & xl() { return xl_; }
  const VectorXd & xu() { return xu_; }
  const VectorXd & gl() { return gl_; }
  const VectorXd & gu() { return gu_; }
  double f(const Eigen::Ref<const VectorXd> & x) { return b.f(x); }
  const SC & df_dx(const Eigen::Ref<const VectorXd> & x) { return df_ = b.df_dx(x); }
  const VectorXd & g(const Eigen::Ref<const VectorXd> & x) { return g_ = b.g(x); }
  const SR & dg_dx(const Eigen::Ref<const VectorXd> & x)
  {
    j_ = sp<SR>(b.p->jac(x), b.pj, false, b.compress);
    return j_;
  }
  const SC & d2f_dx2(const Eigen::Ref<const VectorXd> & x) { return hf_ = b.d2f_dx2(x); }
  const SC & d2g_dx2(const Eigen::Ref<const VectorXd> & x, const Eigen::Ref<const VectorXd> & l) { return hg_ = b.d2g_dx2(x, l); }
};

template<typename V>
std::string vec(const V & v)
{
  std::ostringstream ss;
  ss.precision(9);
  ss << "[";
  for (Index i = 0; i < v.size(); ++i) ss << (i ? " " : "") << v(i);
  ss << "]";
  return ss.str();
}
inline std::string show(const Fun & f)
{
  static const char * k[] = {"x%", "x%*x&", "x%^2*x&", "sin(x%)", "exp(x%/4)", "x%*cos(x&)", "x%^2"};
  std::ostringstream ss;
  ss.precision(6);
  ss << f.c0;
  for (auto & t : f.t) {
    ss << " + " << t.c << "*";
    for (const char * c = k[t.kind]; *c; ++c) {
      if (*c == '%')
        ss << t.i;
      else if (*c == '&')
        ss << t.j;
      else
        ss << *c;
    }
  }
  return ss.str();
}
inline void note(eng::Src & s, const Model & m)
{
  s.note("n", m.n).note("f", show(m.f)).note("x", "in " + vec(m.xl) + ".." + vec(m.xu));
  for (Index k = 0; k < m.m; ++k) s.note(eng::cat("g", k), eng::cat(show(m.g[k]), " in ", m.gl(k), "..", m.gu(k)));
}

}  // namespace ng
