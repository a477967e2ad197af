#include <cassert>
#include <numeric>
#include <utility>

#include <smooth/feedback/collocation/mesh.hpp>

#include <Eigen/Dense>

#include "engine.hpp"
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using smooth::feedback::Mesh;

const eng::CheckInfo eng::check_info{
  "M01",
  "cases: histories of up to 8 operations (construction, refine_ph, refine_errors, degree changes, copies) on meshes over 6 degree ranges, compared "
  "with a model partition; after them nodes, weights, differentiation and integration matrices, interval search and evaluation are checked "
  "against independently computed Legendre-Gauss-Radau rules and random piecewise polynomials of the guaranteed degrees; non-trivial: the "
  "final mesh has intervals of different lengths or degrees",
  60000,
  3000000,
  {"the node tables are those of the stand-in library (shim/smooth), checked here against Newton's method"}};

namespace {

/// Legendre-Gauss-Radau nodes and weights on [-1, 1) by Newton's method on P_{K-1} + P_K
const std::pair<VectorXd, VectorXd> & lgr(std::size_t K)
{
  static std::map<std::size_t, std::pair<VectorXd, VectorXd>> cache;
  auto & c = cache[K];
  if (c.first.size() == 0) {
    const auto eval = [&](double x, double & pkm, double & f, double & df) {
      double p0 = 1, p1 = x, d0 = 0, d1 = 1;  // P_{k-1}, P_k
      for (std::size_t k = 1; k < K; ++k) {
        const double kk = double(k);
        const double p2 = ((2 * kk + 1) * x * p1 - kk * p0) / (kk + 1), d2 = ((2 * kk + 1) * (p1 + x * d1) - kk * d0) / (kk + 1);
        p0 = p1, p1 = p2, d0 = d1, d1 = d2;
      }
      pkm = p0, f = p0 + p1, df = d0 + d1;
    };
    VectorXd x(K), w(K);
    for (std::size_t i = 0; i < K; ++i) {
      double t = -std::cos(2 * M_PI * double(i) / (2 * double(K) - 1)), p, f, df;
      if (i > 0)
        for (int it = 0; it < 60; ++it) {
          eval(t, p, f, df);
          t -= f / df;
        }
      eval(t, p, f, df);
      x(Index(i)) = i == 0 ? -1 : t;
      w(Index(i)) = i == 0 ? 2. / (double(K) * double(K)) : (1 - t) / (double(K) * double(K) * p * p);
    }
    c = {x, w};
  }
  return c;
}

struct Model
{
  std::vector<double> tau;  // interval starts
  std::vector<std::size_t> K;
  double end(std::size_t i) const { return i + 1 < tau.size() ? tau[i + 1] : 1.; }
  double len(std::size_t i) const { return end(i) - tau[i]; }
  std::size_t N() const { return std::accumulate(K.begin(), K.end(), std::size_t(0)); }
  std::string show() const
  {
    std::string r;
    for (std::size_t i = 0; i < tau.size(); ++i) r += eng::cat("[", tau[i], ":", K[i], "]");
    return r;
  }
  void split(std::size_t i, std::size_t n, std::size_t k)
  {
    const double t0 = tau[i], l = len(i);
    K[i] = k;
    for (std::size_t j = 1; j < n; ++j) {
      tau.insert(tau.begin() + long(i + j), t0 + l * double(j) / double(n));
      K.insert(K.begin() + long(i + j), k);
    }
  }
  void refine_ph(std::size_t i, std::size_t D, std::size_t Kmin, std::size_t Kmax)
  {
    if (D > Kmax || K[i] > Kmax)
      split(i, std::max<std::size_t>(2, (D + Kmin - 1) / Kmin), Kmin);
    else if (D > K[i])
      K[i] = D;
  }
};

/// polynomial in the local variable s in [-1, 1]
struct Poly
{
  VectorXd c;
  double operator()(double s, int p = 0) const
  {
    double r = 0;
    for (Index k = c.size() - 1; k >= p; --k) {
      double f = c(k);
      for (int j = 0; j < p; ++j) f *= double(k - j);
      r = r * s + f;
    }
    return r;
  }
  double integral() const
  {
    double r = 0;
    for (Index k = 0; k < c.size(); k += 2) r += 2 * c(k) / double(k + 1);
    return r;
  }
};
Poly poly(eng::Src & s, Index deg)
{
  Poly p{VectorXd(deg + 1)};
  for (Index k = 0; k <= deg; ++k) p.c(k) = s.real(1);
  return p;
}

template<typename M>
void structure(eng::Src & s, const M & m, const Model & mo, const char * when)
{
  s.require(m.N_ivals() == mo.tau.size(), "intervals", [&] { return eng::cat(when, ": ", m.N_ivals(), " intervals instead of ", mo.show()); });
  for (std::size_t i = 0; i < mo.tau.size(); ++i) {
    s.require(m.N_colloc_ival(i) == mo.K[i], "degree", [&] { return eng::cat(when, ": degree ", m.N_colloc_ival(i), " of interval ", i, " instead of ", mo.show()); });
    s.require(m.N_colloc_ival(i) >= M::Kmin && m.N_colloc_ival(i) <= M::Kmax + 1, "degree-range", "degree out of range");
    const auto nodes = m.interval_nodes(i);
    const double n0  = *std::ranges::begin(nodes);
    s.require(std::abs(n0 - mo.tau[i]) <= 1e-12, "start", [&] { return eng::cat(when, ": interval ", i, " starts at ", n0, " instead of ", mo.show()); });
  }
  s.require(m.N_colloc() == mo.N(), "count", [&] { return eng::cat(when, ": ", m.N_colloc(), " collocation points instead of ", mo.N()); });
}

template<typename M>
void content(eng::Src & s, const M & m, const Model & mo)
{
  std::vector<double> nodes, weights;
  for (std::size_t i = 0; i < mo.tau.size(); ++i) {
    const double l = mo.len(i);
    const auto K   = mo.K[i];
    const auto & [x, w] = lgr(K);
    std::vector<double> ns, ws;
    for (const double t : m.interval_nodes(i)) ns.push_back(t);
    for (const double t : m.interval_weights(i)) ws.push_back(t);
    s.require(ns.size() == K + 1 && ws.size() == K + 1, "ival-size", [&] { return eng::cat("interval ", i, " of degree ", K, " has ", ns.size(), " nodes and ", ws.size(), " weights"); });
    for (std::size_t j = 0; j < K; ++j) {
      const double t = mo.tau[i] + l * (x(Index(j)) + 1) / 2, v = w(Index(j)) * l / 2;
      s.require(std::abs(ns[j] - t) <= 1e-12, "node", [&] { return eng::cat("node ", j, " of interval ", i, " is ", ns[j], " instead of ", t); });
      s.require(std::abs(ws[j] - v) <= 1e-12 * l + 1e-15, "weight", [&] { return eng::cat("weight ", j, " of interval ", i, " is ", ws[j], " instead of ", v); });
    }
    s.require(std::abs(ns[K] - mo.end(i)) <= 1e-12 && ws[K] == 0, "end-node", [&] { return eng::cat("extra node of interval ", i, " at ", ns[K], " with weight ", ws[K]); });
    const bool last = i + 1 == mo.tau.size();
    nodes.insert(nodes.end(), ns.begin(), last ? ns.end() : ns.end() - 1);
    weights.insert(weights.end(), ws.begin(), last ? ws.end() : ws.end() - 1);

    // differentiation and integration matrices
    const Poly p = poly(s, Index(K));
    Eigen::RowVectorXd y(K + 1), dy(K);
    for (std::size_t j = 0; j <= K; ++j) y(Index(j)) = p(j < K ? x(Index(j)) : 1.);
    for (std::size_t j = 0; j < K; ++j) dy(Index(j)) = p(x(Index(j)), 1) * 2 / l;
    const MatrixXd D = m.interval_diffmat(i), I = m.interval_intmat(i);
    s.require(D.rows() == Index(K) + 1 && D.cols() == Index(K) && I.rows() == Index(K) && I.cols() == Index(K), "matrix-size", "size of differentiation or integration matrix");
    const double k2 = double(K * K);
    s.require((y * D - dy).norm() * l <= (1e-11 + 1e-15 / l) * k2 * k2 * (1 + p.c.norm()), "diffmat", [&] { return eng::cat("differentiation in interval ", i, " is off by ", (y * D - dy).norm()); });
    s.require((dy * I + Eigen::RowVectorXd::Constant(Index(K), y(0)) - y.tail(Index(K))).norm() <= (1e-10 + 1e-14 / l) * k2 * (1 + p.c.norm()), "intmat", [&] {
      return eng::cat("integration in interval ", i, " is off by ", (dy * I + Eigen::RowVectorXd::Constant(Index(K), y(0)) - y.tail(Index(K))).norm());
    });
    const auto [al, Du] = m.interval_diffmat_unscaled(i);
    s.require(Du.rows() == D.rows() && Du.cols() == D.cols() && (al * MatrixXd(Du) - D).norm() <= 1e-12 * D.norm(), "diffmat-unscaled", "scaled and unscaled differentiation matrix disagree");
  }
  std::vector<double> an, aw;
  for (const double t : m.all_nodes()) an.push_back(t);
  for (const double t : m.all_weights()) aw.push_back(t);
  const auto close = [](const std::vector<double> & a, const std::vector<double> & b) {
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](double x, double y) { return std::abs(x - y) <= 1e-13; });
  };
  s.require(close(an, nodes), "all-nodes", "all_nodes differs from the nodes of the intervals");
  s.require(close(aw, weights), "all-weights", "all_weights differs from the weights of the intervals");
  s.require(an.size() == m.N_colloc() + 1 && std::abs(an.front()) <= 1e-14 && std::abs(an.back() - 1) <= 1e-14, "ends", "nodes do not start at 0 or end at 1");
  double sum = 0;
  for (std::size_t i = 0; i + 1 < an.size(); ++i) {
    s.require(an[i] < an[i + 1], "increasing", [&] { return eng::cat("nodes ", an[i], " and ", an[i + 1]); });
    s.require(aw[i] > 0, "positive", "a weight is not positive");
    sum += aw[i];
  }
  s.require(std::abs(sum - 1) <= 1e-12, "weight-sum", [&] { return eng::cat("weights sum to ", sum); });

  // quadrature of piecewise polynomials
  {
    double q = 0, want = 0, sc = 0;
    std::size_t n = 0;
    for (std::size_t i = 0; i < mo.tau.size(); ++i) {
      const Poly p = poly(s, 2 * Index(mo.K[i]) - 2);
      for (std::size_t j = 0; j < mo.K[i]; ++j, ++n) q += aw[n] * p(2 * (an[n] - mo.tau[i]) / mo.len(i) - 1);
      want += p.integral() * mo.len(i) / 2;
      sc += p.c.norm() * mo.len(i);
    }
    s.require(std::abs(q - want) <= 1e-10 * (1 + sc), "quadrature", [&] { return eng::cat("quadrature gives ", q, " instead of ", want); });
  }

  // interval search
  for (int r = 0; r < 6; ++r) {
    double t = s.unif(0, 1);
    if (s.coin()) t = mo.tau[std::size_t(s.range(0, int64_t(mo.tau.size()) - 1))] + s.pick({0., 1e-9});
    if (s.chance(1, 8)) t = s.pick({0., 1., -0.3, 1.5});
    std::size_t want = 0;
    while (want + 1 < mo.tau.size() && mo.tau[want + 1] <= t) ++want;
    const std::size_t got = m.interval_find(t);
    s.require(got == want || (got < mo.tau.size() && std::min(std::abs(t - mo.tau[got]), std::abs(t - mo.tau[want])) < 1e-12), "find",
      [&] { return eng::cat("t = ", t, " found in interval ", got, " instead of ", want, " of ", mo.show()); });
  }

  // interpolation of continuous piecewise polynomials, and its derivatives
  {
    const bool extend = s.coin();
    const Index d     = s.range(1, 3);
    std::vector<std::vector<Poly>> ps(mo.tau.size(), std::vector<Poly>(std::size_t(d)));
    for (std::size_t i = 0; i < mo.tau.size(); ++i)
      for (Index c = 0; c < d; ++c) {
        const bool last = i + 1 == mo.tau.size();
        Poly & p        = ps[i][std::size_t(c)];
        p               = poly(s, Index(mo.K[i]) - (last && !extend ? 1 : 0));
        if (i > 0) p.c(0) += ps[i - 1][std::size_t(c)](1) - p(-1);
      }
    const Index n = Index(m.N_colloc()) + (extend ? 1 : 0);
    MatrixXd vals(d, n);
    Index at = 0;
    for (std::size_t i = 0; i < mo.tau.size(); ++i)
      for (std::size_t j = 0; j < mo.K[i]; ++j, ++at)
        for (Index c = 0; c < d; ++c) vals(c, at) = ps[i][std::size_t(c)](lgr(mo.K[i]).first(Index(j)));
    if (extend)
      for (Index c = 0; c < d; ++c) vals(c, at) = ps.back()[std::size_t(c)](1);
    const double sc = 1 + vals.norm();
    for (int r = 0; r < 3; ++r) {
      double t          = s.unif(0, 1);
      const auto p      = static_cast<std::size_t>(s.weighted({3, 2, 1}));
      if (r == 0) t = s.pick({0., 1.});
      const auto i = m.interval_find(t);
      const double l = mo.len(i), u = 2 * (t - mo.tau[i]) / l - 1;
      if (p > 0 && (std::abs(u) > 1 - 1e-9) && t > 0 && t < 1) continue;
      VectorXd want(d);
      for (Index c = 0; c < d; ++c) want(c) = ps[i][std::size_t(c)](u, int(p)) * std::pow(2 / l, double(p));
      VectorXd got;
      if (d == 2 && s.coin()) {
        std::vector<Eigen::Vector2d> v;
        for (Index c = 0; c < n; ++c) v.push_back(vals.col(c));
        got = m.template eval<Eigen::Vector2d>(t, v, p, extend);
      } else {
        got = m.template eval<VectorXd>(t, vals.colwise(), p, extend);
      }
      const double k2 = double(mo.K[i] * mo.K[i]);
      s.require((got - want).norm() <= (1e-10 + 1e-14 / l) * sc * std::pow(2 * k2 / l, double(p)) * k2, p == 0 ? "eval" : "eval-derivative",
        [&] { return eng::cat("derivative ", p, " at t = ", t, " (extend ", extend, ") is ", got.transpose(), " instead of ", want.transpose()); });
      s.cls(p == 0 ? "evaluation" : "evaluation of a derivative");
    }
  }
}

template<std::size_t Kmin, std::size_t Kmax>
void history(eng::Src & s)
{
  using M = Mesh<Kmin, Kmax>;
  M m;
  Model mo{{0.}, {Kmin}};
  s.note("degrees", eng::cat(Kmin, "..", Kmax));
  if (s.coin()) {
    const auto n = static_cast<std::size_t>(s.range(0, 6));
    const auto k = static_cast<std::size_t>(s.range(Kmin, Kmax + 1));
    s.note("mesh", eng::cat(n, "x", k));
    m  = M(n, k);
    mo = {};
    for (std::size_t i = 0; i < std::max<std::size_t>(n, 1); ++i) mo.tau.push_back(double(i) / double(std::max<std::size_t>(n, 1))), mo.K.push_back(k);
  }
  structure(s, m, mo, "construction");
  const auto nops = s.range(0, 8);
  for (int op = 0; op < nops && mo.tau.size() < 40; ++op) {
    double shortest = 1;
    for (std::size_t j = 0; j < mo.tau.size(); ++j) shortest = std::min(shortest, mo.len(j));
    if (shortest < 1e-6) break;
    const auto i = static_cast<std::size_t>(s.range(0, int64_t(mo.tau.size()) - 1));
    switch (s.weighted({4, 2, 1, 1, 2, 1})) {
    case 0: {
      const auto D = static_cast<std::size_t>(s.weighted({3, 1}) == 0 ? s.range(1, int64_t(Kmax) + 3) : s.range(1, int64_t(4 * Kmax)));
      s.note("refine_ph", eng::cat(i, ",", D));
      m.refine_ph(i, D);
      mo.refine_ph(i, D, Kmin, Kmax);
      structure(s, m, mo, "refine_ph");
      s.cls("refine_ph");
      break;
    }
    case 1: {
      const auto k = static_cast<std::size_t>(s.range(Kmin, Kmax + 1));
      s.note("set", eng::cat(i, ",", k));
      m.set_N_colloc_ival(i, k);
      mo.K[i] = k;
      break;
    }
    case 2:
      s.note("increase", 1);
      m.increase_degrees();
      for (auto & k : mo.K) k = std::min(k + 1, Kmax + 1);
      break;
    case 3:
      s.note("decrease", 1);
      m.decrease_degrees();
      for (auto & k : mo.K) k = std::max(k - 1, Kmin);
      break;
    case 4: {
      const double target = s.pick({1e-6, 1e-3, 1e-1});
      VectorXd e(mo.tau.size());
      std::vector<std::size_t> D(mo.tau.size(), 0);
      std::ostringstream es;
      for (std::size_t j = 0; j < mo.tau.size(); ++j) {
        const auto w = s.weighted({4, 3, 1});
        e(Index(j))  = w == 0 ? target * s.unif(0, 1) : target * std::exp(s.unif(0.01, w == 1 ? 4 : 20));
        es << e(Index(j)) << " ";
        if (e(Index(j)) > target) {
          const double r = std::log(e(Index(j)) / target) / std::log(double(std::max<std::size_t>(mo.K[j], 2))) + 1;
          if (std::abs(r - std::floor(r) - 0.5) < 1e-9) e(Index(j)) = target, D[j] = 0;
          else D[j] = mo.K[j] + std::size_t(std::lround(r));
        }
      }
      s.note("refine_errors", eng::cat(es.str(), "target ", target));
      if (s.coin()) {
        m.refine_errors(e, target);
      } else {
        m.refine_errors(std::vector<double>(e.begin(), e.end()), target);
      }
      const std::size_t n0 = mo.tau.size();
      for (std::size_t j = n0; j-- > 0;)
        if (D[j] > 0) mo.refine_ph(j, D[j], Kmin, Kmax);
      structure(s, m, mo, "refine_errors");
      s.cls("refine_errors");
      break;
    }
    default: {
      const M c(m);
      m = c;
      break;
    }
    }
    structure(s, m, mo, "operation");
  }
  bool same = true;
  for (std::size_t i = 0; i < mo.tau.size(); ++i) same = same && mo.K[i] == mo.K[0] && std::abs(mo.len(i) - mo.len(0)) < 1e-9;
  if (!same) s.nontrivial();
  s.cls(mo.tau.size() == 1 ? "1 interval" : mo.tau.size() < 10 ? "2-9 intervals" : "10 or more intervals");
  content(s, m, mo);
}

}  // namespace

PROP(deg_5_10, 3) { history<5, 10>(s); }
PROP(deg_2_5, 3) { history<2, 5>(s); }
PROP(deg_1_3, 2) { history<1, 3>(s); }
PROP(deg_3_3, 1) { history<3, 3>(s); }
PROP(deg_4_6, 2) { history<4, 6>(s); }
PROP(deg_12_14, 1) { history<12, 14>(s); }
