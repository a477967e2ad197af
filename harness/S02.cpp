#include <smooth/feedback/utils/sparse.hpp>

#include "spgen.hpp"
using namespace spg;
using namespace smooth::feedback;

const eng::CheckInfo eng::check_info{
  "S02",
  "cases: sparse matrices (either order, compressed or with slack, explicit zeros, empty rows/columns) and inner-panel blocks / single "
  "vectors / maps of them, zeroed with set_zero or inspected with count_explicit_zeros / mark_explicit_zeros, compared with a model of "
  "stored entries; non-trivial: at least one stored entry is covered (and, for blocks, one is not)",
  400000,
  10000000,
  {}};

namespace {

template<int Opt>
void zero(eng::Src & s)
{
  using D            = Eigen::SparseMatrix<double, Opt>;
  constexpr bool col = Opt == Eigen::ColMajor;
  const Index R = s.range(0, 7), C = s.range(0, 7);
  const Model m  = model(s, R, C);
  D S            = build<D>(m, static_cast<int>(s.range(0, 2)));
  const Index O  = col ? C : R;
  const Index o0 = s.range(0, O), k = s.range(0, O - o0);
  const auto what = O == 0 ? 0 : s.weighted({3, 4, 2, 1});
  s.note("matrix", show(m)).note("order", col ? "col" : "row").note("compressed", S.isCompressed()).note("what", what).note("first", o0).note("count", k);
  const auto * vp = S.valuePtr();
  const auto cap  = S.data().allocatedSize();
  const bool comp = S.isCompressed();
  Index a = 0, b = O;  // zeroed outer range
  switch (what) {
  case 0: set_zero(S); s.cls("matrix"); break;
  case 1:
    a = o0, b = o0 + k;
    s.cls("panel");
    if constexpr (col)
      set_zero(S.middleCols(o0, k));
    else
      set_zero(S.middleRows(o0, k));
    break;
  case 2:
    a = std::min(o0, O - 1), b = a + 1;
    s.cls("single vector");
    if constexpr (col)
      set_zero(S.col(a));
    else
      set_zero(S.row(a));
    break;
  default: {
    s.cls("map");
    if (!S.isCompressed()) S.makeCompressed();
    Eigen::Map<D> M(R, C, S.nonZeros(), S.outerIndexPtr(), S.innerIndexPtr(), S.valuePtr());
    set_zero(M);
    const Model got = read(S);
    s.require(got.p == m.p && got.v.isZero(0), "map", [&] { return "after set_zero(map): " + show(got); });
    if (m.p.any()) s.nontrivial();
    return;
  }
  }
  const Model got = read(S);
  bool in = false, out = false;
  for (Index i = 0; i < R; ++i)
    for (Index j = 0; j < C; ++j) {
      const Index o  = col ? j : i;
      const bool cov = o >= a && o < b;
      if (m.p(i, j)) (cov ? in : out) = true;
      s.require(got.p(i, j) == m.p(i, j), "pattern", [&] { return eng::cat("stored entries changed at (", i, ",", j, "): ", show(got)); });
      s.require(got.v(i, j) == (cov ? 0 : m.v(i, j)), cov ? "not-zeroed" : "zeroed-outside",
        [&] { return eng::cat("entry (", i, ",", j, ") is ", got.v(i, j), " after zeroing ", a, "..", b, ": ", show(got)); });
    }
  s.require(S.valuePtr() == vp && S.data().allocatedSize() == cap && S.isCompressed() == comp, "allocation", "allocation changed by set_zero");
  if (in && (what == 0 || out)) s.nontrivial();
}

template<typename E>
void check_inspect(eng::Src & s, const E & e, const Model & m, const char * name)
{
  s.cls(name);
  uint64_t n = 0;
  MatrixXd w = MatrixXd::Zero(m.rows(), m.cols());
  for (Index i = 0; i < m.rows(); ++i)
    for (Index j = 0; j < m.cols(); ++j)
      if (m.p(i, j)) {
        w(i, j) = m.v(i, j) == 0 ? 9 : 1;
        n += m.v(i, j) == 0;
      }
  const uint64_t cnt = count_explicit_zeros(e);
  s.require(cnt == n, "count", [&] { return eng::cat(name, ": counted ", cnt, " explicit zeros in ", show(m)); });
  const auto mk = mark_explicit_zeros(e);
  s.require(mk.rows() == m.rows() && mk.cols() == m.cols(), "mark-size", "wrong size");
  s.require(mk.template cast<double>() == w, "mark", [&] { return eng::cat(name, ": marks ", spg::show(mk), " for ", show(m)); });
  if (n > 0 && n < static_cast<uint64_t>(m.p.sum())) s.nontrivial();
}

template<typename Sc, int Opt>
void inspect(eng::Src & s)
{
  using D       = Eigen::SparseMatrix<Sc, Opt>;
  const Index R = s.range(0, 7), C = s.range(0, 7);
  Model m       = model(s, R, C);
  if constexpr (std::is_integral_v<Sc>) m.v = m.v.unaryExpr([](double x) { return std::trunc(x); }).eval();
  if constexpr (std::is_floating_point_v<Sc>) {
    for (Index i = 0; i < R; ++i)
      for (Index j = 0; j < C; ++j)
        if (m.p(i, j) && s.chance(1, 12)) m.v(i, j) = s.pick({-0., 1e-30, -1e-30});
  }
  const D S = build<D>(m, static_cast<int>(s.range(0, 2)));
  s.note("matrix", show(m)).note("compressed", S.isCompressed());
  check_inspect(s, S, m, "matrix");
  const Index c0 = s.range(0, C), c = s.range(0, C - c0), r0 = s.range(0, R), r = s.range(0, R - r0);
  s.note("block", eng::cat(r0, ",", c0, ",", r, ",", c));
  check_inspect(s, S.middleCols(c0, c), Model{m.v.middleCols(c0, c), m.p.middleCols(c0, c)}, "middleCols");
  check_inspect(s, S.middleRows(r0, r), Model{m.v.middleRows(r0, r), m.p.middleRows(r0, r)}, "middleRows");
  check_inspect(s, S.block(r0, c0, r, c), Model{m.v.block(r0, c0, r, c), m.p.block(r0, c0, r, c)}, "block");
  check_inspect(s, S.transpose(), Model{m.v.transpose(), m.p.transpose()}, "transpose");
}

}  // namespace

PROP(zero_col, 3) { zero<Eigen::ColMajor>(s); }
PROP(zero_row, 3) { zero<Eigen::RowMajor>(s); }
PROP(inspect_col, 1) { inspect<double, Eigen::ColMajor>(s); }
PROP(inspect_row, 1) { inspect<double, Eigen::RowMajor>(s); }
PROP(inspect_float, 1) { inspect<float, Eigen::ColMajor>(s); }
PROP(inspect_int, 1) { inspect<int, Eigen::RowMajor>(s); }
