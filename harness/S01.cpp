#include <smooth/feedback/utils/sparse.hpp>

#include "spgen.hpp"
using namespace spg;
using namespace smooth::feedback;

const eng::CheckInfo eng::check_info{
  "S01",
  "cases: sequences of 1-8 block operations (block_add, block_write, block_add_identity, block_write_identity; scale, upper_only, offsets) "
  "with 12 kinds of sources (dense, sparse of either order, blocks, products, transposes, scaled expressions) on a sparse destination of "
  "either order, compressed or not, with random recompression in between; after each operation the destination is compared with a dense "
  "model; non-trivial: an operation addressed at least one entry",
  300000,
  8000000,
  {"entries that a sparse source does not store are not addressed by a write (the write may leave or zero them)"}};

namespace {

template<int Opt>
void history(eng::Src & s)
{
  using D       = Eigen::SparseMatrix<double, Opt>;
  const Index R = s.range(1, 8), C = s.range(1, 8);
  Model m = model(s, R, C);
  D dest  = build<D>(m, static_cast<int>(s.range(0, 2)));
  s.note("dest", show(m)).note("order", Opt == Eigen::RowMajor ? "row" : "col").note("compressed", dest.isCompressed());

  const auto n = s.range(1, 8);
  for (int op = 0; op < n; ++op) {
    if (s.chance(1, 5)) {
      if (dest.isCompressed())
        dest.uncompress();
      else
        dest.makeCompressed();
    }
    const auto kind    = s.weighted({4, 4, 1, 1});
    const double scale = s.weighted({1, 1}) ? value(s) : 1.;
    const bool upper   = s.chance(1, 3);
    Model want         = m;
    MatrixXi maybe     = MatrixXi::Zero(R, C);  // entries that may also become zero
    MatrixXd mag       = m.v.cwiseAbs();
    bool hit           = false;
    std::string what;
    if (kind >= 2) {  // identity
      const Index r0 = s.range(0, R), c0 = s.range(0, C);
      const Index k  = s.range(0, std::min(R - r0, C - c0));
      const bool def = scale == 1 && s.coin();
      for (Index i = 0; i < k; ++i) {
        auto & e = want.v(r0 + i, c0 + i);
        mag(r0 + i, c0 + i) += std::fabs(scale);
        e                       = kind == 2 ? e + scale : scale;
        want.p(r0 + i, c0 + i) = 2;
        hit                    = true;
      }
      what = eng::cat(kind == 2 ? "block_add_identity(" : "block_write_identity(", r0, ",", c0, ",", k, ",", scale, ")");
      s.note("op", what);
      if (kind == 2) {
        def ? block_add_identity(dest, r0, c0, k) : block_add_identity(dest, r0, c0, k, scale);
      } else {
        def ? block_write_identity(dest, r0, c0, k) : block_write_identity(dest, r0, c0, k, scale);
      }
    } else {
      const Index r = s.range(0, R), c = s.range(0, C);
      const Index r0 = s.range(0, R - r), c0 = s.range(0, C - c);
      const auto sk = s.draw(12);
      Model src     = model(s, r, c);
      const int fr  = static_cast<int>(s.range(0, 1)) * 2;
      // surrounding matrix for block sources
      const Index pr = s.range(0, 2), pc = s.range(0, 2);
      Model big      = model(s, r + pr + 1, c + pc + 1);
      const bool sparse_src = sk >= 4;
      const bool is_block   = sk == 2 || sk == 6 || sk == 7 || sk == 8;
      const auto apply      = [&](const auto & e) {
        static const char * names[] = {"dense", "dense row-major", "dense block", "dense expression", "sparse", "sparse row-major",
          "middleCols", "middleRows", "sparse block", "sparse transpose", "scaled sparse", "sparse product"};
        what = eng::cat(kind == 0 ? "block_add(" : "block_write(", r0, ",", c0, ", ", names[sk], " ", show(src), ", ", scale, ", upper=", upper, ")");
        s.note("op", what);
        s.cls(std::string("source ") + names[sk]);
        if (kind == 0) {
          if (scale == 1 && !upper)
            block_add(dest, r0, c0, e);
          else
            block_add(dest, r0, c0, e, scale, upper);
        } else {
          if (scale == 1 && !upper)
            block_write(dest, r0, c0, e);
          else
            block_write(dest, r0, c0, e, scale, upper);
        }
      };
      if (is_block) {
        src.v = big.v.block(pr, pc, r, c);
        src.p = big.p.block(pr, pc, r, c);
      }
      if (!sparse_src) src.p.setOnes();
      // expected result
      const auto expect = [&](double f, const Model & sm) {
        for (Index i = 0; i < r; ++i)
          for (Index j = 0; j < c; ++j) {
            if (upper && r0 + i > c0 + j) continue;
            auto & e       = want.v(r0 + i, c0 + j);
            const double v = scale * f * sm.v(i, j);
            if (!sm.p(i, j)) {
              if (kind == 1) maybe(r0 + i, c0 + j) = 1;
              want.p(r0 + i, c0 + j) = 2;
              continue;
            }
            hit                    = true;
            mag(r0 + i, c0 + j) += std::fabs(v);
            e                      = kind == 0 ? e + v : v;
            want.p(r0 + i, c0 + j) = 2;  // may or may not be stored if zero
          }
      };
      using SC = Eigen::SparseMatrix<double>;
      using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>;
      switch (sk) {
      case 0: expect(1, src); apply(src.v); break;
      case 1: {
        expect(1, src);
        const Eigen::Matrix<double, -1, -1, Eigen::RowMajor> d = src.v;
        apply(d);
        break;
      }
      case 2: expect(1, src); apply(big.v.block(pr, pc, r, c)); break;
      case 3: expect(2, src); apply(2 * src.v); break;
      case 4: expect(1, src); apply(build<SC>(src, fr)); break;
      case 5: expect(1, src); apply(build<SR>(src, fr)); break;
      case 6: {
        Model b = model(s, r, c + pc + 1);
        src.v = b.v.middleCols(pc, c), src.p = b.p.middleCols(pc, c);
        expect(1, src);
        const auto S = build<SC>(b, fr);
        apply(S.middleCols(pc, c));
        break;
      }
      case 7: {
        Model b = model(s, r + pr + 1, c);
        src.v = b.v.middleRows(pr, r), src.p = b.p.middleRows(pr, r);
        expect(1, src);
        if (s.coin()) {
          const auto S = build<SR>(b, fr);
          apply(S.middleRows(pr, r));
        } else {
          const auto S = build<SC>(b, fr);
          apply(S.middleRows(pr, r));
        }
        break;
      }
      case 8: {
        expect(1, src);
        if (s.coin()) {
          const auto S = build<SC>(big, fr);
          apply(S.block(pr, pc, r, c));
        } else {
          const auto S = build<SR>(big, fr);
          apply(S.block(pr, pc, r, c));
        }
        break;
      }
      case 9: {
        Model t{src.v.transpose(), src.p.transpose()};
        expect(1, src);
        const auto S = build<SC>(t, fr);
        apply(S.transpose());
        break;
      }
      case 10: {
        expect(-3, src);
        const auto S = build<SC>(src, fr);
        apply(-3 * S);
        break;
      }
      default: {
        const Index k = s.range(1, 3);
        Model a = model(s, r, k), b = model(s, k, c);
        src.v = a.v * b.v;
        src.p = a.p * b.p;
        expect(1, src);
        for (Index i = 0; i < r; ++i)
          for (Index j = 0; j < c; ++j)
            if (!upper || r0 + i <= c0 + j) mag(r0 + i, c0 + j) += std::fabs(scale) * a.v.row(i).cwiseAbs().dot(b.v.col(j).cwiseAbs());
        const auto A = build<SC>(a, fr);
        const auto B = build<SC>(b, 0);
        apply(A * B);
      }
      }
    }
    s.require(dest.rows() == R && dest.cols() == C, "dimensions", [&] { return "dimensions changed by " + what; });
    const Model got = read(dest);
    for (Index i = 0; i < R; ++i)
      for (Index j = 0; j < C; ++j) {
        const bool ok = near(got.v(i, j), want.v(i, j), mag(i, j)) || (maybe(i, j) && got.v(i, j) == 0);
        s.require(ok, "value", [&] { return eng::cat(what, ": entry (", i, ",", j, ") is ", got.v(i, j), ", should be ", want.v(i, j)); });
        s.require(got.p(i, j) <= 1, "duplicate", [&] { return eng::cat(what, ": entry stored twice at ", i, ",", j); });
        s.require(want.p(i, j) == 2 || got.p(i, j) == m.p(i, j), "pattern",
          [&] { return eng::cat(what, ": entry (", i, ",", j, ") is not addressed but its storage changed"); });
      }
    m = got;
    if (hit) s.nontrivial();
  }
}

}  // namespace

PROP(col_major, 2) { history<Eigen::ColMajor>(s); }
PROP(row_major, 1) { history<Eigen::RowMajor>(s); }
