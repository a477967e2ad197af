#include "qpgen.hpp"
using namespace qpg;

const eng::CheckInfo eng::check_info{
  "Q06",
  "cases: histories of up to 24 operations (construct, analyze, solve cold / with a foreign warm start / with the object's own solution, copy "
  "construct, copy assign, move construct, move assign, self-assign) over a pool of up to 4 solver objects of one representation and up to 3 "
  "problem structures; after every solve the result is compared with a fresh solver, after every operation all solutions with a model; "
  "non-trivial: some object solved at least two problems, at least one of them after a copy, move or re-analysis",
  60000,
  1500000,
  {"problems solved by an object have exactly the sparsity structure it analyzed (stored zeros count as structure)"}};

namespace {

struct Structure
{
  Index m, n;
  Eigen::MatrixXi maskP, maskA;
};

Structure structure(eng::Src & s, const RepInfo & r)
{
  Structure st;
  st.n     = r.N > 0 ? r.N : s.range(1, 5);
  st.m     = r.M > 0 ? r.M : s.range(0, 5);
  st.maskP = Eigen::MatrixXi::Zero(st.n, st.n);
  st.maskA = Eigen::MatrixXi::Zero(st.m, st.n);
  for (Index i = 0; i < st.n; ++i) {
    st.maskP(i, i) = !s.chance(1, 8);
    for (Index j = 0; j < i; ++j) st.maskP(i, j) = st.maskP(j, i) = s.chance(1, 3);
    for (Index j = 0; j < st.m; ++j) st.maskA(j, i) = s.chance(1, 2);
  }
  return st;
}

/// problem with that structure
QPData problem(eng::Src & s, const Structure & st)
{
  QPData d;
  d.P = MatrixXd::Zero(st.n, st.n);
  for (Index i = 0; i < st.n; ++i) {
    for (Index j = 0; j < i; ++j)
      if (st.maskP(i, j)) d.P(i, j) = d.P(j, i) = s.real(0.5);
  }
  for (Index i = 0; i < st.n; ++i)
    if (st.maskP(i, i)) d.P(i, i) = s.unif(0.2, 2) + d.P.row(i).cwiseAbs().sum();
  for (Index i = 0; i < st.n; ++i)  // keep it psd
    if (!st.maskP(i, i)) d.P.row(i).setZero(), d.P.col(i).setZero();
  d.A = MatrixXd::Zero(st.m, st.n);
  for (Index i = 0; i < st.m; ++i)
    for (Index j = 0; j < st.n; ++j)
      if (st.maskA(i, j)) d.A(i, j) = coef(s);
  const VectorXd x = vec(s, st.n), z = d.A * x;
  VectorXd y = VectorXd::Zero(st.m);
  d.l.resize(st.m);
  d.u.resize(st.m);
  for (Index i = 0; i < st.m; ++i) {
    const auto k   = row_kind(s);
    const int act  = static_cast<int>(s.range(-1, 1));
    const double g = s.logunif(0.1, 4);
    d.l(i)         = k == Row::Eq ? z(i) : (k == Row::Upper || k == Row::Free) ? -kInf : (act < 0 ? z(i) : z(i) - g);
    d.u(i)         = k == Row::Eq ? z(i) : (k == Row::Lower || k == Row::Free) ? kInf : (act > 0 ? z(i) : z(i) + g);
    if (k == Row::Eq || (k != Row::Free && ((act < 0 && d.l(i) != -kInf) || (act > 0 && d.u(i) != kInf)))) y(i) = act * s.logunif(0.1, 2);
  }
  if (st.m > 0 && s.chance(1, 8)) {
    const auto i = static_cast<Index>(s.draw(static_cast<uint64_t>(st.m)));
    d.l(i) = 1, d.u(i) = -1;
  }
  d.q = -(d.P * x + d.A.transpose() * y);
  if (s.chance(1, 6)) d.q = vec(s, st.n);
  return d;
}

struct Slot
{
  std::unique_ptr<AnySolver> obj;
  QPSolverParams prm;
  int st = -1;                  // analyzed structure
  std::optional<QPResult> last; // result of the latest solve, if sol() is specified
  bool touched = false;         // copied / moved / re-analyzed
  int solves   = 0;
};

bool eq(const QPResult & a, const QPResult & b, double tol)
{
  if (a.code != b.code || a.iter != b.iter || a.x.size() != b.x.size() || a.y.size() != b.y.size()) return false;
  const auto near = [&](double p, double q, double sc) { return p == q || (std::isnan(p) && std::isnan(q)) || std::fabs(p - q) <= tol * (1e-3 + sc); };
  for (Index i = 0; i < a.x.size(); ++i)
    if (!near(a.x(i), b.x(i), ninf(b.x))) return false;
  for (Index i = 0; i < a.y.size(); ++i)
    if (!near(a.y(i), b.y(i), ninf(b.y))) return false;
  return near(a.objective, b.objective, 1 + std::fabs(b.objective));
}

}  // namespace

PROP(history, 1)
{
  const auto rep   = s.weighted({3, 5, 1, 1, 1, 1, 1, 1});
  const auto & ri  = all_reps()[rep];
  const auto proto = ri.make();
  std::vector<Structure> sts;
  for (int i = 0; i < 3; ++i) sts.push_back(structure(s, ri));
  std::vector<Slot> pool;
  std::string & log = s.notes;
  (void)log;
  s.note("rep", ri.name);
  for (const auto & st : sts) s.note("structure", eng::cat(st.m, "x", st.n, " P=", show(st.maskP), " A=", show(st.maskA)));

  const auto lay = [&](const Structure & st) {
    Layout lo;
    lo.lower      = static_cast<int>(s.weighted({3, 1, 1}));
    lo.compressed = !s.chance(1, 4);
    lo.maskP      = st.maskP;
    lo.maskA      = st.maskA;
    return lo;
  };
  const auto rnd_params = [&] {
    auto p     = params(s, 1e-5);
    p.max_iter = static_cast<uint32_t>(s.pick({300, 40, 2000, 3}));
    return p;
  };
  const auto rnd_slot = [&]() -> std::size_t { return s.draw(pool.size()); };

  const auto n_ops = s.range(2, 24);
  bool nt          = false;
  for (int op = 0; op < n_ops; ++op) {
    const auto what = pool.empty() ? 0 : s.weighted({2, 2, 10, 2, 2, 1, 1, 2});
    switch (what) {
    case 0: {  // construct
      if (pool.size() >= 4) pool.erase(pool.begin());
      Slot sl;
      sl.prm = rnd_params();
      if (s.coin()) {
        sl.st    = static_cast<int>(s.draw(sts.size()));
        const auto d = problem(s, sts[static_cast<std::size_t>(sl.st)]);
        sl.obj   = proto->fresh(d, lay(sts[static_cast<std::size_t>(sl.st)]), sl.prm);
      } else {
        sl.obj = proto->fresh(sl.prm);
      }
      s.note("op", eng::cat("construct st=", sl.st, " ", show(sl.prm)));
      pool.push_back(std::move(sl));
      break;
    }
    case 1: {  // analyze
      auto & sl    = pool[rnd_slot()];
      sl.touched   = sl.touched || sl.solves > 0;
      sl.st        = static_cast<int>(s.draw(sts.size()));
      const auto & st = sts[static_cast<std::size_t>(sl.st)];
      sl.obj->analyze(problem(s, st), lay(st));
      sl.last.reset();
      s.cls("op analyze");
      s.note("op", eng::cat("analyze ", &sl - pool.data(), " st=", sl.st));
      break;
    }
    case 2: {  // solve
      const auto i = rnd_slot();
      auto & sl    = pool[i];
      if (sl.st < 0) {  // must be analyzed first
        sl.st           = static_cast<int>(s.draw(sts.size()));
        const auto & st = sts[static_cast<std::size_t>(sl.st)];
        sl.obj->analyze(problem(s, st), lay(st));
      }
      const auto & st = sts[static_cast<std::size_t>(sl.st)];
      const auto d    = problem(s, st);
      const auto lo   = lay(st);
      auto ref        = proto->fresh(d, lo, sl.prm);
      QPResult got, want;
      const auto wk = s.weighted({4, 2, 2});
      if (wk == 1) {
        QPResult w;
        w.x  = vec(s, st.n, 3);
        w.y  = vec(s, st.m, 3);
        got  = sl.obj->solve(d, lo, &w);
        want = ref->solve(d, lo, &w);
        s.cls("solve warm");
      } else if (wk == 2 && sl.last) {
        const QPResult w = *sl.last;
        got              = sl.obj->solve_warm_self(d, lo);
        want             = ref->solve(d, lo, &w);
        s.cls("solve warm self");
      } else {
        got  = sl.obj->solve(d, lo, nullptr);
        want = ref->solve(d, lo, nullptr);
        s.cls("solve cold");
      }
      s.note("op", eng::cat("solve ", i, " st=", sl.st, " warm=", wk, " qp=", show(d)));
      s.cls(std::string("code ") + code_name(got.code));
      s.require(!got.input_modified, "input-modified", "solve modified its input");
      s.require(eq(got, want, 1e-6), "differs-from-fresh",
        [&] { return eng::cat("object ", i, ": ", show(got), " fresh solver: ", show(want)); });
      sl.last = got;
      ++sl.solves;
      if (sl.solves > 1 && sl.touched) nt = true;
      break;
    }
    case 3: {  // copy construct
      Slot sl;
      const auto j   = rnd_slot();
      const auto & o = pool[j];
      sl.obj         = o.obj->clone();
      sl.prm = o.prm, sl.st = o.st, sl.last = o.last, sl.solves = o.solves;
      sl.touched = true;
      s.cls("op copy construct");
      s.note("op", eng::cat("copy of ", j));
      if (pool.size() >= 4) pool.erase(pool.begin());
      pool.push_back(std::move(sl));
      break;
    }
    case 4: {  // copy assign (maybe to itself)
      const auto i = rnd_slot(), j = rnd_slot();
      pool[i].obj->assign(*pool[j].obj);
      pool[i].prm = pool[j].prm, pool[i].st = pool[j].st, pool[i].last = pool[j].last;
      pool[i].touched = true;
      pool[i].solves  = pool[j].solves;
      s.cls(i == j ? "op self assign" : "op copy assign");
      s.note("op", eng::cat("assign ", i, " = ", j));
      break;
    }
    case 5: {  // move construct; the source must be analyzed again
      const auto j = rnd_slot();
      Slot sl;
      sl.obj = pool[j].obj->move_out();
      sl.prm = pool[j].prm, sl.st = pool[j].st, sl.last = pool[j].last, sl.solves = pool[j].solves;
      sl.touched = true;
      pool[j].st = -1;
      pool[j].last.reset();
      pool[j].touched = true;
      s.cls("op move construct");
      s.note("op", eng::cat("move from ", j));
      if (pool.size() >= 4) pool.erase(pool.begin());
      pool.push_back(std::move(sl));
      break;
    }
    case 6: {  // move assign
      const auto i = rnd_slot(), j = rnd_slot();
      if (i == j) break;
      pool[i].obj->move_assign(std::move(*pool[j].obj));
      pool[i].prm = pool[j].prm, pool[i].st = pool[j].st, pool[i].last = pool[j].last, pool[i].solves = pool[j].solves;
      pool[i].touched = true;
      pool[j].st      = -1;
      pool[j].last.reset();
      pool[j].touched = true;
      s.cls("op move assign");
      s.note("op", eng::cat("move assign ", i, " = ", j));
      break;
    }
    default: {  // destroy
      const auto i = rnd_slot();
      pool.erase(pool.begin() + static_cast<std::ptrdiff_t>(i));
      s.note("op", eng::cat("destroy ", i));
      break;
    }
    }
    for (std::size_t i = 0; i < pool.size(); ++i) {
      if (!pool[i].last) continue;
      const auto now = pool[i].obj->sol();
      s.require(eq(now, *pool[i].last, 0), "sol-accessor", [&] { return eng::cat("object ", i, " sol() = ", show(now), " latest solve: ", show(*pool[i].last)); });
    }
  }
  if (nt) s.nontrivial();
}
