// Type-erased access to the QP solver under test, for all problem representations.
#pragma once

#include <memory>
#include <optional>
#include <string>

#include <Eigen/Core>

#include <smooth/feedback/qp_solver.hpp>

using smooth::feedback::QPSolutionStatus;
using smooth::feedback::QPSolverParams;

/// A QP: min 1/2 x'Px + q'x  s.t.  l <= Ax <= u, with P stored symmetric.
struct QPData
{
  Eigen::MatrixXd P;
  Eigen::VectorXd q;
  Eigen::MatrixXd A;
  Eigen::VectorXd l, u;
  Eigen::Index n() const { return A.cols(); }
  Eigen::Index m() const { return A.rows(); }
};

/// How a QPData is laid out when passed to the solver.
struct Layout
{
  int lower = 0;            // strictly lower triangle of P: 0 symmetric, 1 absent/zero, 2 garbage
  double garbage = 3;       // magnitude of garbage
  bool compressed = true;   // sparse storage mode
  Eigen::MatrixXi maskP{}, maskA{};  // sparse: entries stored even if zero (empty: none)
};

struct QPResult
{
  QPSolutionStatus code{QPSolutionStatus::Unknown};
  uint32_t iter{0};
  Eigen::VectorXd x, y;
  double objective{0};
  bool input_modified{false};
};

/// A solver object of some representation.
struct AnySolver
{
  virtual ~AnySolver()                                                                                      = default;
  virtual void analyze(const QPData &, const Layout &)                                                      = 0;
  virtual QPResult solve(const QPData &, const Layout &, const QPResult * warm)                             = 0;
  virtual QPResult solve_warm_self(const QPData &, const Layout &)                                          = 0;  // warm start = own sol()
  virtual QPResult sol() const                                                                              = 0;
  virtual std::unique_ptr<AnySolver> clone() const                                                          = 0;
  virtual std::unique_ptr<AnySolver> move_out()                                                             = 0;
  virtual void assign(const AnySolver &)                                                                    = 0;
  virtual void move_assign(AnySolver &&)                                                                    = 0;
  /// new default-constructed solver with these parameters
  virtual std::unique_ptr<AnySolver> fresh(const QPSolverParams &) const                                    = 0;
  /// new solver constructed from problem
  virtual std::unique_ptr<AnySolver> fresh(const QPData &, const Layout &, const QPSolverParams &) const    = 0;
  /// the one-off function
  virtual QPResult solve_once(const QPData &, const Layout &, const QPSolverParams &, const QPResult *) const = 0;
};

struct RepInfo
{
  std::string name;
  bool sparse;
  int M, N;  // static sizes or -1
  std::unique_ptr<AnySolver> (*make)();
};

/// All linked representations (index 0: dense dynamic, 1: sparse).
const std::vector<RepInfo> & all_reps();

inline const char * code_name(QPSolutionStatus c)
{
  switch (c) {
  case QPSolutionStatus::Optimal: return "Optimal";
  case QPSolutionStatus::PolishFailed: return "PolishFailed";
  case QPSolutionStatus::PrimalInfeasible: return "PrimalInfeasible";
  case QPSolutionStatus::DualInfeasible: return "DualInfeasible";
  case QPSolutionStatus::MaxIterations: return "MaxIterations";
  case QPSolutionStatus::MaxTime: return "MaxTime";
  case QPSolutionStatus::Unknown: return "Unknown";
  }
  return "?";
}
