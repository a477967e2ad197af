#include "R01.hpp"

const eng::CheckInfo eng::check_info{
  "R01",
  "cases: histories of 1-9 operations (calls, changes of weights and references, warm-start resets, copies, moves) on up to 3 controllers of a random "
  "affine or nonlinear system on 4 state spaces, with or without time dependence and derivatives; status, input and trajectories of every call "
  "against a dense interior-point solution of the problem assembled by definition; non-trivial: running constraints active in a solution",
  4000,
  60000,
  {"the Lie-group library is a stand-in (shim/smooth)", "no claim for problems the reference solver does not solve, except that optimal plans are feasible"}};

using Sec = std::chrono::duration<double>;
PROP(R2_R1, 3) { r01::History<Sec, lg::V2, 1, 1, 4, false, false, false, smooth::diff::Type::Numerical>(s).run(); }
