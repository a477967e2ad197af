#include "L02.hpp"

const eng::CheckInfo eng::check_info{
  "L02",
  "cases: linear-quadratic and nonlinear problems with dense, sparse or no derivatives over 3 combinations of dimensions and on 2 groups, random "
  "references, horizons and meshes; the quadratic program after 1-4 complete or partial transcriptions into the same storage is compared with the "
  "second-order model assembled by definition; for linear-quadratic problems also its values at random deviations with the collocated problem; "
  "trajectories of random solutions; non-trivial: more than one interval",
  8000,
  300000,
  {"the Lie-group library is a stand-in (shim/smooth)", "the end cost is affine in the (single) integral and end constraints do not depend on it",
   "on groups the cost has vanishing residual on the reference"}};

using enum l01::Kind;
PROP(dense_2_1, 3) { l02::flat<2, 1, 2, 3, Dense, smooth::diff::Type::Analytic>(s, m02::mesh<2, 5>(s, 7), m02::mesh<2, 5>(s, 7)); }
