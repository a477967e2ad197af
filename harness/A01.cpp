#include "A01.hpp"

const eng::CheckInfo eng::check_info{
  "A01",
  "cases: systems, barriers, backup controllers, grids, bounds and weights over 7 combinations of state and input spaces. Construction: all "
  "rows of the QP compared with the barrier inequality evaluated along an independently integrated backup trajectory (sensitivity by "
  "differencing its flow), exactly for constant-drift and affine systems. Filter: histories of 1-5 calls compared with the minimizer found "
  "by enumerating active sets. Non-trivial: a barrier row beyond the first depends on the input, or the filter had to change the input",
  20000,
  600000,
  {"the Lie-group library is a stand-in (shim/smooth) with numerical derivatives accurate to about 1e-9",
   "filter solutions are compared to within 2e-3 of the minimizer"}};

PROP(build_R2_R1, 3) { build<V2, V1, 1>(s); }
PROP(build_R1_R2, 2) { build<V1, V2, 2>(s); }
PROP(filter_R2_R1, 3) { filter<V2, V1, 1>(s); }
PROP(filter_R2_R2, 3) { filter<V2, V2, 2>(s); }
