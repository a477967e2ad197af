#include "M02.hpp"

const eng::CheckInfo eng::check_info{
  "M02",
  "cases: smooth functions with dense, sparse or no analytic derivatives over 7 combinations of dimensions, meshes over 3 degree ranges, points, "
  "multipliers, and 1-3 uses of the same output buffers; values, first and multiplier-weighted second derivatives are compared with dense "
  "matrices assembled from the definition by the chain rule; on Lie groups values and first derivatives only; non-trivial: more than one interval",
  40000,
  1500000,
  {"the Lie-group library is a stand-in (shim/smooth)", "second derivatives are compared through their upper triangle, the part that is filled"}};

PROP(R2_R1_R2, 4) { m02::run<2, 2, 1>(s, m02::mesh<2, 5>(s, 12)); }
PROP(R1_R2_R1, 2) { m02::run<1, 1, 2>(s, m02::mesh<1, 3>(s, 10)); }
PROP(R1_R1_R1, 2) { m02::run<1, 1, 1>(s, m02::mesh<1, 3>(s, 10)); }
