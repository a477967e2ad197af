#include "L03.hpp"

const eng::CheckInfo eng::check_info{
  "L03",
  "cases: random problems over 7 combinations of state and input spaces, references of constant or varying velocity with or without derivatives, 1-3 "
  "points near or on the reference; values against the original functions composed with the chart (the dynamics by following a state along the vector "
  "field), first and second derivatives against differences, bounds and unflattened solutions; non-trivial: a point off a moving reference",
  1500,
  60000,
  {"the Lie-group library is a stand-in (shim/smooth)", "accelerations of the reference are not part of the derivatives (documented)"}};

PROP(SE2_R2, 2) { l03::check<smooth::SE2<double>, lg::V2, 1, 2, 3>(s); }
PROP(R2_R1, 1) { l03::check<lg::V2, lg::V1, 1, 1, 2>(s); }
