#include "L01.hpp"

const eng::CheckInfo eng::check_info{
  "L01",
  "cases: optimal control problems with affine, quadratic and transcendental functions whose derivatives are dense, sparse, mixed or absent, over 4 "
  "combinations of dimensions and random meshes; random sequences of queries of the NLP (and copies) at random points and multipliers compared with "
  "dense assembly by definition; conversions of random solutions to trajectories, back, and onto refined meshes; non-trivial: more than one interval",
  8000,
  400000,
  {"the Lie-group library is a stand-in (shim/smooth)", "rows may carry positive factors (measured, then required to be consistent in values, bounds and all derivatives)",
   "Hessians are compared through their upper triangle, the part that the NLP interface defines"}};

using enum l01::Kind;
PROP(dense_2_1, 3) { l01::run<2, 1, 1, 2, 3, Dense, Dense, Dense, Dense, Dense, smooth::diff::Type::Analytic>(s, m02::mesh<2, 5>(s, 7)); }
