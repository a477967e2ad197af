#include "L04.hpp"

const eng::CheckInfo eng::check_info{
  "L04",
  "cases: random problems over 3 combinations of state and input spaces with right derivatives or one entry of one derivative displaced by at least 2% "
  "of its norm; the derivative test must accept exactly the former; non-trivial: a displaced entry",
  6000,
  200000,
  {"the Lie-group library is a stand-in (shim/smooth), including the numerical derivatives compared with"}};

PROP(R2_R1, 1) { l04::check<lg::V2, lg::V1, 1, 1, 2>(s); }
PROP(R1_R2, 1) { l04::check<lg::V1, lg::V2, 2, 2, 1>(s); }
