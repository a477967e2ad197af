#include "A01.hpp"

PROP(build_SE2_R2, 2) { build<smooth::SE2<double>, V2, 1>(s); }
PROP(build_SO3_R3, 1) { build<smooth::SO3<double>, V3, 2>(s); }
PROP(filter_SE2_R2, 2) { filter<smooth::SE2<double>, V2, 1>(s); }
