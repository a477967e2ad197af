#include "A01.hpp"

PROP(build_bundle_R2, 1) { build<BVS, V2, 2>(s); }
PROP(build_R2_SO2, 1) { build<V2, smooth::SO2<double>, 1>(s); }
PROP(filter_SO3_R3, 1) { filter<smooth::SO3<double>, V3, 1>(s); }
PROP(filter_R2_SO2, 1) { filter<V2, smooth::SO2<double>, 2>(s); }
