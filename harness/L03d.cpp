#include "L03.hpp"
PROP(bundle_SO3, 1) { l03::check<lg::BSV, smooth::SO3<double>, 1, 2, 1>(s); }
PROP(R1_SE2, 1) { l03::check<lg::V1, smooth::SE2<double>, 1, 1, 1>(s); }
