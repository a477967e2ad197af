#include "L03.hpp"
PROP(SO3_R1, 2) { l03::check<smooth::SO3<double>, lg::V1, 2, 1, 1>(s); }
PROP(SO2_SO2, 1) { l03::check<smooth::SO2<double>, smooth::SO2<double>, 1, 1, 1>(s); }
