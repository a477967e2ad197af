#include "L03.hpp"
PROP(SE3_R2, 1) { l03::check<smooth::SE3<double>, lg::V2, 1, 1, 2>(s); }
