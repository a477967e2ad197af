#include "L04.hpp"
PROP(SE2_R2, 1) { l04::check<smooth::SE2<double>, lg::V2, 1, 1, 2>(s); }
