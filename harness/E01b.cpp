#include "E01.hpp"

PROP(R4, 2) { steppers<V4>(s); }
PROP(SO2, 1) { steppers<smooth::SO2<double>>(s); }
