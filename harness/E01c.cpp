#include "E01.hpp"

PROP(SO3, 3) { steppers<smooth::SO3<double>>(s); }
PROP(fusion_group, 1) { fusion<smooth::SE2<double>>(s); }
