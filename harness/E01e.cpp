#include "E01.hpp"

PROP(SE3, 1) { steppers<smooth::SE3<double>>(s); }
