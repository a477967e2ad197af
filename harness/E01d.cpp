#include "E01.hpp"

PROP(SE2, 3) { steppers<smooth::SE2<double>>(s); }
