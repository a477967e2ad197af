#include "E01.hpp"

PROP(bundle, 1) { steppers<BSV>(s); }
