#include "R01.hpp"
PROP(SO3_R1_timed, 1) { r01::History<std::chrono::nanoseconds, smooth::SO3<double>, 1, 1, 4, true, false, false, smooth::diff::Type::Numerical>(s).run(); }
