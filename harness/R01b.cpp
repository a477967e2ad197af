#include "R01.hpp"
PROP(R1_R2_timed, 3) { r01::History<std::chrono::nanoseconds, lg::V1, 2, 2, 2, true, true, true, smooth::diff::Type::Default>(s).run(); }
