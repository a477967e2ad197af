#include "R01.hpp"
using Sec = std::chrono::duration<double>;
PROP(SE2_R2, 2) { r01::History<Sec, smooth::SE2<double>, 2, 2, 3, false, false, true, smooth::diff::Type::Analytic>(s).run(); }
