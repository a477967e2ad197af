#include "L02.hpp"
PROP(SE2, 1) { l02::group<smooth::SE2<double>, 1, 1>(s, m02::mesh<2, 5>(s, 6)); }
PROP(SO3, 1) { l02::group<smooth::SO3<double>, 2, 1>(s, m02::mesh<1, 3>(s, 5)); }
