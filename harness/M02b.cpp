#include "M02.hpp"
PROP(R3_R2_R3, 2) { m02::run<3, 3, 2>(s, m02::mesh<2, 5>(s, 8)); }
PROP(R2_R1_R3, 2) { m02::run<3, 2, 1>(s, m02::mesh<2, 5>(s, 8)); }
PROP(big_degrees, 1) { m02::run<2, 2, 1>(s, m02::mesh<5, 10>(s, 14)); }
