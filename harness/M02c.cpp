#include "M02.hpp"
PROP(R3_R1_R1, 2) { m02::run<1, 3, 1>(s, m02::mesh<1, 3>(s, 8)); }
PROP(SO3_R1, 1) { m02::run_group<smooth::SO3<double>, 1>(s, m02::mesh<1, 3>(s, 8)); }
PROP(bundle_R2, 1) { m02::run_group<lg::BVS, 2>(s, m02::mesh<2, 5>(s, 8)); }
