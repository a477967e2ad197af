#include "L02.hpp"
using enum l01::Kind;
PROP(numerical_1_2, 1) { l02::flat<1, 2, 1, 1, Plain, smooth::diff::Type::Numerical>(s, m02::mesh<2, 5>(s, 6), m02::mesh<2, 5>(s, 6)); }
