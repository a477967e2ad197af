#include "L01.hpp"
using enum l01::Kind;
PROP(numerical_2_1, 1) { l01::run<2, 1, 2, 2, 2, Plain, Plain, Plain, Plain, Plain, smooth::diff::Type::Numerical>(s, m02::mesh<2, 5>(s, 6)); }
