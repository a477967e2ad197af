#include "L01.hpp"
using enum l01::Kind;
PROP(mixed_2_2, 2) { l01::run<2, 2, 2, 1, 2, Sparse, Dense, Sparse, Dense, Sparse, smooth::diff::Type::Analytic>(s, m02::mesh<2, 5>(s, 7)); }
