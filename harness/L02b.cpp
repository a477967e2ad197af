#include "L02.hpp"
using enum l01::Kind;
PROP(sparse_2_2, 3) { l02::flat<2, 2, 1, 2, Sparse, smooth::diff::Type::Analytic>(s, m02::mesh<1, 3>(s, 7), m02::mesh<1, 3>(s, 7)); }
