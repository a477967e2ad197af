#include "L01.hpp"
using enum l01::Kind;
PROP(sparse_1_2, 3) { l01::run<1, 2, 2, 1, 1, Sparse, Sparse, Sparse, Sparse, Sparse, smooth::diff::Type::Default>(s, m02::mesh<1, 3>(s, 7)); }
