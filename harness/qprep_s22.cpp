#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_s22() { return rep::make<rep::DenseTr<2, 2>>(); }
