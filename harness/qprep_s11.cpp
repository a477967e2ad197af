#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_s11() { return rep::make<rep::DenseTr<1, 1>>(); }
