#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_s32() { return rep::make<rep::DenseTr<3, 2>>(); }
