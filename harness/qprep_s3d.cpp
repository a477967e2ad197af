#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_s3d() { return rep::make<rep::DenseTr<3, -1>>(); }
