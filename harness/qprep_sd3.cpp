#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_sd3() { return rep::make<rep::DenseTr<-1, 3>>(); }
