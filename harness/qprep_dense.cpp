#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_dense_dyn() { return rep::make<rep::DenseTr<-1, -1>>(); }
