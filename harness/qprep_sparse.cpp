#include "qprep_impl.hpp"
std::unique_ptr<AnySolver> make_sparse() { return rep::make<rep::SparseTr>(); }
