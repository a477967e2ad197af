#include "E01.hpp"

const eng::CheckInfo eng::check_info{
  "E01",
  "cases: histories of 1-8 reset/predict/update operations on filters over 8 state spaces (R^n, SO2, SO3, SE2, SE3, bundles) with Euler, "
  "Runge-Kutta 4 and Cash-Karp steppers; each operation is compared with the textbook equations evaluated from the state before it: exactly "
  "(per integration step) for linear systems and single Euler steps, by extrapolation to zero step size for nonlinear ones; non-trivial: a "
  "predict with nonzero system matrix or an update with nonzero measurement matrix was checked",
  30000,
  2000000,
  {"covariances given to reset are symmetric positive definite, measurement noise is positive definite",
   "the Lie-group library is a stand-in (shim/smooth) with numerical derivatives accurate to about 1e-9"}};

PROP(R1, 1) { steppers<V1>(s); }
PROP(R2, 3) { steppers<V2>(s); }
PROP(fusion_vector, 1) { fusion<V3>(s); }
