#include "qpi.hpp"
std::unique_ptr<AnySolver> make_dense_dyn(), make_sparse(), make_s22(), make_s32(), make_s24(), make_s11(), make_sd3(), make_s3d();
const std::vector<RepInfo> & all_reps()
{
  static const std::vector<RepInfo> r{
    {"dense", false, -1, -1, make_dense_dyn},
    {"sparse", true, -1, -1, make_sparse},
    {"dense<3,2>", false, 3, 2, make_s32},
    {"dense<2,2>", false, 2, 2, make_s22},
    {"dense<2,4>", false, 2, 4, make_s24},
    {"dense<1,1>", false, 1, 1, make_s11},
    {"dense<-1,3>", false, -1, 3, make_sd3},
    {"dense<3,-1>", false, 3, -1, make_s3d},
  };
  return r;
}
