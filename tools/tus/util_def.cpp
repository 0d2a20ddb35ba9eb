#include "AmpGen/Utilities.h"
// drivers: each relies on a default argument
namespace vpu {
  std::vector<std::string> split1(const std::string& s){ return AmpGen::split(s, ','); }
  std::vector<std::string> split2(const std::string& s, const std::vector<char>& d){ return AmpGen::split(s, d); }
  size_t next(const std::string& s, const std::vector<std::string>& p){ return AmpGen::find_next_of(s, p); }
  std::vector<std::string> items(const std::string& s){ return AmpGen::getItems(s); }
  double squares(const std::vector<double>& v, const double init){ return AmpGen::parallel_accumulate(v.begin(), v.end(), init, [](const double& x){ return x*x; }); }
}
