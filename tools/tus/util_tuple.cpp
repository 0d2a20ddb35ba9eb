#include "AmpGen/MetaUtils.h"
#include <tuple>
#include <vector>
// drivers: each asks a template for one definite thing
namespace vpu {
  std::vector<int> visit(int a, int b, int c){ std::vector<int> r; auto t = std::make_tuple(a, b, c); AmpGen::for_each(t, [&r](auto& x){ r.push_back(x); }); return r; }
  std::vector<int> cvisit(int a, int b, int c){ std::vector<int> r; const auto t = std::make_tuple(a, b, c); AmpGen::for_each(t, [&r](const auto& x){ r.push_back(x); }); return r; }
  std::vector<int> counted(int a, int b, int c){ std::vector<int> r; const auto t = std::make_tuple(a, b, c); AmpGen::for_each_with_counter(t, [&r](const auto& x, size_t i){ r.push_back(x); r.push_back(int(i)); }); return r; }
}
