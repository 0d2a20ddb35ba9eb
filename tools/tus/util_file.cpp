#include "AmpGen/Utilities.h"
// drivers: each asks a reader for the lines of a file
namespace vpu {
  std::vector<std::string> lines(const std::string& f){ std::vector<std::string> r; AmpGen::processFile(f, [&r](auto& l){ r.push_back(l); }); return r; }
  std::vector<std::string> all_lines(const std::string& f){ std::vector<std::string> r; AmpGen::processFile(f, [&r](auto& l){ r.push_back(l); }, '\0'); return r; }
  std::vector<std::string> fromFile(const std::string& f){ return AmpGen::vectorFromFile(f); }
}
