#include "AmpGen/Utilities.h"
template std::string AmpGen::mysprintf<double>(const std::string&, double&&);
template std::string AmpGen::mysprintf<int>(const std::string&, int&&);
template std::string AmpGen::mysprintf<const char*>(const std::string&, const char*&&);
