#include <memory>
#include <string>
#include "AmpGen/DynamicFCN.h"
template class AmpGen::DynamicFCN<double(const double*, const double*)>;
