#include "AmpGen/Utilities.h"
template std::vector<std::vector<unsigned>> AmpGen::nCr<unsigned>(const unsigned&, const unsigned&);
template std::vector<std::vector<int>> AmpGen::all_combinations<int>(const std::vector<std::vector<int>>&);
template void AmpGen::parallel_sort<std::vector<int>::iterator, std::less<int>>(std::vector<int>::iterator, std::vector<int>::iterator, const std::less<int>&, const size_t&);
template std::string AmpGen::vectorToString<std::vector<std::string>>(const std::vector<std::string>&, const std::string&, const std::function<std::string(const std::string&)>&);
