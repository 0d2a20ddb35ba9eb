#include "AmpGen/NamedParameter.h"
template bool AmpGen::NamedParameter<int>::operator==<int>( const int& ) const;
template bool AmpGen::NamedParameter<int>::operator!=<int>( const int& ) const;
template bool AmpGen::NamedParameter<std::string>::operator==<std::string>( const std::string& ) const;
template bool AmpGen::NamedParameter<std::string>::operator!=<std::string>( const std::string& ) const;
