#include "AmpGen/Pade.h"
#include "AmpGen/Expression.h"
#include "AmpGen/ASTResolver.h"
template class AmpGen::Pade<1, double>;
template class AmpGen::Pade<2, double>;
template class AmpGen::Pade<4, double>;
template double AmpGen::Pade<1, double>::operator()<double>(const double&) const;
template double AmpGen::Pade<2, double>::operator()<double>(const double&) const;
template double AmpGen::Pade<4, double>::operator()<double>(const double&) const;
template AmpGen::Expression AmpGen::Pade<2, double>::operator()<AmpGen::Expression>(const AmpGen::Expression&) const;
template AmpGen::Expression AmpGen::Pade<4, double>::operator()<AmpGen::Expression>(const AmpGen::Expression&) const;
