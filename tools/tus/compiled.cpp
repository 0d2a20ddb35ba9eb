#include "AmpGen/CompiledExpression.h"
#include "AmpGen/Expression.h"
template class AmpGen::CompiledExpression<double(const double*, const double*)>;
template class AmpGen::CompiledExpression<AmpGen::complex_t(const double*, const double*)>;
inline AmpGen::LambdaExpression verif_lambda( double& x ){ return AmpGen::LambdaExpression( [&x](){ return x; } ); }
#include "AmpGen/MinuitParameterSet.h"
template class AmpGen::CompiledExpression<void(AmpGen::complex_t*, const size_t*, const double*, const double*)>;
template class AmpGen::CompiledExpression<std::vector<AmpGen::complex_t>(const double*, const double*)>;
inline void verif_set( AmpGen::CompiledExpression<double(const double*, const double*)>& d, AmpGen::CompiledExpression<void(AmpGen::complex_t*, const size_t*, const double*, const double*)>& v,
    AmpGen::CompiledExpression<std::vector<AmpGen::complex_t>(const double*, const double*)>& w, const AmpGen::Expression& e, const AmpGen::DebugSymbols& db, const std::map<std::string, unsigned>& m,
    const AmpGen::MinuitParameterSet* p, AmpGen::MinuitParameterSet* q, const AmpGen::MinuitParameterSet& r )
{
  d.set( e, "", db, m, p, AmpGen::disableBatch(true), AmpGen::includeParameters(true), AmpGen::includePythonBindings(true) );
  d.set( e, "" ); d.set( e, "", m, q ); d.set( e, "", r, AmpGen::includeParameters(true) ); d.set( e, "", p, AmpGen::disableBatch(true) ); d.set( e, "", q, AmpGen::includePythonBindings(true), db );
  v.set( e, "", db ); w.set( e, "", p );
}
inline void verif_make( const AmpGen::Expression& e, const std::map<std::string, unsigned>& m )
{
  AmpGen::make_expression<double>( e, "" ); AmpGen::make_expression<double, double, double>( e, "", m );
}
inline void verif_batch( const AmpGen::CompiledExpression<double(const double*, const double*)>& d, const AmpGen::Expression& e, double* r, const double* x, const double* y )
{
  d.batch( size_t(1), size_t(1), size_t(1), r, x, y );
  AmpGen::CompiledExpression<double(const double*, const double*)> c( e, "" ); AmpGen::CompiledExpression<double(const double*, const double*)> f( e, "", AmpGen::disableBatch(true) );
}
