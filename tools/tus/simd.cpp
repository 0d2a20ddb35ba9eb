#include <cstdint>
#include <vector>
#include "AmpGen/simd/utils.h"
#include "AmpGen/KahanSum.h"
using namespace AmpGen;
template struct AmpGen::KahanSum<double>;
template AmpGen::KahanSum<double> AmpGen::operator+<double>(const AmpGen::KahanSum<double>&, const double&);
template double AmpGen::KahanBabushkaKleinSum<double>(const std::vector<double>&);
#if INSTRUCTION_SET != 0
template struct AmpGen::KahanSum<real_v>;
template struct AmpGen::Complex<real_v>;
using C = AmpGen::Complex<real_v>;
inline void instantiate( C& z, C& w, real_v& x, double* out )
{
  z = z + w; z = z - w; z = z * w; z = z / w; z = -z;
  z = z + x; z = z - x; z = z * x; z = z / x;
  z = x + z; z = x - z; z = x * z; z = x / z;
  z += w; z -= w; z *= w; z /= w;
  x = real(z); x = imag(z); x = abs(z); x = AmpGen::norm(z); z = conj(z);
  z = exp(z); z = sqrt(z); z = log(z);
  auto s = utils::sum_elements(x); (void)s;
  auto t = utils::all_of(x); (void)t;
  auto u = utils::all_of(x, 0.); (void)u;
  auto a = utils::aligned_size<real_v>( 7 ); (void)a;
  utils::store( out, x );
  auto g0 = utils::get<0>(x); auto g3 = utils::get<3>(x); auto gz = utils::get<2>(z); auto ax = utils::at(x, 1); auto az = utils::at(z, 1); (void)g0; (void)g3; (void)gz; (void)ax; (void)az;
}
#endif
#include "AmpGen/NumericalIntegration.h"
template <unsigned D> struct ScalarFunction { double operator()( const std::array<double, D>& ) const; };
struct LineFunction { double operator()( const double& ) const; };
inline double instantiate_lines( const LineFunction& f, const std::array<double,1>& a, const std::array<double,1>& b ){ return AmpGen::integrate<1>( f, a, b ); }
template std::tuple<double, double, unsigned> AmpGen::integrate_fp_scalar<2, ScalarFunction<2>>( const ScalarFunction<2>&, const std::array<double,2>&, const std::array<double,2>&);
template std::tuple<double, double, unsigned> AmpGen::integrate_fp_scalar<3, ScalarFunction<3>>( const ScalarFunction<3>&, const std::array<double,3>&, const std::array<double,3>&);
template std::tuple<double, double, unsigned> AmpGen::integrate_fp_scalar<4, ScalarFunction<4>>( const ScalarFunction<4>&, const std::array<double,4>&, const std::array<double,4>&);
#if INSTRUCTION_SET == INSTRUCTION_SET_AVX2d
template <unsigned D> struct VectorFunction { AmpGen::real_v operator()( const std::array<AmpGen::real_v, D>& ) const; };
template std::tuple<double, double, unsigned> AmpGen::integrate_fp<2, 4, VectorFunction<2>>( const VectorFunction<2>&, const std::array<double,2>&, const std::array<double,2>&);
template std::tuple<double, double, unsigned> AmpGen::integrate_fp<3, 4, VectorFunction<3>>( const VectorFunction<3>&, const std::array<double,3>&, const std::array<double,3>&);
template std::tuple<double, double, unsigned> AmpGen::integrate_fp<4, 4, VectorFunction<4>>( const VectorFunction<4>&, const std::array<double,4>&, const std::array<double,4>&);
#endif
