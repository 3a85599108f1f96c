// Contract stand-in for backward covariance propagation (its own behaviour is a separate property): publishes the
// variance and the Jacobian it is given (bp_out) and "returns" a covariance chosen by the analysis (bp_in).
#pragma once
#define __UBITRACK_MATH_BACKWARDPROPAGATION_INCLUDED__
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
static const double* bp_in;
static double* bp_out;
namespace Ubitrack { namespace Math { namespace Stochastic {
template< class MT1, class F, class VT1 > void backwardPropagationIdentity( MT1& result, typename MT1::value_type s, const F& function, const VT1& params )
{
	typename Math::Matrix< typename MT1::value_type, 0, 0 > J( function.size(), result.size1() );
	function.jacobian( params, J );
	if ( bp_out ) { *bp_out++ = s; for ( std::size_t r = 0; r < J.size1(); r++ ) for ( std::size_t c = 0; c < J.size2(); c++ ) *bp_out++ = J( r, c ); }
	for ( std::size_t r = 0; r < 6; r++ ) for ( std::size_t c = 0; c < 6; c++ ) result( r, c ) = bp_in[ 6 * r + c ];
}
}}}
