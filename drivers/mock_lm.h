// Contract stand-in for the iterative optimiser (its own behaviour is a separate property): "returns" parameters
// chosen by the analysis (lm_in) and publishes the residual measurement - f(parameters) there (lm_out).
// A caller is right iff the residual vanishes at the true solution and its result is the right function of it.
#pragma once
#define __UBITRACK_MATH_OPTIMIZATION_LEVENBERGMARQUARDT_INCLUDED__
#include <boost/scoped_ptr.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/bindings/blas/blas.hpp>
#include <boost/numeric/bindings/lapack/posv.hpp>
#include <boost/numeric/bindings/lapack/gels.hpp>
#include <boost/numeric/bindings/lapack/gelss.hpp>
#include <boost/numeric/bindings/traits/ublas_vector2.hpp>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Optimization/Optimization.h>
#include <utUtil/Exception.h>
static const double* lm_in;
static double* lm_out;
static int lm_calls;
static double* lm_init; // if set: receives the start parameters
static double* lm_J;    // if set: receives the Jacobian of the residual function at the returned parameters (row by row)
namespace Ubitrack { namespace Math { namespace Optimization {
enum LmSolverType { lmUseCholesky, lmUseQR, lmUseSVD };
template< class P, class X, class Y, class TC, class NT, class WFT >
typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const Y& measurement, const TC&, const NT& normalize = OptNoNormalize(),
	const WFT& = OptNoWeightFunction(), LmSolverType = lmUseCholesky, const typename X::value_type = 1.0, const typename X::value_type = 10.0 )
{
	typedef typename X::value_type T;
	typename Math::Vector< T >::base_type est( measurement.size() );
	typename Math::Matrix< T >::base_type J( measurement.size(), params.size() );
	lm_calls++;
	if ( lm_init ) for ( std::size_t k = 0; k < params.size(); k++ ) *lm_init++ = params( k );
	for ( std::size_t k = 0; k < params.size(); k++ ) params( k ) = T( *lm_in++ );
	normalize.evaluate( params, params );
	problem.evaluateWithJacobian( est, params, J );
	if ( lm_J ) for ( std::size_t r = 0; r < measurement.size(); r++ ) for ( std::size_t k = 0; k < params.size(); k++ ) *lm_J++ = J( r, k );
	T s( 0 );
	for ( std::size_t k = 0; k < measurement.size(); k++ ) { T d = measurement( k ) - est( k ); *lm_out++ = d; s += d * d; }
	return s;
}
template< class P, class X, class Y, class TC, class NT >
typename X::value_type levenbergMarquardt( P& problem, X& params, const Y& measurement, const TC& t, const NT& n = OptNoNormalize(),
	LmSolverType s = lmUseCholesky, const typename X::value_type a = 1.0, const typename X::value_type b = 10.0 )
{ return weightedLevenbergMarquardt( problem, params, measurement, t, n, OptNoWeightFunction(), s, a, b ); }
}}}
