// composed functions (expression-template derivative chains)
#include "vf.h"
#include <utMath/Optimization/NewFunction/Function.h>
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#include <utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
using namespace Ubitrack::Math::Optimization::Function;
namespace AF = Ubitrack::Algorithm::Function;
template<std::size_t M,std::size_t N,class F> static inline void all(double*& o, const F& f, const Vector<double,N>& x){
  Vector<double,M> r; Matrix<double,M,N> J(Matrix<double,M,N>::zeros()); f.evaluate(x,r); put(o,r); f.jacobian(x,J); put(o,J);
  Vector<double,M> r2; Matrix<double,M,N> J2(Matrix<double,M,N>::zeros()); f.evaluateWithJacobian(x,r2,J2); put(o,r2); put(o,J2); }
VF(cam12){ Vector<double,3> pt(V3(i+12)); all<2,12>(o, AF::CameraIntrinsicsMultiplication() << parameter<5>(7) << ( Dehomogenization<3>() << ( Addition<3>() << parameter<3>(0) << ( LieRotation() << parameter<3>(3) << fixedParameterRef<3>(pt) ) ) ), VN<12>(i)); }
VF(lin){ Matrix<double,2,3> A(MT<2,3>(i+4)); Vector<double,2> b(V2(i+10)); all<2,4>(o, Subtraction<2>() << ( LinearTransformation<2,3>(A) << parameter<3>(1) ) << fixedParameterCopy<2>(b), VN<4>(i)); }
VF(sub2){ Matrix<double,2,3> A(MT<2,3>(i+4)); Vector<double,2> b(V2(i+10)); all<2,4>(o, Subtraction<2>() << fixedParameterRef<2>(b) << ( LinearTransformation<2,3>(A) << parameter<3>(1) ), VN<4>(i)); }
VF(liep){ Vector<double,3> w(V3(i+3)); all<3,3>(o, LieRotation() << fixedParameterRef<3>(w) << parameter<3>(0), VN<3>(i)); }
VF(dehp){ all<2,4>(o, Dehomogenization<3>() << parameter<3>(1), VN<4>(i)); }
