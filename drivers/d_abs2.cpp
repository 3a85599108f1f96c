// absolute orientation and tool tip calibration: error figures, covariance, and what robust estimation is made of
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_bp.h"
#include "mock_lm.h"
#include <utMath/Optimization/Ransac.h>
// contract stand-in for robust estimation (decided on its own): estimates from everything it is given; the
// analysis chooses how many values support it
static const double* rs_n; static double* rs_o; static bool rs_fail;
namespace Ubitrack { namespace Math { namespace Optimization {
template<class It,class R,class M,class P> std::size_t vf_ransac(It b,It e,R& r,const M&,const P& p){ typename M::Estimator est; rs_fail=!est(r,b,e); *rs_o++=(double)p.setSize; *rs_o++=p.threshold; return (rs_fail||*rs_n<0)?0:3; }
template<class It,class I2,class R,class M,class P> std::size_t vf_ransac(It b,It e,I2 b2,I2 e2,R& r,const M&,const P& p){ typename M::Estimator est; rs_fail=!est(r,b,e,b2,e2); *rs_o++=(double)p.setSize; *rs_o++=p.threshold; return (rs_fail||*rs_n<0)?0:3; }
}}}
#define ransac vf_ransac
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp"
#include "utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h"
#include "utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h"
#include "utAlgorithm/ToolTip/TipCalibration.cpp"
#include "utAlgorithm/ToolTip/ErrorEstimation.h"
namespace A3 = Ubitrack::Algorithm::PoseEstimation3D3D;
namespace TT = Ubitrack::Algorithm::ToolTip;
namespace O = Ubitrack::Math::Optimization;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
template<class T> static inline std::vector<Vector<T,3> > pts(const double* i,int n){ std::vector<Vector<T,3> > r; for(int k=0;k<n;k++) r.push_back(Vector<T,3>(i[3*k],i[3*k+1],i[3*k+2])); return r; }
static inline std::vector<Pose> poses(const double* i,int n){ std::vector<Pose> r; for(int k=0;k<n;k++) r.push_back(PO(i+7*k)); return r; }
// 4 pairs, pose
BOTH(aores, { std::vector<Vector<T,3> > a(pts<T>(i,4)),b(pts<T>(i+12,4)); *o=A3::estimatePose6DResidual<T>(a.begin(),a.end(),PO(i+24),b.begin(),b.end()); } )
BOTH(aocov, { bp_in=i+31; bp_out=o+37; std::vector<Vector<T,3> > a(pts<T>(i,4)),b(pts<T>(i+12,4)); Matrix<T,6,6> m; *o++=A3::estimatePose6DCovariance(a.begin(),a.end(),PO(i+24),b.begin(),b.end(),m); put(o,m); } )
BOTH(aofun, { std::vector<Vector<T,3> > b(pts<T>(i,2)); A3::Function::MultiplePointTransformationError<typename std::vector<Vector<T,3> >::iterator> f(b.begin(),b.end()); Vector<T,7> p; for(int k=0;k<7;k++) p(k)=T(i[6+k]); Matrix<T,6,6> J; f.jacobian(p,J); *o++=(double)f.size(); put(o,J); } )
BOTH(tipacc, { TT::ErrorFunction<T> f(Vector<T,3>(i[0],i[1],i[2]),Vector<T,3>(i[3],i[4],i[5])); *o=f(T(i[13]),PO(i+6)); } )
VF(evold){ A3::EvaluateAbsoluteOrientation<double> f; *o=f(PO(i),Vector<double,3>(i[7],i[8],i[9]),Vector<double,3>(i[10],i[11],i[12])); }
// robust estimation: i = number of supporters (sign), points
BOTH(aoran, { rs_n=i; rs_o=o+9; Pose p; *o++=A3::estimatePose6D_3D3D(pts<T>(i+2,4),p,pts<T>(i+14,4),O::RansacParameter<T>(T(i[1]),std::size_t(3),std::size_t(5),std::size_t(7))); *o++=rs_fail; put(o,p); } )
BOTH(tipran, { rs_n=i; rs_o=o+8; Vector<T,3> w(0,0,0),m(0,0,0); *o++=TT::estimatePosition3D_6D(w,poses(i+2,4),m,O::RansacParameter<T>(T(i[1]),std::size_t(3),std::size_t(5),std::size_t(7))); *o++=rs_fail; put(o,w); put(o,m); } )
