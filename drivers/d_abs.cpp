// absolute orientation, tool tip calibration
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_lm.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp"
#include "utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h"
#include "utAlgorithm/ToolTip/TipCalibration.cpp"
namespace A3 = Ubitrack::Algorithm::PoseEstimation3D3D;
namespace TT = Ubitrack::Algorithm::ToolTip;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
template<class T> static inline std::vector<Vector<T,3> > pts(const double* i,int n){ std::vector<Vector<T,3> > r; for(int k=0;k<n;k++) r.push_back(Vector<T,3>(i[3*k],i[3*k+1],i[3*k+2])); return r; }
static inline std::vector<Pose> poses(const double* i,int n){ std::vector<Pose> r; for(int k=0;k<n;k++) r.push_back(PO(i+7*k)); return r; }
template<class T,int n> static inline void ao(const double* i,double* o){ Pose p; bool ok=A3::estimatePose6D_3D3D(pts<T>(i,n),p,pts<T>(i+3*n,n)); *o++=ok; put(o,p); }
BOTH(ao3, { ao<T,3>(i,o); } ) BOTH(ao5, { ao<T,5>(i,o); } )
BOTH(ao131, { ao<T,131>(i,o); } )
BOTH(scale131, { *o=A3::estimateScale_3D3D(pts<T>(i,131),pts<T>(i+393,131)); } )
BOTH(tip131, { Vector<T,3> w(0,0,0),m(0,0,0); *o++=TT::estimatePosition3D_6D(w,poses(i,131),m); put(o,w); put(o,m); } )
VF(aol){ put(o,A3::calculateAbsoluteOrientation(pts<double>(i,4),pts<double>(i+12,4))); }
BOTH(rotq, { Quaternion q; *o++=A3::estimateRotation_3D3D(pts<T>(i,4),q,pts<T>(i+12,4)); put(o,q); } )
BOTH(rotm, { Matrix<T,3,3> m; *o++=A3::estimateRotation_3D3D(pts<T>(i,4),m,pts<T>(i+12,4)); put(o,m); } )
BOTH(scale, { *o=A3::estimateScale_3D3D(pts<T>(i,4),pts<T>(i+12,4)); } )
BOTH(aoopt, { lm_in=i+24; lm_out=o+8; Pose p; *o++=A3::estimatePose6D_3D3D(pts<T>(i,4),p,pts<T>(i+12,4),Ubitrack::Math::Optimization::OptTerminate(10,1e-6)); put(o,p); } )
BOTH(tip3, { Vector<T,3> w(0,0,0),m(0,0,0); *o++=TT::estimatePosition3D_6D(w,poses(i,3),m); put(o,w); put(o,m); } )
BOTH(tip5, { Vector<T,3> w(0,0,0),m(0,0,0); *o++=TT::estimatePosition3D_6D(w,poses(i,5),m); put(o,w); put(o,m); } )
VF(tipc){ Vector<double,3> w,m; TT::tipCalibration(poses(i,3),m,w); put(o,w); put(o,m); }
BOTH(tipe, { std::pair<T,T> r=TT::estimatePosition3DError_6D(Vector<T,3>(i[21],i[22],i[23]),poses(i,3),Vector<T,3>(i[24],i[25],i[26])); *o++=r.first; *o++=r.second; } )
BOTH(tipo, { lm_in=i+21; lm_out=o+7; Vector<T,3> w(0,0,0),m(0,0,0); *o++=TT::estimatePosition3D_6D(w,poses(i,3),m,Ubitrack::Math::Optimization::OptTerminate(10,1e-6)); put(o,w); put(o,m); } )
