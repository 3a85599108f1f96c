// hand-eye calibration
#include <vector>
#include <math.h>
#include "vf.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp"
#include "utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp"
#include "utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"
#include "utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h"
#include "utAlgorithm/OnlineRotHec.cpp"
#define logger logger_rhk
#include "utAlgorithm/RotationHecKalmanFilter.cpp"
#undef logger
namespace AL = Ubitrack::Algorithm;
namespace HE = Ubitrack::Algorithm::PoseEstimation6D6D;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
static inline std::vector<Pose> poses(const double* i,int n){ std::vector<Pose> r; for(int k=0;k<n;k++) r.push_back(PO(i+7*k)); return r; }
template<class T> static inline std::vector<Matrix<T,4,4> > mats(const double* i,int n){ std::vector<Matrix<T,4,4> > r; for(int k=0;k<n;k++) r.push_back(Matrix<T,4,4>(PO(i+7*k))); return r; }
template<class T> static inline void tl(double* o,const double* i,int n,bool all){ put(o,HE::performHandEyeCalibration(mats<T>(i,n),mats<T>(i+7*n,n),all)); }
BOTH(tl3, { tl<T>(o,i,3,true); } ) BOTH(tl12, { tl<T>(o,i,12,true); } ) BOTH(tl40n, { tl<T>(o,i,40,false); } ) BOTH(tl4n, { tl<T>(o,i,4,false); } ) BOTH(tl2, { tl<T>(o,i,2,true); } )
BOTH(tlne, { put(o,HE::performHandEyeCalibration(mats<T>(i,3),mats<T>(i+28,4),true)); } )
VF(tlp3){ put(o,HE::performHandEyeCalibration(poses(i,3),poses(i+21,3),true)); }
VF(tlp12){ put(o,HE::performHandEyeCalibration(poses(i,12),poses(i+84,12),true)); }
VF(tlp40n){ put(o,HE::performHandEyeCalibration(poses(i,40),poses(i+280,40),false)); }
VF(tlp4n){ put(o,HE::performHandEyeCalibration(poses(i,4),poses(i+28,4),false)); }
VF(tlp2){ put(o,HE::performHandEyeCalibration(poses(i,2),poses(i+14,2),true)); }
VF(tlpne){ put(o,HE::performHandEyeCalibration(poses(i,3),poses(i+28,4),true)); }
VF(dq3){ Pose p; *o++=HE::estimatePose6D_6D6D(poses(i,3),p,poses(i+21,3)); put(o,p); }
VF(dqr){ std::vector<Vector<double,8> > a,b; HE::generate_relative_6DPoses(poses(i,3),a,true); HE::generate_relative_6DPoses(poses(i+21,3),b,false); *o++=a.size(); *o++=b.size(); Pose p; *o++=HE::estimatePose6D_6D6D(a,p,b); put(o,p); }
VF(pc8){ put(o,Ubitrack::Math::pose_cast<Pose>()(Ubitrack::Math::pose_cast<Vector<double,8> >()(PO(i)))); }
VF(pc8v){ put(o,Ubitrack::Math::pose_cast<Vector<double,8> >()(PO(i))); }

// online rotation hand-eye: state and covariance replaced by the analysis, one measurement
VF(oh0){ AL::OnlineRotHec f; put(o,f.m_state.value); put(o,f.m_state.covariance); put(o,f.computeResult()); }
VF(oh1){ AL::OnlineRotHec f; f.m_state.value=V3(i); f.m_state.covariance=MT<3,3>(i+3); f.addMeasurement(Q(i+12),Q(i+16)); put(o,f.m_state.value); put(o,f.m_state.covariance); }
VF(ohr){ AL::OnlineRotHec f; f.m_state.value=V3(i); put(o,f.computeResult()); }
VF(rh0){ AL::RotationHecKalmanFilter f; put(o,f.getResult()); put(o,f.getCovariance()); }
VF(rh1){ AL::RotationHecKalmanFilter f; f.m_state.value=V4(i); f.m_state.covariance=MT<4,4>(i+4); f.addMeasurement(Q(i+20),Q(i+24)); put(o,f.getResult()); put(o,f.getCovariance()); }
