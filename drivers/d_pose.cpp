// homographies and pose estimation from 2D-3D correspondences
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_lm.h"
#include "mock_bp.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utMath/ErrorPose.cpp"
#include "utAlgorithm/Homography.cpp"
#include "utAlgorithm/Projection.cpp"
#include "utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp"
namespace AL = Ubitrack::Algorithm;
namespace PE = Ubitrack::Algorithm::PoseEstimation2D3D;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
template<class T> static inline std::vector<Vector<T,3> > p3(const double* i,int n){ std::vector<Vector<T,3> > r; for(int k=0;k<n;k++) r.push_back(Vector<T,3>(i[3*k],i[3*k+1],i[3*k+2])); return r; }
template<class T> static inline std::vector<Vector<T,2> > p2(const double* i,int n){ std::vector<Vector<T,2> > r; for(int k=0;k<n;k++) r.push_back(Vector<T,2>(i[2*k],i[2*k+1])); return r; }
template<class T> static inline Matrix<T,3,3> M3(const double* i){ Matrix<T,3,3> m; for(int r=0;r<3;r++)for(int c=0;c<3;c++) m(r,c)=*i++; return m; }
BOTH(h4, { put(o,AL::homographyDLT(p2<T>(i,4),p2<T>(i+8,4))); } )
BOTH(h6, { put(o,AL::homographyDLT(p2<T>(i,6),p2<T>(i+12,6))); } )
BOTH(h40, { put(o,AL::homographyDLT(p2<T>(i,40),p2<T>(i+80,40))); } )
BOTH(hsq, { put(o,AL::squareHomography(p2<T>(i,4))); } )
BOTH(ph, { put(o,PE::poseFromHomography(M3<T>(i),M3<T>(i+9))); } )
// cam(9) 3d(3n) 2d(2n) lm(7)
BOTH(opt, { lm_in=i+9+20; lm_out=o+8; lm_init=o+16; Pose p(PO(i+36)); *o++=PE::optimizePose(p,p2<T>(i+21,4),p3<T>(i+9,4),M3<T>(i)); put(o,p); } )
BOTH(sce, { bp_in=i+29; bp_out=o+36; put(o,PE::singleCameraPoseError(PO(i),p3<T>(i+7,4),M3<T>(i+19),T(i[28]))); } )
BOTH(mce, { std::vector<Matrix<T,3,4> > cams; for(int k=0;k<2;k++){ Matrix<T,3,4> m; getm(i+19+12*k,m); cams.push_back(m); }
  std::vector<std::pair<std::size_t,std::size_t> > ob; ob.push_back(std::make_pair(0,0)); ob.push_back(std::make_pair(1,0)); ob.push_back(std::make_pair(3,1)); ob.push_back(std::make_pair(2,1));
  bp_in=i+44; bp_out=o+36; put(o,PE::multipleCameraPoseError(PO(i),p3<T>(i+7,4),cams,ob,T(i[43]))); } )
// object points: (x,y) symbolic, z from zs (a constant) or, where zs is NaN, from the input
template<int n> static inline void cp(const double* i,double* o,bool opt,PE::InitializationMethod m,const double* zs){ double res=0; bp_in=i+9+5*n; bp_out=o+(opt?63:44); std::vector<Vector<double,3> > P; for(int k=0;k<n;k++) P.push_back(Vector<double,3>(i[9+3*k],i[10+3*k],zs&&zs[k]<1e9?zs[k]:i[11+3*k]));
  ErrorPose e=PE::computePose(p2<double>(i+9+3*n,n),P,M3<double>(i),res,opt,m); *o++=res; put(o,(const Pose&)e); put(o,e.covariance()); }
static const double zc[]={2,2,2,2,2,2}, zp[]={2,2,2,2,5}, zr[]={0,1,1e10,1e10,1e10,1e10};
VF(cp4){ cp<4>(i,o,false,PE::PLANAR_HOMOGRAPHY,zc); }
VF(cp5){ cp<5>(i,o,false,PE::PLANAR_HOMOGRAPHY,zp); }
VF(cp4r){ cp<4>(i,o,false,PE::PLANAR_HOMOGRAPHY,zr); }
VF(cp5r){ cp<5>(i,o,false,PE::PLANAR_HOMOGRAPHY,zr); }
VF(cp6){ cp<6>(i,o,false,PE::NONPLANAR_PROJECTION,zr); }
VF(cp6o){ lm_in=i+75; lm_out=o+44; lm_init=o+56; cp<6>(i,o,true,PE::NONPLANAR_PROJECTION,zr); }
VF(cp3){ cp<3>(i,o,false,PE::PLANAR_HOMOGRAPHY,zc); }
