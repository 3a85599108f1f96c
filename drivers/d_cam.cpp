// camera intrinsics and lens model
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_lm.h"
#include <utMath/CameraIntrinsics.h>
#include <utMath/Geometry/container_traits.h>
#include <utMath/Geometry/PointUndistortion.h>
#include "utAlgorithm/CameraLens/Correction.cpp"
#include "utAlgorithm/LensDistortion.cpp"

namespace CL = Ubitrack::Algorithm::CameraLens;
namespace AL = Ubitrack::Algorithm;
// i: K00 K01 K02 K11 K12 K22 k1..k6 p1 p2
template<class T> static inline Matrix<T,3,3> KM(const double* i){ Matrix<T,3,3> m; for(int r=0;r<3;r++)for(int c=0;c<3;c++) m(r,c)=0; m(0,0)=i[0]; m(0,1)=i[1]; m(0,2)=i[2]; m(1,1)=i[3]; m(1,2)=i[4]; m(2,2)=i[5]; return m; }
template<class T> static inline CameraIntrinsics<T> CI(const double* i){ Vector<T,6> r; Vector<T,2> t; for(int k=0;k<6;k++) r(k)=i[6+k]; t(0)=i[12]; t(1)=i[13]; return CameraIntrinsics<T>(KM<T>(i),r,t); }
template<class T> static inline Vector<T,2> P2(const double* i){ return Vector<T,2>(i[0],i[1]); }
template<class T> static inline Vector<T,4> P4(const double* i){ Vector<T,4> v; for(int k=0;k<4;k++) v(k)=i[k]; return v; }
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
BOTH(dist, { Vector<T,2> r; CL::distort(CI<T>(i),P2<T>(i+14),r); put(o,r); } )
BOTH(distv, { std::vector<Vector<T,2> > p,r(2); p.push_back(P2<T>(i+14)); p.push_back(P2<T>(i+16)); CL::distort(CI<T>(i),p,r); put(o,r[0]); put(o,r[1]); } )
BOTH(distm, { std::vector<Vector<T,2> > p,r(131); for(int k=0;k<131;k++) p.push_back(P2<T>(i+14+2*k)); CL::distort(CI<T>(i),p,r); for(int k=0;k<131;k++) put(o,r[k]); } )
BOTH(undistm, { lm_in=i+14+80; lm_out=o+80; std::vector<Vector<T,2> > p,r(40); for(int k=0;k<40;k++) p.push_back(P2<T>(i+14+2*k)); CL::undistort(CI<T>(i),p,r); for(int k=0;k<40;k++) put(o,r[k]); } )
BOTH(undist, { lm_in=i+16; lm_out=o+2; Vector<T,2> r; CL::undistort(CI<T>(i),P2<T>(i+14),r); put(o,r); } )
BOTH(undistv, { lm_in=i+18; lm_out=o+4; std::vector<Vector<T,2> > p,r(2); p.push_back(P2<T>(i+14)); p.push_back(P2<T>(i+16)); CL::undistort(CI<T>(i),p,r); put(o,r[0]); put(o,r[1]); } )
BOTH(undalias, { lm_in=i+16; lm_out=o+2; Vector<T,2> r(P2<T>(i+14)); CL::undistort(CI<T>(i),r,r); put(o,r); } )
BOTH(distalias, { Vector<T,2> r(P2<T>(i+14)); CL::distort(CI<T>(i),r,r); put(o,r); } )
BOTH(ld, { put(o,AL::lensDistort(P2<T>(i+10),P4<T>(i+6),KM<T>(i))); } )
BOTH(lud, { lm_in=i+12; lm_out=o+2; put(o,AL::lensUnDistort(P2<T>(i+10),P4<T>(i+6),KM<T>(i))); } )
BOTH(pwd, { Vector<T,3> p; for(int k=0;k<3;k++) p(k)=i[10+k]; put(o,AL::projectWithDistortion(p,P4<T>(i+6),KM<T>(i))); } )
BOTH(gpu, { put(o,Geometry::PointUndistortion<T>(CI<T>(i))(P2<T>(i+14))); std::vector<Vector<T,2> > p,r(2); p.push_back(P2<T>(i+14)); p.push_back(P2<T>(i+16)); Geometry::undistort_points(CI<T>(i),p.begin(),p.end(),r.begin()); put(o,r[0]); put(o,r[1]); } )
template<class T> static inline void dump(double*& o, const CameraIntrinsics<T>& c){ *o++=c.calib_type; *o++=c.dimension(0); *o++=c.dimension(1); put(o,c.matrix); *o++=c.radial_size; put(o,c.radial_params); put(o,c.tangential_params); }
template<class T,std::size_t N> static inline Vector<T,N> VT(const double* i){ Vector<T,N> v; for(std::size_t k=0;k<N;k++) v(k)=i[k]; return v; }
BOTH(ci0, { dump(o,CameraIntrinsics<T>()); } )
BOTH(ci2, { dump(o,CameraIntrinsics<T>(KM<T>(i),VT<T,2>(i+6),VT<T,2>(i+12),640,480)); } )
BOTH(ci3, { dump(o,CameraIntrinsics<T>(KM<T>(i),VT<T,3>(i+6),VT<T,2>(i+12),640,480)); } )
BOTH(ci6, { dump(o,CameraIntrinsics<T>(KM<T>(i),VT<T,6>(i+6),VT<T,2>(i+12),640,480)); } )
BOTH(ci4, { dump(o,CameraIntrinsics<T>(KM<T>(i),VT<T,4>(i+6),640,480)); } )
template<class T> static inline void gen(double* o,const double* i,std::size_t n){ dump(o,CameraIntrinsics<T>(Vector<int,2>(640,480),KM<T>(i),n,VT<T,6>(i+6),VT<T,2>(i+12))); }
BOTH(cig2, { gen<T>(o,i,2); } ) BOTH(cig3, { gen<T>(o,i,3); } ) BOTH(cig4, { gen<T>(o,i,4); } ) BOTH(cig6, { gen<T>(o,i,6); } )
BOTH(cias, { CameraIntrinsics<T> a; a=CameraIntrinsics<T>(KM<T>(i),VT<T,6>(i+6),VT<T,2>(i+12),640,480); dump(o,a); } )
BOTH(tab, { for(int k=0;k<5;k++){ *o++=CameraIntrinsics<T>::radial(k); *o++=CameraIntrinsics<T>::tangential(k); } } )
VF(ang){ CameraIntrinsics<double> c(KM<double>(i),VT<double,2>(i+6),VT<double,2>(i+12),640,480); *o++=c.angleHorizontal(); *o++=c.angleVertical(); *o++=c.angleDiagonal(); }
VF(flip){ CameraIntrinsics<double> c(KM<double>(i),VT<double,2>(i+6),VT<double,2>(i+12),640,480); CameraIntrinsics<double> d; d.flipHandiness(c); dump(o,c); }
