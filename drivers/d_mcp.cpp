// pose of a target seen by several cameras; the single-camera estimate is a contract stand-in (checked elsewhere)
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_lm.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utMath/ErrorPose.cpp"
#include "utAlgorithm/MultipleCameraPoseOptimization.cpp"
namespace AL = Ubitrack::Algorithm;
static const double* cp_in;  // pose the single-camera estimate returns
static double* cp_out;       // receives: number of points, camera matrix (0,2), first image point x, first object point x
namespace Ubitrack { namespace Algorithm { namespace PoseEstimation2D3D {
Math::ErrorPose computePose( const std::vector< Math::Vector< double, 2 > >& a, const std::vector< Math::Vector< double, 3 > >& b, const Math::Matrix< double, 3, 3 >& k, bool, enum InitializationMethod )
{ *cp_out++ = a.size(); *cp_out++ = b.size(); *cp_out++ = k(0,2); *cp_out++ = a[0](0); *cp_out++ = b[0](0); return Math::ErrorPose( PO(cp_in), Math::Matrix<double,6,6>::zeros() ); }
}}}
// i: 2 x (camera pose 7, K 9) | npts x (3d 3, 2 x (weight, 2d 2)) | lm 6 | initial pose 7 | single-camera pose 7
static inline void run(const double* i,double* o,int n,int mode,int minc,const unsigned char* vis){
  std::vector<Pose> cams; std::vector<Matrix<double,3,3> > K; for(int k=0;k<2;k++){ cams.push_back(PO(i)); Matrix<double,3,3> m; getm(i+7,m); K.push_back(m); i+=16; }
  std::vector<Vector<double,3> > P; std::vector<std::vector<Vector<double,2> > > p(2); std::vector<std::vector<Scalar<double> > > w(2);
  for(int k=0;k<n;k++){ P.push_back(V3(i)); for(int c=0;c<2;c++){ w[c].push_back(Scalar<double>(vis[2*k+c] ? 1.0 : 0.0)); p[c].push_back(V2(i+3+2*c)); } i+=7; }
  lm_in=i; cp_in=i+13; 
  if(mode==2){ for(int k=32;k<56;k++) o[k]=0; std::vector<ErrorPose> ps; std::vector<Scalar<double> > ws; std::vector<Scalar<int> > bs; bs.push_back(Scalar<int>(2)); bs.push_back(Scalar<int>(n-2));
    lm_out=o+16; cp_out=o+56; AL::multipleCameraPoseEstimationWithLocalBundles(P,p,w,cams,K,minc,ps,ws,bs); for(int k=0;k<2;k++){ *o++=double(ws[k]); put(o,(const Pose&)ps[k]); } return; }
  if(n>3) for(int k=8;k<20;k++) o[k]=0;
  lm_out=o+20; lm_init=o+8; cp_out=o+14; ErrorPose e(Quaternion(),Vector<double,3>(0,0,0),Matrix<double,6,6>::zeros()); Scalar<double> wt(0.0);
  AL::multipleCameraPoseEstimation(P,p,w,cams,K,minc,e,wt,mode==1,PO(i+6)); *o++=double(wt); put(o,(const Pose&)e);
}
static const unsigned char all[]={1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1}, some[]={1,0,1,1,0,1,1,1,1,0}, few[]={1,1,1,0,1,0,1,0};
VF(mc_init){ run(i,o,4,1,2,all); }
VF(mc_some){ run(i,o,5,1,2,some); }
VF(mc_self){ run(i,o,5,0,2,some); }
VF(mc_few){ run(i,o,4,1,2,few); }
VF(mc_few4){ run(i,o,3,0,2,all); }
VF(mc_bundle){ run(i,o,6,2,2,all); }
VF(mc_bad){ std::vector<Pose> cams(2); std::vector<Matrix<double,3,3> > K(2); std::vector<Vector<double,3> > P(4); std::vector<std::vector<Vector<double,2> > > p(2); std::vector<std::vector<Scalar<double> > > w(2);
  for(int c=0;c<2;c++) { p[c].resize(4); w[c].resize(4); } int m=0; 
  ErrorPose e(Quaternion(),Vector<double,3>(0,0,0),Matrix<double,6,6>::zeros()); Scalar<double> wt(0.0); P.resize(2); for(int c=0;c<2;c++) { p[c].resize(2); w[c].resize(2); }
  AL::multipleCameraPoseEstimation(P,p,w,cams,K,2,e,wt,true,PO(i)); }
template<int mode> static inline void bad(const double* i){ std::vector<Pose> cams(mode==1?3:2); std::vector<Matrix<double,3,3> > K(mode==2?1:2); std::vector<Vector<double,3> > P(4); std::vector<std::vector<Vector<double,2> > > p(2); std::vector<std::vector<Scalar<double> > > w(mode==3?3:2);
  for(unsigned c=0;c<2;c++) p[c].resize(mode==4&&c==1?3:4); for(unsigned c=0;c<w.size();c++) w[c].resize(mode==5&&c==1?5:4);
  ErrorPose e(Quaternion(),Vector<double,3>(0,0,0),Matrix<double,6,6>::zeros()); Scalar<double> wt(0.0);
  AL::multipleCameraPoseEstimation(P,p,w,cams,K,2,e,wt,true,PO(i)); }
VF(mc_bad1){ bad<1>(i); } VF(mc_bad2){ bad<2>(i); } VF(mc_bad3){ bad<3>(i); } VF(mc_bad4){ bad<4>(i); } VF(mc_bad5){ bad<5>(i); }
