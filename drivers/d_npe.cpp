// pose from 2D-3D correspondences by orthogonal iteration; the rotation estimate from point clouds is a contract stand-in
#include <vector>
#include <numeric>
#include <algorithm>
#include <functional>
#include <limits>
#include <math.h>
#include "vf.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp"
namespace PE = Ubitrack::Algorithm::PoseEstimation2D3D;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
static const double* er_in;  // rotation (3x3) the stand-in returns
static double* er_out;       // receives the two point lists of the last call
static int er_calls, er_fail;
template<class T> static inline bool er(const std::vector<Vector<T,3> >& a, Matrix<T,3,3>& m, const std::vector<Vector<T,3> >& b)
{ double* o=er_out; for(std::size_t k=0;k<a.size();k++) for(int j=0;j<3;j++) *o++=a[k](j); for(std::size_t k=0;k<b.size();k++) for(int j=0;j<3;j++) *o++=b[k](j); const double* i=er_in; for(int r=0;r<3;r++) for(int c=0;c<3;c++) m(r,c)=*i++; er_calls++; return er_calls!=er_fail; }
namespace Ubitrack { namespace Algorithm { namespace PoseEstimation3D3D {
bool estimateRotation_3D3D( const std::vector< Math::Vector3d >& a, Math::Matrix3x3d& m, const std::vector< Math::Vector3d >& b ) { return er(a,m,b); }
bool estimateRotation_3D3D( const std::vector< Math::Vector3f >& a, Math::Matrix3x3f& m, const std::vector< Math::Vector3f >& b ) { return er(a,m,b); }
}}}
// i: n x (2d 2, 3d 3) | R 9 | start pose 7 ; o: success, pose 7, iterations, error, calls, point lists of the last call
template<class T> static inline void run(const double* i,double* o,int n,std::size_t it,int fail){
  std::vector<Vector<T,2> > a; std::vector<Vector<T,3> > b; for(int k=0;k<n;k++,i+=5){ a.push_back(Vector<T,2>(i[0],i[1])); b.push_back(Vector<T,3>(i[2],i[3],i[4])); }
  er_in=i; er_calls=0; er_fail=fail; er_out=o+11; Pose p(PO(i+9)); T e(0); bool ok=PE::estimatePose6D_2D3D(a,p,b,it,e);
  *o++=ok; put(o,p); *o++=it; *o++=e; *o++=er_calls; }
BOTH(np4, { run<T>(i,o,4,5,0); } )
BOTH(np6, { run<T>(i,o,6,5,0); } )
BOTH(np40, { run<T>(i,o,40,5,0); } )
BOTH(np1, { run<T>(i,o,4,1,0); } )
BOTH(npf, { run<T>(i,o,4,5,2); } )
