// epipolar geometry and triangulation
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_lm.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/3DPointReconstruction.cpp"
#include "utAlgorithm/FundamentalMatrix.cpp"
namespace AL = Ubitrack::Algorithm;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
template<class T,std::size_t M,std::size_t N> static inline Matrix<T,M,N> MX(const double* i){ Matrix<T,M,N> m; for(std::size_t r=0;r<M;r++)for(std::size_t c=0;c<N;c++) m(r,c)=*i++; return m; }
template<class T> static inline Vector<T,2> P2(const double* i){ return Vector<T,2>(i[0],i[1]); }
template<class T,int n> static inline void fm(double* o,const double* i,std::size_t step){ std::vector<Vector<T,2> > f,t; for(int k=0;k<n;k++){ f.push_back(P2<T>(i+4*k)); t.push_back(P2<T>(i+4*k+2)); } put(o,AL::getFundamentalMatrix(f,t,step)); }
BOTH(fm8, { fm<T,8>(o,i,1); } ) BOTH(fm40, { fm<T,40>(o,i,1); } ) BOTH(fm10, { fm<T,10>(o,i,1); } ) BOTH(fm16s2, { fm<T,16>(o,i,2); } )
BOTH(fm7, { fm<T,7>(o,i,1); } ) BOTH(fm8s2, { fm<T,8>(o,i,2); } ) BOTH(fm8s0, { fm<T,8>(o,i,0); } )
BOTH(fmne, { std::vector<Vector<T,2> > f(8),t(9); for(int k=0;k<8;k++) f[k]=P2<T>(i); for(int k=0;k<9;k++) t[k]=P2<T>(i); put(o,AL::getFundamentalMatrix(f,t,1)); } )
VF(fmp){ put(o,AL::fundamentalMatrixFromPoses(PO(i),PO(i+7),MT<3,3>(i+14),MT<3,3>(i+23))); }
VF(pfm){ put(o,AL::poseFromFundamentalMatrix(MT<3,3>(i),V2(i+9),V2(i+11),MT<3,3>(i+13),MT<3,3>(i+22))); }
BOTH(ppd2, { *o=AL::pointToPointDist(P2<T>(i),P2<T>(i+2),MX<T,3,3>(i+4)); } )
BOTH(ppd3, { Vector<T,3> a(i[0],i[1],1),b(i[2],i[3],1); *o=AL::pointToPointDist(a,b,MX<T,3,3>(i+4)); } )
BOTH(tri2, { put(o,AL::get3DPosition(MX<T,3,4>(i),MX<T,3,4>(i+12),P2<T>(i+24),P2<T>(i+26))); } )
template<class T> static inline void trin(double* o,const double* i,int n,int m,std::size_t flag){ std::vector<Matrix<T,3,4> > P; std::vector<Vector<T,2> > p; for(int k=0;k<n;k++) P.push_back(MX<T,3,4>(i+14*k)); for(int k=0;k<m;k++) p.push_back(P2<T>(i+14*k+12)); put(o,AL::get3DPosition(P,p,flag)); }
BOTH(trin2, { trin<T>(o,i,2,2,0); } ) BOTH(trin40, { trin<T>(o,i,40,40,0); } ) BOTH(trin3, { trin<T>(o,i,3,3,0); } ) BOTH(trino, { lm_in=i+42; lm_out=o+3; trin<T>(o,i,3,3,1); } )
BOTH(trin1, { trin<T>(o,i,1,1,0); } ) BOTH(trinne, { trin<T>(o,i,3,2,0); } )
VF(trires){ lm_in=i+42; lm_out=o+4; std::vector<Matrix<double,3,4> > P; std::vector<Vector<double,2> > p; for(int k=0;k<3;k++){ P.push_back(MX<double,3,4>(i+14*k)); p.push_back(P2<double>(i+14*k+12)); } double r=0; put(o,AL::get3DPositionWithResidual(P,p,1,&r)); *o=r; }
VF(trires0){ std::vector<Matrix<double,3,4> > P; std::vector<Vector<double,2> > p; for(int k=0;k<3;k++){ P.push_back(MX<double,3,4>(i+14*k)); p.push_back(P2<double>(i+14*k+12)); } double r=0; put(o,AL::get3DPositionWithResidual(P,p,0,&r)); }
BOTH(ev, { AL::EvaluateFundamentalMatrix<T> f; *o=f(MX<T,3,3>(i+4),P2<T>(i),P2<T>(i+2)); } )
BOTH(gf, { std::vector<Vector<T,2> > f,t; for(int k=0;k<8;k++){ f.push_back(P2<T>(i+4*k)); t.push_back(P2<T>(i+4*k+2)); } Matrix<T,3,3> m; AL::GetFundamentalMatrix<T>()(m,f,t); put(o,m); } )
