// projection matrices
#include <vector>
#include <math.h>
#include "vf.h"
#include "utAlgorithm/Projection.cpp"
namespace AL = Ubitrack::Algorithm;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
template<class T,std::size_t M,std::size_t N> static inline Matrix<T,M,N> MX(const double* i){ Matrix<T,M,N> m; for(std::size_t r=0;r<M;r++)for(std::size_t c=0;c<N;c++) m(r,c)=*i++; return m; }
template<class T,int n> static inline void dlt(double* o,const double* i){ std::vector<Vector<T,3> > f; std::vector<Vector<T,2> > t; for(int k=0;k<n;k++){ f.push_back(Vector<T,3>(i[5*k],i[5*k+1],i[5*k+2])); t.push_back(Vector<T,2>(i[5*k+3],i[5*k+4])); } put(o,AL::projectionDLT(f,t)); }
BOTH(dlt6, { dlt<T,6>(o,i); } ) BOTH(dlt40, { dlt<T,40>(o,i); } ) BOTH(dlt8, { dlt<T,8>(o,i); } )
BOTH(dec, { Matrix<T,3,3> k; Matrix<T,3,3> r; Vector<T,3> t; AL::decomposeProjection(k,r,t,MX<T,3,4>(i)); put(o,k); put(o,r); put(o,t); } )
BOTH(gl34, { put(o,AL::projectionMatrixToOpenGL(T(i[0]),T(i[1]),T(i[2]),T(i[3]),T(i[4]),T(i[5]),MX<T,3,4>(i+6))); } )
BOTH(gl33, { put(o,AL::projectionMatrixToOpenGL(T(i[0]),T(i[1]),T(i[2]),T(i[3]),T(i[4]),T(i[5]),MX<T,3,3>(i+6))); } )
VF(offaxis){ Vector<double,3> e(V3(i)),ll(V3(i+3)),ul(V3(i+6)),lr(V3(i+9)); put(o,AL::offAxisProjectionMatrix(e,ll,ul,lr,i[12],i[13],i[14],i[15])); }
BOTH(co0, { Matrix<T,3,3> k(MX<T,3,3>(i)); AL::correctOrigin(k,0,480); put(o,k); } )
BOTH(co1, { Matrix<T,3,3> k(MX<T,3,3>(i)); AL::correctOrigin(k,1,480); put(o,k); } )
