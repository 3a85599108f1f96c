// iterative least squares on a problem whose values and derivatives are arbitrary inputs
#include <vector>
#include <math.h>
#include "vf.h"
#include <utUtil/Exception.h>
#include <utMath/Optimization/Optimization.h>
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/GaussNewton.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
namespace O = Ubitrack::Math::Optimization;
enum { NM=3, NP=2 };
static int evals;
// f_k(x) = sum_j a_kj x_j + b_kj x_j^2, J_kj = c_kj + d_kj x_j
struct Prob { const double* c;
	template<class V1,class V2,class M> void evaluateWithJacobian(V1& r,const V2& x,M& J) const { evals++; const double* p=c; for(int k=0;k<NM;k++){ typename V1::value_type s=0; for(int j=0;j<NP;j++){ s+=p[0]*x(j)+p[1]*x(j)*x(j); J(k,j)=p[2]+p[3]*x(j); p+=4; } r(k)=s; } } };
struct Norm { const double* c; template<class X,class Y> void evaluate(X& o,const Y& x) const { for(int j=0;j<NP;j++) o(j)=x(j)*c[0]+c[1+j]; } };
struct Wgt { const double* c; bool noWeights() const { return false; } template<class X,class Y> void computeWeights(const X& e,Y& w) const { for(int k=0;k<NM;k++){ w(k)=(c[k]*e(k)+1)*(c[k]*e(k)+1); } } };
// i: 24 problem, 2 start, 3 measurement, 3 normalisation, 3 weights, step size, step factor
template<class T,class N,class W> static inline void lm(const double* i,double* o,int its,const N& n,const W& w,O::LmSolverType s){ evals=0; Prob p={i}; Vector<T,NP> x; for(int k=0;k<NP;k++) x(k)=i[24+k]; Vector<T,NM> y; for(int k=0;k<NM;k++) y(k)=i[26+k];
	T r=O::weightedLevenbergMarquardt(p,x,y,O::OptTerminate(its,0.0),n,w,s,T(i[35]),T(i[36])); *o++=r; put(o,x); *o++=evals; }
#define LM(name,N,W) \
VF(name##1_d){ Norm nn={i+29}; Wgt ww={i+32}; lm<double>(i,o,1,N,W,O::lmUseCholesky); } VF(name##1_f){ Norm nn={i+29}; Wgt ww={i+32}; lm<float>(i,o,1,N,W,O::lmUseCholesky); } \
VF(name##2_d){ Norm nn={i+29}; Wgt ww={i+32}; lm<double>(i,o,2,N,W,O::lmUseCholesky); } VF(name##3_d){ Norm nn={i+29}; Wgt ww={i+32}; lm<double>(i,o,3,N,W,O::lmUseCholesky); } \
VF(name##2_qr){ Norm nn={i+29}; Wgt ww={i+32}; lm<double>(i,o,2,N,W,O::lmUseQR); } VF(name##2_svd){ Norm nn={i+29}; Wgt ww={i+32}; lm<double>(i,o,2,N,W,O::lmUseSVD); }
LM(lm,O::OptNoNormalize(),O::OptNoWeightFunction()) LM(lmn,nn,O::OptNoWeightFunction()) LM(lmw,nn,ww)
// the unweighted front end
VF(lmu2){ evals=0; Prob p={i}; Norm nn={i+29}; Vector<double,NP> x(i[24],i[25]); Vector<double,NM> y(i[26],i[27],i[28]); double r=O::levenbergMarquardt(p,x,y,O::OptTerminate(2,0.0),nn,O::lmUseCholesky,i[35],i[36]); *o++=r; put(o,x); *o++=evals; }
VF(lmdef1){ evals=0; Prob p={i}; Norm nn={i+29}; Vector<double,NP> x(i[24],i[25]); Vector<double,NM> y(i[26],i[27],i[28]); double r=O::levenbergMarquardt(p,x,y,O::OptTerminate(2,0.0),nn); *o++=r; put(o,x); *o++=evals; }
// Gauss-Newton
template<class T> static inline void gn(const double* i,double* o,int its){ evals=0; Prob p={i}; Norm nn={i+29}; Vector<T,NP> x; for(int k=0;k<NP;k++) x(k)=i[24+k]; Vector<T,NM> y; for(int k=0;k<NM;k++) y(k)=i[26+k]; O::gaussNewton(p,x,y,its,nn); put(o,x); *o++=evals; }
VF(gn0_d){ gn<double>(i,o,0); } VF(gn1_d){ gn<double>(i,o,1); } VF(gn1_f){ gn<float>(i,o,1); } VF(gn3_d){ gn<double>(i,o,3); }
// termination: i: precision, previous, now
#define TERM(name,max,it) VF(name){ O::OptTerminate t(max,i[0]); o[0]=t(it,i[1],i[2])?1:0; O::OptTerminate u(max); o[1]=u(it,i[1],i[2])?1:0; }
TERM(term_before,5,4) TERM(term_at,5,5) TERM(term_after,5,6) TERM(term_unlim,0,1000000)
