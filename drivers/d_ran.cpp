// random sample consensus with an arbitrary estimator, evaluator and drawing order
#include <vector>
#include <list>
#include <algorithm>
#include <random>
#include <cmath>
#include <cassert>
#include <stdexcept>
#include <stdlib.h>
#include <iterator>
#include "vf.h"
static const double* ctl; // one sign per exchange: every order can be drawn
static int draws;
namespace std { template<class It,class... A> void vf_shuffle(It a,It b,A&&...){ draws++; int n=b-a; for(int r=0;r<n-1;r++) for(int k=0;k+1<n-r;k++){ std::size_t x=a[k],y=a[k+1]; bool c=*ctl++<0; a[k]=c?y:x; a[k+1]=c?x:y; } } }
#define random_shuffle vf_shuffle
#define shuffle vf_shuffle
#include <utMath/Optimization/Optimization.h>
#include <utMath/Optimization/Ransac.h>
#include "utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h"
#include "utAlgorithm/PoseEstimation3D3D/Ransac.h"
#include "utAlgorithm/ToolTip/Ransac.h"
namespace O = Ubitrack::Math::Optimization;
struct Val { typedef double value_type; double u,w; };
struct Hyp { double h; };
static double okcoef; static double* log_o; static int nlog;
// hypothesis = sum of u of the set (+ number of values * okcoef); refuses if the sum is negative (fail!=0)
template<int FAIL> struct Model1 { typedef double value_type;
	struct Estimator { template<class It> bool operator()(Hyp& r,It b,It e) const { double s=0; for(;b!=e;++b) s+=b->u+okcoef; if(FAIL && s<0) return false; r.h=s; return true; } };
	struct Evaluator { double operator()(const Hyp& h,const Val& v) const { return h.h*v.w+v.u; } }; };
template<int FAIL> struct Model2 { typedef double value_type;
	struct Estimator { template<class It> bool operator()(Hyp& r,It b,It e,It b2,It e2) const { double s=0; for(;b!=e;++b,++b2) s+=b->u+okcoef*b2->w; if(FAIL && s<0) return false; r.h=s; return true; } };
	struct Evaluator { double operator()(const Hyp& h,const Val& v,const Val& x) const { return h.h*v.w+v.u*x.w+x.u; } }; };
// i: threshold, okcoef, N values (u,w) [, N values], exchange signs
template<class M,int N,int SET,int MIN,int MAX> static inline void r1(const double* i,double* o){ std::vector<Val> v(N); okcoef=i[1]; for(int k=0;k<N;k++){ v[k].u=i[2+2*k]; v[k].w=i[3+2*k]; } ctl=i+2+2*N; draws=0; Hyp h; h.h=-1; O::RansacParameter<double> p(i[0],std::size_t(SET),std::size_t(MIN),std::size_t(MAX)); std::size_t n=O::ransac(v.begin(),v.end(),h,M(),p); *o++=(double)n; *o++=h.h; }
template<class M,int N,int SET,int MIN,int MAX> static inline void r2(const double* i,double* o){ std::vector<Val> v(N),x(N); okcoef=i[1]; for(int k=0;k<N;k++){ v[k].u=i[2+2*k]; v[k].w=i[3+2*k]; x[k].u=i[2+2*N+2*k]; x[k].w=i[3+2*N+2*k]; } ctl=i+2+4*N; draws=0; Hyp h; h.h=-1; O::RansacParameter<double> p(i[0],std::size_t(SET),std::size_t(MIN),std::size_t(MAX)); std::size_t n=O::ransac(v.begin(),v.end(),x.begin(),x.end(),h,M(),p); *o++=(double)n; *o++=h.h; }
VF(r1_2_1){ r1<Model1<0>,2,1,1,1>(i,o); }
VF(r1_3_1){ r1<Model1<0>,3,1,2,1>(i,o); }
VF(r1_3_2){ r1<Model1<0>,3,2,2,2>(i,o); }
VF(r1_3_f){ r1<Model1<1>,3,1,2,2>(i,o); }
VF(r1_few){ r1<Model1<0>,2,3,2,2>(i,o); }
VF(r2_3_1){ r2<Model2<0>,3,1,2,1>(i,o); }
VF(r2_3_2){ r2<Model2<0>,3,2,2,2>(i,o); }
VF(r2_3_f){ r2<Model2<1>,3,1,2,2>(i,o); }
VF(r2_few){ r2<Model2<0>,2,3,2,2>(i,o); }
#include <utMath/Pose.cpp>
#include <utMath/Quaternion.cpp>
// the distances that decide support
namespace U=Ubitrack;
VF(ev_abs){ U::Math::Pose p(U::Math::Quaternion(i[0],i[1],i[2],i[3]),U::Math::Vector<double,3>(i[4],i[5],i[6])); U::Math::Vector<double,3> a(i[7],i[8],i[9]),b(i[10],i[11],i[12]); *o++=U::Algorithm::PoseEstimation3D3D::Ransac<double>::Evaluator()(p,a,b); }
VF(ev_tip){ U::Math::Pose p(U::Math::Quaternion(i[0],i[1],i[2],i[3]),U::Math::Vector<double,3>(i[4],i[5],i[6])); U::Math::Vector<double,6> a; for(int k=0;k<6;k++) a[k]=i[7+k]; *o++=U::Algorithm::ToolTip::Ransac<double>::Evaluator()(a,p); }
VF(par){ O::RansacParameter<double> p(i[0],std::size_t(3),std::size_t(20),i[1],i[2]); *o++=p.threshold; *o++=(double)p.setSize; *o++=(double)p.nMinInlier; *o++=(double)p.nMaxIterations; }
VF(par4){ O::RansacParameter<double> p(i[0],std::size_t(3),std::size_t(5),std::size_t(7)); *o++=p.threshold; *o++=(double)p.setSize; *o++=(double)p.nMinInlier; *o++=(double)p.nMaxIterations; }
