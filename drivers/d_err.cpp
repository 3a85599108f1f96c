#include "vf.h"
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/CovarianceTransform.h>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utMath/ErrorPose.cpp"
typedef Matrix<double,6,6> M66;
static inline ErrorPose EP(const double* p){ return ErrorPose(Q(p),V3(p+4),MT<6,6>(p+7)); }
static inline void putE(double*& o, const ErrorPose& e){ put(o,(const Pose&)e); put(o,e.covariance()); }
template<class T,std::size_t N> static inline void putV(double*& o, const ErrorVector<T,N>& e){ put(o,e.value); put(o,e.covariance); }
VF(ep_ctor){ putE(o,EP(i)); putE(o,ErrorPose(PO(i),MT<6,6>(i+7))); }
VF(ep_inv){ putE(o,~EP(i)); }
VF(ep_mul){ putE(o,EP(i)*EP(i+43)); }
VF(ep_mulp){ putE(o,EP(i)*PO(i+43)); }
VF(ep_pmul){ putE(o,PO(i)*EP(i+7)); }
VF(ep_vec){ putV(o,EP(i)*V3(i+43)); }
VF(ep_evec){ ErrorVector<double,3> v(V3(i+43),MT<3,3>(i+46)); putV(o,EP(i)*v); }
VF(ep_invmul){ putE(o,invertMultiply(EP(i),EP(i+43))); }
VF(ep_toadd){ ErrorVector<double,7> v; EP(i).toAdditiveErrorVector(v); putV(o,v); }
VF(ep_fromadd){ ErrorVector<double,7> v(VN<7>(i),MT<7,7>(i+7)); putE(o,ErrorPose::fromAdditiveErrorVector(v)); }
VF(ep_lerp){ putE(o,linearInterpolate(EP(i),EP(i+43),i[86])); }
VF(ev_rms){ ErrorVector<double,3> v(V3(i),MT<3,3>(i+3)); *o=v.getRMS(); }
// generic covariance transforms, on a linear function y = A x
struct Lin { const double* a; std::size_t M,N; 
 template<class V1,class V2,class M1> void evaluateWithJacobian(V1& r,const V2& x,M1& j) const { for(std::size_t p=0;p<M;p++){ double s=0; for(std::size_t q=0;q<N;q++){ s+=a[p*N+q]*x(q); j(p,q)=a[p*N+q]; } r(p)=s; } } };
struct Lin2 { const double* a; 
 template<class V1,class V2,class V3_,class M1,class M2> void evaluateWithJacobian(V1& r,const V2& x,const V3_& y,M1& j,M2& k) const { for(int p=0;p<2;p++){ double s=0; for(int q=0;q<3;q++){ s+=a[p*3+q]*x(q); j(p,q)=a[p*3+q]; } for(int q=0;q<2;q++){ s+=a[6+p*2+q]*y(q); k(p,q)=a[6+p*2+q]; } r(p)=s; } } };
VF(ct_unary){ Lin f={i,2,3}; ErrorVector<double,3> v(V3(i+6),MT<3,3>(i+9)); ErrorVector<double,2> r; Stochastic::transformWithCovariance(f,r.value,r.covariance,v.value,v.covariance); putV(o,r); }
VF(ct_binary){ Lin2 f={i}; ErrorVector<double,3> a(V3(i+10),MT<3,3>(i+13)); ErrorVector<double,2> b(V2(i+22),MT<2,2>(i+24)),r; Stochastic::binarytransformWithCovariance(f,r.value,r.covariance,a.value,a.covariance,b.value,b.covariance); putV(o,r); }
#define CTR(name,b,e,s,t) VF(ct_range_##name){ Lin f={i,e-b,t-s}; ErrorVector<double,4> v(V4(i+9),MT<4,4>(i+13)); Stochastic::transformRangeInternalWithCovariance(f,v.value,v.covariance,b,e,s,t); putV(o,v); }
CTR(01,0,1,1,4) CTR(12,1,2,1,4) CTR(23,1,3,1,4) CTR(03,0,3,0,3) CTR(34,3,4,0,3)
// averages
VF(av_scalar){ Stochastic::Average<double> a; a(i[0]); a(i[1]); a(i[2]); *o=a.getAverage(); }
VF(av_vec){ Stochastic::Average<Vector<double,3> > a; a(V3(i)); a(V3(i+3)); a(V3(i+6)); put(o,a.getAverage()); }
VF(av_quat){ Stochastic::Average<Quaternion> a; a(Q(i)); a(Q(i+4)); put(o,a.getAverage()); }
VF(av_pose){ Stochastic::Average<Pose> a; a(PO(i)); a(PO(i+7)); put(o,a.getAverage()); }
VF(av_evec){ Stochastic::Average<ErrorVector<double,3> > a; a(V3(i)); a(V3(i+3)); a(V3(i+6)); ErrorVector<double,3> r=a.getAverage(); putV(o,r); }
VF(av_vec131){ Stochastic::Average<Vector<double,3> > a; for(int k=0;k<131;k++) a(V3(i+3*k)); put(o,a.getAverage()); }
VF(av_quat41){ Stochastic::Average<Quaternion> a; for(int k=0;k<41;k++) a(Q(i+4*k)); put(o,a.getAverage()); }
VF(av_pose41){ Stochastic::Average<Pose> a; for(int k=0;k<41;k++) a(PO(i+7*k)); put(o,a.getAverage()); }
VF(av_evec131){ Stochastic::Average<ErrorVector<double,3> > a; for(int k=0;k<131;k++) a(V3(i+3*k)); ErrorVector<double,3> r=a.getAverage(); putV(o,r); }
VF(av_epose41){ Stochastic::Average<ErrorPose> a; for(int k=0;k<41;k++) a(PO(i+7*k)); putE(o,a.getAverage()); }
VF(av_epose){ Stochastic::Average<ErrorPose> a; a(PO(i)); a(PO(i+7)); putE(o,a.getAverage()); }
VF(tv_quat){ Vector<double,4> v; Math::Util::castToVector(Q(i),v); put(o,v); put(o,Math::Util::castToVector<Vector<double,4> >(Q(i))); }
VF(tv_pose){ Vector<double,7> v; Math::Util::castToVector(PO(i),v); put(o,v); }
