// tracking: time updates, Kalman measurement updates, filters
#include "vf.h"
#include <utMath/ErrorPose.h>
#include <utMath/RotationVelocity.h>
#include <utMath/Stochastic/Kalman.h>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utMath/ErrorPose.cpp"
#define logger loggerPoseKF
#include "utTracking/PoseKalmanFilter.cpp"
#undef logger
#define logger loggerRotKF
#include "utTracking/RotationOnlyKf.cpp"
#undef logger
#include <utTracking/Function/InvertRotationVelocity.h>
#include <utTracking/Function/LinearTimeUpdate.h>
namespace TF = Ubitrack::Tracking::Function;
using namespace Ubitrack::Tracking;
namespace MS = Ubitrack::Measurement;
template<std::size_t M,std::size_t N,class F> static inline void ej(double*& o, const F& f, const double* x){
  Vector<double,M> r; Matrix<double,M,N> J; f.evaluateWithJacobian(r,VN<N>(x),J); put(o,r); put(o,J); *o++=f.size(); }
// elementary time updates: dt = i[0], state = i+1
VF(lin0){ ej<2,2>(o,TF::LinearTimeUpdate(i[0],2,0),i+1); }
VF(lin1){ ej<2,4>(o,TF::LinearTimeUpdate(i[0],2,1),i+1); }
VF(lin2){ ej<2,6>(o,TF::LinearTimeUpdate(i[0],2,2),i+1); }
VF(lin3){ ej<1,4>(o,TF::LinearTimeUpdate(i[0],1,3),i+1); }
VF(qtu0){ ej<4,4>(o,TF::QuaternionTimeUpdate(i[0],0),i+1); }
VF(qtu1){ ej<4,7>(o,TF::QuaternionTimeUpdate(i[0],1),i+1); }
VF(ptu00){ ej<7,7>(o,TF::PoseTimeUpdate(i[0],0,0),i+1); }
VF(ptu10){ ej<10,10>(o,TF::PoseTimeUpdate(i[0],1,0),i+1); }
VF(ptu01){ ej<10,10>(o,TF::PoseTimeUpdate(i[0],0,1),i+1); }
VF(ptu11){ ej<13,13>(o,TF::PoseTimeUpdate(i[0],1,1),i+1); }
VF(ptu21){ ej<16,16>(o,TF::PoseTimeUpdate(i[0],2,1),i+1); }
VF(iou0){ ej<10,10>(o,TF::InsideOutPoseTimeUpdate(i[0],0),i+1); }
VF(iou1){ ej<13,13>(o,TF::InsideOutPoseTimeUpdate(i[0],1),i+1); }
VF(irv){ ej<3,7>(o,TF::InvertRotationVelocity(),i); }
VF(rv_ab){ RotationVelocity v(Q(i),Q(i+4),i[8]); put(o,v); }
VF(rv_int){ RotationVelocity v(i[0],i[1],i[2]); put(o,v.integrate(i[3])); *o++=v.angularVelocity(); put(o,v.axis()); }
// process noise: model (pos,ori); values i[0..]
template<int P,int R> static inline LinearPoseMotionModel model(const double* v){ LinearPoseMotionModel m(P,R); for(int k=0;k<=P;k++) m.setPosPN(k,*v++); for(int k=0;k<=R;k++) m.setOriPN(k,*v++); return m; }
template<int P,int R,int S> static inline void noise(const double* i,double* o){ LinearPoseMotionModel m(model<P,R>(i)); Matrix<double,S,S> c; getm(i+P+R+2+1,c); m.addNoise(c,i[P+R+2]); put(o,c); *o++=m.stateSize(); }
VF(noise00){ noise<0,0,7>(i,o); }
VF(noise11){ noise<1,1,13>(i,o); }
VF(noise21){ noise<2,1,16>(i,o); }
VF(noise02){ noise<0,2,13>(i,o); }
// Kalman measurement updates on a 4-state with 2-measurement; linear measurement function on a subrange
struct LinM { const double* a; std::size_t M,N; template<class V1,class V2,class M1> void evaluateWithJacobian(V1& r,const V2& x,M1& j) const { for(std::size_t p=0;p<M;p++){ double s=a[M*N+p]; for(std::size_t q=0;q<N;q++){ s+=a[p*N+q]*x(q); j(p,q)=a[p*N+q]; } r(p)=s; } } };
#define KM(name,b,e) VF(kal_##name){ ErrorVector<double,4> s(VN<4>(i),MT<4,4>(i+4)); ErrorVector<double,2> m(V2(i+20),MT<2,2>(i+22)); LinM f={i+26,2,e-b}; Stochastic::kalmanMeasurementUpdate<4,2>(s,f,m,b,e); put(o,s.value); put(o,s.covariance); }
KM(04,0,4) KM(13,1,3) KM(02,0,2)
#define KI(name,b,e) VF(kid_##name){ ErrorVector<double,4> s(VN<4>(i),MT<4,4>(i+4)); ErrorVector<double,2> m(V2(i+20),MT<2,2>(i+22)); Stochastic::kalmanMeasurementUpdateIdentity<4,2>(s,m,b,e); put(o,s.value); put(o,s.covariance); }
KI(02,0,2) KI(13,1,3) KI(24,2,4)
// filters.  state, covariance and clock are set directly, then one operation
static const MS::Timestamp T0=1000000000000ULL;
template<int P,int R,int S> static inline void mkf(PoseKalmanFilter& f,const double* i){ for(int k=0;k<S;k++) f.m_state(k)=i[k]; Matrix<double,S,S> c; getm(i+S,c); for(int a=0;a<S;a++)for(int b=0;b<S;b++) f.m_covariance(a,b)=c(a,b); f.m_time=T0; }
static inline void putf(double*& o,const PoseKalmanFilter& f){ for(std::size_t k=0;k<f.m_state.size();k++) *o++=f.m_state(k); for(std::size_t a=0;a<f.m_state.size();a++)for(std::size_t b=0;b<f.m_state.size();b++) *o++=f.m_covariance(a,b); *o++=(double)(long long)(f.m_time-T0)*1e-9; }
#define TU(name,P,R,S,IO,DT) VF(tu_##name){ PoseKalmanFilter f(model<P,R>(i),IO); mkf<P,R,S>(f,i+P+R+2); f.timeUpdate(T0+(DT)); putf(o,f); }
TU(11f,1,1,13,false,500000000LL) TU(11b,1,1,13,false,-250000000LL) TU(11z,1,1,13,false,0) TU(00f,0,0,7,false,500000000LL) TU(io0,0,1,10,true,500000000LL)
TU(11s,1,1,13,false,1953125LL) TU(11L,1,1,13,false,4194304000000000LL) TU(11B,1,1,13,false,-512000000000LL) TU(io0L,0,1,10,true,86400000000000LL)
#define PP(name,P,R,S,IO,DT) VF(pp_##name){ PoseKalmanFilter f(model<P,R>(i),IO); mkf<P,R,S>(f,i+P+R+2); MS::ErrorPose p=f.predictPose(T0+(DT)); put(o,(const Pose&)*p); put(o,p->covariance()); *o++=(double)(long long)(p.time()-T0)*1e-9; putf(o,f); }
PP(11f,1,1,13,false,500000000LL) PP(11b,1,1,13,false,-250000000LL) PP(00f,0,0,7,false,500000000LL) PP(io1,1,1,13,true,500000000LL)
PP(11s,1,1,13,false,1953125LL) PP(11L,1,1,13,false,4194304000000000LL) PP(11B,1,1,13,false,-512000000000LL) PP(io1L,1,1,13,true,86400000000000LL)
VF(pkf_init){ PoseKalmanFilter f(model<1,1>(i),false); putf(o,f); *o++=(double)f.m_time; }
VF(pkf_first){ PoseKalmanFilter f(model<0,0>(i),false); f.addPoseMeasurement(MS::ErrorPose(T0,ErrorPose(Q(i+2),V3(i+6),MT<6,6>(i+9)))); putf(o,f); }
VF(pkf_pose){ PoseKalmanFilter f(model<0,0>(i),false); mkf<0,0,7>(f,i+2); f.addPoseMeasurement(MS::ErrorPose(T0,ErrorPose(Q(i+58),V3(i+62),MT<6,6>(i+65)))); putf(o,f); }
VF(pkf_rot){ PoseKalmanFilter f(model<0,1>(i),false); mkf<0,1,10>(f,i+3); f.addRotationMeasurement(MS::Rotation(T0,Q(i+113))); putf(o,f); }
VF(pkf_rotfirst){ PoseKalmanFilter f(model<0,1>(i),false); f.addRotationMeasurement(MS::Rotation(T0,Q(i+3))); putf(o,f); }
VF(pkf_vel){ PoseKalmanFilter f(model<0,1>(i),false); mkf<0,1,10>(f,i+3); f.addRotationVelocityMeasurement(MS::RotationVelocity(T0,RotationVelocity(V3(i+113)))); putf(o,f); }
VF(pkf_ivel){ PoseKalmanFilter f(model<0,1>(i),false); mkf<0,1,10>(f,i+3); f.addInverseRotationVelocityMeasurement(MS::RotationVelocity(T0,RotationVelocity(V3(i+113)))); putf(o,f); }
VF(pkf_velfirst){ PoseKalmanFilter f(model<0,1>(i),false); f.addRotationVelocityMeasurement(MS::RotationVelocity(T0,RotationVelocity(V3(i+3)))); f.addInverseRotationVelocityMeasurement(MS::RotationVelocity(T0,RotationVelocity(V3(i+3)))); putf(o,f); *o++=(double)f.m_time; }
VF(pkf_noinit){ PoseKalmanFilter f(model<0,0>(i),false); f.predictPose(T0); }
VF(pkf_ioctor20){ LinearPoseMotionModel m(2,1); PoseKalmanFilter f(m,true); }
VF(pkf_ioctor02){ LinearPoseMotionModel m(0,2); PoseKalmanFilter f(m,true); }
VF(pkf_ioctor00){ LinearPoseMotionModel m(0,0); PoseKalmanFilter f(m,true); }
static inline void mkr(RotationOnlyKF& f,const double* i){ f.m_state.value=VN<7>(i); getm(i+7,f.m_state.covariance); f.m_time=T0; }
static inline void putr(double*& o,const RotationOnlyKF& f){ put(o,f.getState()); put(o,f.m_state.covariance); *o++=(double)(long long)(f.m_time-T0)*1e-9; }
#define RTU(name,DT) VF(rkf_tu##name){ RotationOnlyKF f; mkr(f,i); f.timeUpdate(T0+(DT)); putr(o,f); } VF(rkf_pr##name){ RotationOnlyKF f; mkr(f,i); MS::Rotation r=f.predict(T0+(DT)); put(o,*r); *o++=(double)(long long)(r.time()-T0)*1e-9; putr(o,f); }
RTU(f,500000000LL) RTU(b,-250000000LL)
VF(rkf_init){ RotationOnlyKF f; putr(o,f); *o++=(double)f.m_time; }
VF(rkf_rot){ RotationOnlyKF f; mkr(f,i); f.addRotationMeasurement(MS::Rotation(T0,Q(i+56))); putr(o,f); }
VF(rkf_velfirst){ RotationOnlyKF f; f.addVelocityMeasurement(MS::RotationVelocity(T0,RotationVelocity(V3(i)))); putr(o,f); }
VF(rkf_rotfirst){ RotationOnlyKF f; f.addRotationMeasurement(MS::Rotation(T0,Q(i))); putr(o,f); }
VF(rkf_vel){ RotationOnlyKF f; mkr(f,i); f.addVelocityMeasurement(MS::RotationVelocity(T0,RotationVelocity(V3(i+56)))); putr(o,f); }
