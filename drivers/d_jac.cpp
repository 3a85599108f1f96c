// entry points over every hand-written derivative of the optimisation functions
#include "vf.h"
#include <vector>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utMath/Optimization/Function/QuaternionVectorRotation.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utAlgorithm/Function/ProjectivePoseNormalize.h>
#include <utMath/CameraIntrinsics.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
namespace AF = Ubitrack::Algorithm::Function;
namespace MF = Ubitrack::Math::Optimization::Function;
// value, jacobian, and both again from evaluateWithJacobian
template<std::size_t M,std::size_t N,class F> static inline void all(double*& o, const F& f, const Vector<double,N>& x){
  Vector<double,M> r; Matrix<double,M,N> J; f.evaluate(r,x); put(o,r); f.jacobian(x,J); put(o,J);
  Vector<double,M> r2; Matrix<double,M,N> J2; f.evaluateWithJacobian(r2,x,J2); put(o,r2); put(o,J2); *o++=(double)f.size(); }
VF(linear){ Matrix<double,2,3> A(MT<2,3>(i)); MF::LinearFunction<2,3,double> f(A); all<2,3>(o,f,V3(i+6)); }
VF(qvrot){ MF::QuaternionVectorRotation f; Vector<double,3> r,r2; Vector<double,4> q(V4(i)); Vector<double,3> v(V3(i+4)); Matrix<double,3,4> a,a2; Matrix<double,3,3> b,b2;
 f.evaluate(r,q,v); put(o,r); f.jacobian(q,v,a,b); put(o,a); put(o,b); f.evaluateWithJacobian(r2,q,v,a2,b2); put(o,r2); put(o,a2); put(o,b2); }
VF(vnorm){ MF::VectorNormalize f(4); all<4,4>(o,f,V4(i)); }
VF(rvint){ MF::RotationVelocityIntegration f(i[3]); all<4,3>(o,f,V3(i)); }
struct Sq { unsigned size() const { return 2; } template<class A,class B> void evaluate(A& r,const B& x) const { r(0)=x(0)*x(0)*x(1); r(1)=x(1)*x(2); } };
VF(discrete){ Sq s; MF::DiscreteJacobianApproximation<Sq> f(s,i[3]); all<2,3>(o,f,V3(i)); }
VF(caminv){ Vector<double,2> p(V2(i)); AF::CameraIntrinsicsMultiplication<double> f(p); all<2,5>(o,f,VN<5>(i+2)); }
VF(dehom3){ AF::Dehomogenization<3> f; all<2,3>(o,f,V3(i)); }
VF(dehom4){ AF::Dehomogenization<4> f; all<3,4>(o,f,V4(i)); }
VF(lie){ Vector<double,3> v(V3(i+3)); AF::LieRotation<double> f(v); all<3,3>(o,f,V3(i)); }
VF(qrot){ Vector<double,3> v(V3(i+4)); AF::QuaternionRotation<double> f(v); all<3,4>(o,f,V4(i)); }
VF(qrote){ Vector<double,3> v(V3(i+4)); AF::QuaternionRotationError<double> f(v); Matrix<double,3,3> J; f.jacobian(V4(i),J); put(o,J); }
VF(distp){ Vector<double,4> d(V4(i+2)); AF::RadialDistortionWrtP<double> f(d); all<2,2>(o,f,V2(i)); }
VF(distd){ Vector<double,2> p(V2(i)); AF::RadialDistortionWrtD<double> f(p); all<2,4>(o,f,V4(i+2)); }
VF(hecm){ AF::RotHecMeasurement f(Q(i+4),Q(i+8)); Vector<double,4> r; Matrix<double,4,4> J; f.evaluateWithJacobian(r,V4(i),J); put(o,r); put(o,J); }
VF(hecc){ AF::RotHecCombine f(Q(i)); Matrix<double,4,4> a,b; f.jacobian(V4(i+4),V4(i+8),a,b); put(o,a); put(o,b); }
// dynamic-size variants
template<class F> static inline void alld(double*& o, const F& f, const Vector<double>& x, std::size_t n){ std::size_t m=n;
  Vector<double> r(m),r2(m); Matrix<double> J(m,x.size()),J2(m,x.size()); f.evaluate(r,x); put(o,r); f.jacobian(x,J); put(o,J);
  f.evaluateWithJacobian(r2,x,J2); put(o,r2); put(o,J2); *o++=(double)f.size(); }
static inline Vector<double> VD(const double* p,std::size_t n){ Vector<double> v(n); for(std::size_t k=0;k<n;k++) v(k)=p[k]; return v; }
typedef std::vector<Vector<double,3> > VV3;
static inline VV3 PTS(const double* p,std::size_t n){ VV3 v; v.reserve(n); for(std::size_t k=0;k<n;k++) v.push_back(V3(p+3*k)); return v; }
VF(mpp){ VV3 p(PTS(i+7,2)); Matrix<double,3,3> K(MT<3,3>(i+13)); AF::MultiplePointProjection<double> f(p,K); alld(o,f,VD(i,7),4); }
VF(mppe){ VV3 p(PTS(i+7,2)); Matrix<double,3,3> K(MT<3,3>(i+13)); AF::MultiplePointProjectionError<double> f(p,K); Matrix<double> J(4,6); f.jacobian(VD(i,7),J); put(o,J); *o++=f.size(); }
// two points, two cameras, visibilities (1,0) (0,1): order matters
typedef std::vector<std::pair<std::size_t,std::size_t> > VIS;
static inline VIS vis(){ VIS v; v.reserve(3); v.push_back(std::make_pair(std::size_t(1),std::size_t(0))); v.push_back(std::make_pair(std::size_t(0),std::size_t(1))); return v; }
VF(mcp){ VV3 p(PTS(i+7,2)); std::vector<Pose> P; P.reserve(2); P.push_back(PO(i+13)); P.push_back(PO(i+20)); std::vector<Matrix<double,3,3> > K; K.reserve(2); K.push_back(MT<3,3>(i+27)); K.push_back(MT<3,3>(i+36));
 std::vector<Vector<double,4> > D; D.reserve(2); D.push_back(V4(i+45)); D.push_back(V4(i+49)); AF::MultipleCameraProjection<double> f(p,P,K,D,vis()); alld(o,f,VD(i,7),4); }
VF(mcpe){ VV3 p(PTS(i+7,2)); std::vector<Matrix<double,3,4> > K; K.reserve(2); K.push_back(MT<3,4>(i+13)); K.push_back(MT<3,4>(i+25)); AF::MultipleCameraProjectionError<double> f(p,K,vis()); Matrix<double> J(4,6); f.jacobian(VD(i,7),J); put(o,J); *o++=f.size(); }
VF(mcpart){ VV3 p(PTS(i+6,2)); std::vector<Matrix<double,3,4> > K; K.reserve(2); K.push_back(MT<3,4>(i+12)); K.push_back(MT<3,4>(i+24)); std::vector<std::pair<unsigned,unsigned> > v; v.reserve(2); v.push_back(std::make_pair(1u,0u)); v.push_back(std::make_pair(0u,1u));
 AF::MultipleCameraProjectionErrorART<double> f(p,K,v,V3(i+36)); Matrix<double> J(4,6); f.jacobian(VD(i,6),J); put(o,J); *o++=f.size(); }
VF(spmp){ std::vector<Matrix<double,3,4> > K; K.reserve(2); K.push_back(MT<3,4>(i+3)); K.push_back(MT<3,4>(i+15)); typedef std::vector<Matrix<double,3,4> >::const_iterator It; AF::SinglePointMultiProjection<double,It> f(K.begin(),K.end()); alld(o,f,VD(i,3),4); }
VF(ppn){ Vector<double,7> r; AF::ProjectivePoseNormalize().evaluate(r,VN<7>(i)); put(o,r); }
VF(tip){ std::vector<Pose> P; P.reserve(2); P.push_back(PO(i+6)); P.push_back(PO(i+13)); typedef std::vector<Pose>::const_iterator It; Algorithm::ToolTip::MultiplePoseSinglePointTransformation<It> f(P.begin(),P.end()); alld(o,f,VD(i,6),2); }
VF(pcsp){ VV3 p(PTS(i+7,2)); typedef VV3::const_iterator It; Algorithm::PoseEstimation3D3D::PointCorrespodencesSinglePose<It> f(p.begin(),p.end()); alld(o,f,VD(i,7),6); }
// the same with more points (5), cameras (3) and a longer, unordered visibility list
static inline VIS vis5(){ static const int a[9]={4,0,2,1,3,4,0,2,4},b[9]={1,2,0,1,2,0,0,1,2}; VIS v; for(int k=0;k<9;k++) v.push_back(std::make_pair(std::size_t(a[k]),std::size_t(b[k]))); return v; }
VF(mppL){ VV3 p(PTS(i+16,40)); Matrix<double,3,3> K(MT<3,3>(i+7)); AF::MultiplePointProjection<double> f(p,K); alld(o,f,VD(i,7),80); }
VF(mppeL){ VV3 p(PTS(i+16,40)); Matrix<double,3,3> K(MT<3,3>(i+7)); AF::MultiplePointProjectionError<double> f(p,K); Matrix<double> J(80,6); f.jacobian(VD(i,7),J); put(o,J); *o++=f.size(); }
VF(mcpL){ VV3 p(PTS(i+7,5)); std::vector<Pose> P; std::vector<Matrix<double,3,3> > K; std::vector<Vector<double,4> > D; for(int k=0;k<3;k++){ const double* j=i+22+20*k; P.push_back(PO(j)); K.push_back(MT<3,3>(j+7)); D.push_back(V4(j+16)); }
 VIS w(vis5()); AF::MultipleCameraProjection<double> f(p,P,K,D,w); alld(o,f,VD(i,7),18); }
VF(mcpeL){ VV3 p(PTS(i+7,5)); std::vector<Matrix<double,3,4> > K; for(int k=0;k<3;k++) K.push_back(MT<3,4>(i+22+12*k)); VIS w(vis5()); AF::MultipleCameraProjectionError<double> f(p,K,w); Matrix<double> J(18,6); f.jacobian(VD(i,7),J); put(o,J); *o++=f.size(); }
VF(mcpartL){ VV3 p(PTS(i+6,5)); std::vector<Matrix<double,3,4> > K; for(int k=0;k<3;k++) K.push_back(MT<3,4>(i+21+12*k)); VIS w(vis5()); std::vector<std::pair<unsigned,unsigned> > v; for(std::size_t k=0;k<w.size();k++) v.push_back(std::make_pair((unsigned)w[k].first,(unsigned)w[k].second));
 AF::MultipleCameraProjectionErrorART<double> f(p,K,v,V3(i+57)); Matrix<double> J(18,6); f.jacobian(VD(i,6),J); put(o,J); *o++=f.size(); }
VF(spmpL){ std::vector<Matrix<double,3,4> > K; for(int k=0;k<12;k++) K.push_back(MT<3,4>(i+3+12*k)); typedef std::vector<Matrix<double,3,4> >::const_iterator It; AF::SinglePointMultiProjection<double,It> f(K.begin(),K.end()); alld(o,f,VD(i,3),24); }
VF(tipL){ std::vector<Pose> P; for(int k=0;k<6;k++) P.push_back(PO(i+6+7*k)); typedef std::vector<Pose>::const_iterator It; Algorithm::ToolTip::MultiplePoseSinglePointTransformation<It> f(P.begin(),P.end()); alld(o,f,VD(i,6),6); }
VF(pcspL){ VV3 p(PTS(i+7,40)); typedef VV3::const_iterator It; Algorithm::PoseEstimation3D3D::PointCorrespodencesSinglePose<It> f(p.begin(),p.end()); alld(o,f,VD(i,7),120); }
VF(undist){ Vector<double,6> k(VN<6>(i+2)); Vector<double,2> t(V2(i+8)); Algorithm::CameraLens::internal::PointUndistortion<double> f(k,t); all<2,2>(o,f,V2(i)); }
