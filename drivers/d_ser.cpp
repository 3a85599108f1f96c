// storage of data types: write to a stand-in archive, read back
#include <vector>
#include "vf.h"
#include "mock_ar.h"
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/RotationVelocity.h>
#include <utMath/CameraIntrinsics.h>
#include <utMeasurement/Measurement.h>
#include <utSerialization/BoostArchiveSerializer.h>
namespace BA = Ubitrack::Serialization::BoostArchive;
#include "ser_io.h"
static inline void wire(double*& o, const Wire& w){ for(int k=0;k<w.n;k++){ *o++=w.kind[k]; *o++=w.num[k]; } }
// o: number of items, items left over, (kind,value) of each item, object read back
template<class T> static void rt(const double* i,double* o,T& x,T& y){ Wire w; { MockOut a(w); BA::serialize(a,x); } { MockIn a(w); BA::deserialize(a,y); } io<T>::un(o,x); *o++=w.n; *o++=w.n-w.r; wire(o,w); io<T>::un(o,y); }
#define RT(name,...) VF(ser_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); T y; rt(i,o,x,y); } \
 VF(sov_##name){ typedef __VA_ARGS__ T; T x,y; io<T>::mk(i,x); io_len=5; io<T>::mk(i,y); Wire w; { MockOut a(w); BA::serialize(a,x); } { MockIn a(w); BA::deserialize(a,y); } *o++=w.n-w.r; io<T>::un(o,y); io<T>::un(o,x); }
#define RL(name,n,...) VF(ser_##name){ typedef __VA_ARGS__ T; io_len=n; T x; io<T>::mk(i,x); T y; rt(i,o,x,y); }
RL(lpL,20,std::vector<Math::Pose>) RL(lvL,40,std::vector<Vector<double,3> >) RL(lv0,0,std::vector<Vector<double,3> >) RL(mlvL,40,Measurement::PositionList) RL(luL,131,std::vector<Scalar<unsigned long> >)
RT(v2, Vector<double,2>) RT(v3, Vector<double,3>) RT(v4, Vector<double,4>) RT(v8, Vector<double,8>) RT(v3f, Vector<float,3>) RT(v2u, Vector<std::size_t,2>)
RT(m33, Matrix<double,3,3>) RT(m34, Matrix<double,3,4>) RT(m44, Matrix<double,4,4>) RT(m34f, Matrix<float,3,4>)
RT(q, Quaternion) RT(p, Math::Pose) RT(ep, Math::ErrorPose) RT(ev2, ErrorVector<double,2>) RT(ev3, ErrorVector<double,3>)
RT(sd, Scalar<double>) RT(si, Scalar<int>) RT(su, Scalar<unsigned long>) RT(rv, Math::RotationVelocity)
RT(lp, std::vector<Math::Pose>) RT(lv, std::vector<Vector<double,3> >) RT(lu, std::vector<Scalar<unsigned long> >)
RT(mp, Measurement::Pose) RT(mr, Measurement::Rotation) RT(mb, Measurement::Button) RT(mv, Measurement::Position) RT(mm, Measurement::Matrix3x4) RT(mep, Measurement::ErrorPose) RT(mev, Measurement::ErrorPosition) RT(mlv, Measurement::PositionList)
// camera model; i: 9 matrix, 2 dimensions, 6 radial, 2 tangential, then 19 cells of what the target held before
template<class T> static void mkc(const double*& i, CameraIntrinsics<T>& c, int n){ io<Matrix<T,3,3> >::mk(i,c.matrix); io<Vector<std::size_t,2> >::mk(i,c.dimension); c.radial_size=n; io<Vector<T,6> >::mk(i,c.radial_params); io<Vector<T,2> >::mk(i,c.tangential_params); c.reset(); }
template<class T> static void cam(const double* i,double* o,int n,int old){ CameraIntrinsics<T> x,y; mkc(i,x,n); if(old>=0) mkc(i,y,old);
	Wire w; { MockOut a(w); BA::serialize(a,x); } { MockIn a(w); BA::deserialize(a,y); } *o++=w.n; *o++=w.n-w.r; wire(o,w);
	io<Matrix<T,3,3> >::un(o,y.matrix); io<Vector<std::size_t,2> >::un(o,y.dimension); *o++=(double)y.radial_size; *o++=(double)(int)y.calib_type; io<Vector<T,6> >::un(o,y.radial_params); io<Vector<T,2> >::un(o,y.tangential_params); }
#define CAM(n) VF(cam##n##_d){ cam<double>(i,o,n,-1); } VF(cam##n##_f){ cam<float>(i,o,n,-1); } VF(cam##n##_over6){ cam<double>(i,o,n,6); } VF(cam##n##_over3){ cam<double>(i,o,n,3); }
CAM(0) CAM(2) CAM(3) CAM(4) CAM(6)
// corrupt archive: n radial parameters announced
VF(cam_bad7){ Wire w; MockOut a(w); CameraIntrinsics<double> x; mkc(i,x,6); BA::serialize(a,x); *(std::size_t*)&w.v[11]=7; CameraIntrinsics<double> y; MockIn b(w); BA::deserialize(b,y); *o=1; }
VF(cam_badmax){ Wire w; MockOut a(w); CameraIntrinsics<double> x; mkc(i,x,6); BA::serialize(a,x); *(std::size_t*)&w.v[11]=(std::size_t)-1; CameraIntrinsics<double> y; MockIn b(w); BA::deserialize(b,y); *o=1; }
VF(mnull){ Wire w; MockOut a(w); Measurement::Pose x((ull)5); BA::serialize(a,x); *o=1; }
