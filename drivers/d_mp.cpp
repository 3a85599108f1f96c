// msgpack storage: pack with a stand-in packer, convert the resulting object tree back
#include <vector>
#include "vf.h"
#include "mock_mp.h"
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/RotationVelocity.h>
#include <utMath/CameraIntrinsics.h>
#include <utMeasurement/Measurement.h>
#include <utSerialization/MsgpackSerializer.h>
#include "ser_io.h"
namespace MA = Ubitrack::Serialization::MsgpackArchive;
// leaves of the tree in order, arrays as (ARRAY,size)
static void leaves(double*& o,const msgpack::object& x){ *o++=(double)(int)x.type; if(x.type==msgpack::type::ARRAY){ *o++=x.via.array.size; for(unsigned k=0;k<x.via.array.size;k++) leaves(o,x.via.array.ptr[k]); } else if(x.type==msgpack::type::FLOAT64||x.type==msgpack::type::FLOAT32) *o++=x.via.f64; else *o++=(double)x.via.u64; }
static double flat[2000];
template<class T> static void rt(const double* i,double* o,T& x,T& y){ MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); io<T>::un(o,x); *o++=s.nroot; *o++=s.depth; leaves(o,s.pool[0]); io<T>::un(o,y); }
#define RL(name,n,...) VF(mp_##name){ typedef __VA_ARGS__ T; io_len=n; T x; io<T>::mk(i,x); T y; rt(i,o,x,y); } VF(as_##name){ typedef __VA_ARGS__ T; io_len=n; T x; io<T>::mk(i,x); MStream s; MA::serialize(s,x); T y=s.pool[0].as<T>(); io<T>::un(o,x); io<T>::un(o,y); }
RL(lpL,20,std::vector<Math::Pose>) RL(lvL,40,std::vector<Vector<double,3> >) RL(lv0,0,std::vector<Vector<double,3> >) RL(mlvL,40,Measurement::PositionList) RL(luL,131,std::vector<Scalar<unsigned long> >)
#define RT(name,...) VF(mov_##name){ typedef __VA_ARGS__ T; T x,y; io<T>::mk(i,x); io_len=5; io<T>::mk(i,y); MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); io<T>::un(o,y); io<T>::un(o,x); } VF(mp_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); T y; rt(i,o,x,y); } \
 VF(as_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); MStream s; MA::serialize(s,x); T y=s.pool[0].as<T>(); io<T>::un(o,x); io<T>::un(o,y); }
RT(v2, Vector<double,2>) RT(v3, Vector<double,3>) RT(v4, Vector<double,4>) RT(v8, Vector<double,8>) RT(v3f, Vector<float,3>) RT(v2u, Vector<std::size_t,2>)
RT(m33, Matrix<double,3,3>) RT(m34, Matrix<double,3,4>) RT(m44, Matrix<double,4,4>) RT(m34f, Matrix<float,3,4>) RT(m26, Matrix<double,2,6>)
RT(q, Quaternion) RT(p, Math::Pose) RT(ep, Math::ErrorPose) RT(ev2, ErrorVector<double,2>) RT(ev3, ErrorVector<double,3>)
RT(sd, Scalar<double>) RT(su, Scalar<unsigned long>) RT(rv, Math::RotationVelocity)
RT(lp, std::vector<Math::Pose>) RT(lv, std::vector<Vector<double,3> >) RT(lu, std::vector<Scalar<unsigned long> >)
RT(mp, Measurement::Pose) RT(mr, Measurement::Rotation) RT(mv, Measurement::Position) RT(mm, Measurement::Matrix3x4) RT(mep, Measurement::ErrorPose) RT(mev, Measurement::ErrorPosition) RT(mlv, Measurement::PositionList)
// boxed in memory instead of streamed: must be the same tree
#define ZN(name,...) VF(zn_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); MStream s; MA::serialize(s,x); msgpack::zone z; msgpack::object b(x,z); leaves(o,s.pool[0]); leaves(o,b); }
ZN(v3, Vector<double,3>) ZN(v4, Vector<double,4>) ZN(m33, Matrix<double,3,3>) ZN(m34, Matrix<double,3,4>) ZN(m26, Matrix<double,2,6>) ZN(q, Quaternion) ZN(p, Math::Pose) ZN(ep, Math::ErrorPose) ZN(ev2, ErrorVector<double,2>) ZN(ev3, ErrorVector<double,3>)
ZN(sd, Scalar<double>) ZN(rv, Math::RotationVelocity) ZN(mp, Measurement::Pose) ZN(mm, Measurement::Matrix3x4)
// integers over the whole range
template<class T> static void rint(double* o,T v){ Scalar<T> x(v),y; MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); Scalar<T> z=s.pool[0].as<Scalar<T> >(); *o++=(double)(T)y; *o++=(double)(T)z; *o++=(double)v; }
VF(int_a){ rint<int>(o,5); } VF(int_b){ rint<int>(o,-7); } VF(int_c){ rint<int>(o,2147483647); } VF(int_d){ rint<int>(o,-2147483647-1); } VF(int_e){ rint<int>(o,0); }
// dynamically sized vector into one of another size
VF(dyn_grow){ Vector<double,0> x(5),y(2); for(int k=0;k<5;k++) x(k)=i[k]; MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); Vector<double,0> z=s.pool[0].as<Vector<double,0> >(); *o++=y.size(); put(o,y); *o++=z.size(); put(o,z); }
VF(dyn_shrink){ Vector<double,0> x(2),y(5); for(int k=0;k<5;k++) y(k)=i[k+2]; for(int k=0;k<2;k++) x(k)=i[k]; MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); *o++=y.size(); put(o,y); }
// camera models
template<class T> static void mkc(const double*& i, CameraIntrinsics<T>& c, int n,bool old=false){ io<Matrix<T,3,3> >::mk(i,c.matrix); io<Vector<std::size_t,2> >::mk(i,c.dimension); c.radial_size=n; io<Vector<T,6> >::mk(i,c.radial_params); io<Vector<T,2> >::mk(i,c.tangential_params); c.reset(); }
template<class T> static void unc(double*& o, const CameraIntrinsics<T>& c){ io<Matrix<T,3,3> >::un(o,c.matrix); io<Vector<std::size_t,2> >::un(o,c.dimension); *o++=(double)c.radial_size; *o++=(double)(int)c.calib_type; io<Vector<T,6> >::un(o,c.radial_params); io<Vector<T,2> >::un(o,c.tangential_params); }
template<class T> static void cam(const double* i,double* o,int n){ CameraIntrinsics<T> x,y; mkc(i,x,n); mkc(i,y,6); MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); CameraIntrinsics<T> z=s.pool[0].template as<CameraIntrinsics<T> >(); unc(o,x); unc(o,y); unc(o,z); leaves(o,s.pool[0]); msgpack::zone zo; msgpack::object b(x,zo); leaves(o,b); }
#define CAM(n) VF(mcam##n##_d){ cam<double>(i,o,n); } VF(mcam##n##_f){ cam<float>(i,o,n); }
CAM(0) CAM(2) CAM(3) CAM(4) CAM(6)
// measurement without a value
VF(nil){ Measurement::Pose x((ull)77), y((ull)99,PO(i)); MStream s; MA::serialize(s,x); MParser p(s); MA::deserialize(p,y); *o++=y.get()==0; *o++=y.invalid(); Measurement::Pose z=s.pool[0].as<Measurement::Pose>(); *o++=z.get()==0; *o++=z.invalid(); msgpack::zone zo; msgpack::object b(x,zo); *o++=b.is_nil(); }
VF(empty){ MStream s; MParser p(s); Math::Pose y; MA::deserialize(p,y); *o=1; }
VF(two){ MStream s; Math::Pose a=PO(i), b=PO(i+7), x, y; MA::serialize(s,a); MA::serialize(s,b); MParser p(s); MA::deserialize(p,x); MA::deserialize(p,y); put(o,x); put(o,y); }
// malformed trees
#define BAD(name,tamper,...) VF(bad_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); MStream s; MA::serialize(s,x); msgpack::object* t=s.pool; tamper; MParser p(s); T y; MA::deserialize(p,y); *o=1; } \
 VF(bas_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); MStream s; MA::serialize(s,x); msgpack::object* t=s.pool; tamper; T y=t[0].as<T>(); *o=1; }
#define SHAPE(name,...) BAD(name##_less,t[0].via.array.size--,__VA_ARGS__) BAD(name##_more,t[0].via.array.size++,__VA_ARGS__) BAD(name##_none,t[0].via.array.size=0,__VA_ARGS__) BAD(name##_type,t[0].type=msgpack::type::MAP,__VA_ARGS__) BAD(name##_num,t[0].type=msgpack::type::FLOAT64;t[0].via.f64=1,__VA_ARGS__) BAD(name##_elem,t[1].type=msgpack::type::STR,__VA_ARGS__)
SHAPE(v3,Vector<double,3>) SHAPE(m33,Matrix<double,3,3>) SHAPE(m34,Matrix<double,3,4>) SHAPE(q,Quaternion) SHAPE(rv,RotationVelocity) SHAPE(p,Math::Pose) SHAPE(ep,Math::ErrorPose) SHAPE(ev3,ErrorVector<double,3>) SHAPE(mp,Measurement::Pose)
BAD(p_rot,t[1].via.array.size=3,Math::Pose) BAD(p_tr,t[2].via.array.size=2,Math::Pose) BAD(ep_cov,t[3].via.array.size=35,Math::ErrorPose) BAD(ev_cov,t[2].via.array.size=8,ErrorVector<double,3>)
BAD(ts_neg,t[1].type=msgpack::type::NEGATIVE_INTEGER;t[1].via.i64=-1,Measurement::Pose) BAD(ts_flt,t[1].type=msgpack::type::FLOAT64;t[1].via.f64=1,Measurement::Pose)
BAD(sd_str,t[0].type=msgpack::type::STR,Scalar<double>) BAD(sd_nil,t[0].type=msgpack::type::NIL,Scalar<double>)
#define CBAD(name,tamper) VF(bad_c_##name){ CameraIntrinsics<double> x,y; mkc(i,x,6); MStream s; MA::serialize(s,x); msgpack::object* t=s.pool; tamper; MParser p(s); MA::deserialize(p,y); *o=1; } VF(bas_c_##name){ CameraIntrinsics<double> x; mkc(i,x,6); MStream s; MA::serialize(s,x); msgpack::object* t=s.pool; tamper; CameraIntrinsics<double> y=t[0].as<CameraIntrinsics<double> >(); *o=1; }
CBAD(less,t[0].via.array.size--) CBAD(more,t[0].via.array.size++) CBAD(type,t[0].type=msgpack::type::MAP) CBAD(ct,t[1].type=msgpack::type::STR) CBAD(dim,t[2].via.array.size=1) CBAD(mat,t[3].via.array.size=8) CBAD(rs,t[4].via.u64=7) CBAD(rsneg,t[4].type=msgpack::type::NEGATIVE_INTEGER;t[4].via.i64=-1) CBAD(rp,t[5].via.array.size=5) CBAD(tp,t[6].via.array.size=3)
