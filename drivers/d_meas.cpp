// measurements, timestamps, clocks
#include <cmath>
#include <vector>
#include "vf.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utMath/ErrorPose.cpp"
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/CameraIntrinsics.h>
#include <utMeasurement/Measurement.h>
#include "ser_io.h"
namespace M = Ubitrack::Measurement;
template<class T> struct mm {
	typedef M::Measurement<T> Me; typedef boost::shared_ptr<T> P;
	static T val(const double*& i){ T x; io<T>::mk(i,x); return x; }
	static void st(double*& o,const Me& m){ *o++=(double)m.time(); *o++=m.invalid(); *o++=(m.get()==0); }
	static void full(double*& o,const Me& m){ st(o,m); io<T>::un(o,*m); }
};
static inline ull tm_(const double*& i){ return *(const ull*)i++; }
#define ALL(n,...) \
VF(n##_def){ typedef mm<__VA_ARGS__> X; X::Me m; X::st(o,m); } \
VF(n##_t){ typedef mm<__VA_ARGS__> X; X::Me m(tm_(i)); X::st(o,m); } \
VF(n##_p){ typedef mm<__VA_ARGS__> X; X::P p(new __VA_ARGS__(X::val(i))); X::Me m(p); *o++=(m.get()==p.get()); X::full(o,m); } \
VF(n##_v){ typedef mm<__VA_ARGS__> X; __VA_ARGS__ v(X::val(i)); X::Me m(v); v=X::val(i); X::full(o,m); } \
VF(n##_tp){ typedef mm<__VA_ARGS__> X; ull t=tm_(i); X::P p(new __VA_ARGS__(X::val(i))); X::Me m(t,p); *o++=(m.get()==p.get()); X::full(o,m); } \
VF(n##_tv){ typedef mm<__VA_ARGS__> X; ull t=tm_(i); __VA_ARGS__ v(X::val(i)); X::Me m(t,v); v=X::val(i); X::full(o,m); } \
VF(n##_share){ typedef mm<__VA_ARGS__> X; ull t=tm_(i); X::Me a(t,X::val(i)); X::Me b(a); X::Me c; c=a; *a=X::val(i); b.time(tm_(i)); X::full(o,a); X::full(o,b); X::full(o,c); } \
VF(n##_clone){ typedef mm<__VA_ARGS__> X; ull t=tm_(i); X::Me a(t,X::val(i)); X::Me b(a.clone()); X::Me c(a.clone()); *a=X::val(i); *c=X::val(i); b.time(tm_(i)); X::full(o,a); X::full(o,b); X::full(o,c); } \
VF(n##_clone0){ typedef mm<__VA_ARGS__> X; X::Me a(tm_(i)); X::Me b(a.clone()); X::st(o,a); X::st(o,b); } \
VF(n##_inv){ typedef mm<__VA_ARGS__> X; ull t=tm_(i); X::Me a(t,X::val(i)); X::Me b(a); a.invalidate(); X::full(o,a); X::full(o,b); } \
VF(n##_cast){ typedef mm<__VA_ARGS__> X; ull t=tm_(i); M::Measurement<const __VA_ARGS__> a(t,X::P(new __VA_ARGS__(X::val(i)))); X::Me b(a.constCast<__VA_ARGS__>()); *b=X::val(i); *o++=(a.get()==b.get()); X::full(o,b); *o++=(double)a.time(); io<__VA_ARGS__ >::un(o,*a); }
ALL(pose,Math::Pose)
ALL(pos,Math::Vector<double,3>)
ALL(dist,Math::Scalar<double>)
ALL(id,Math::Scalar<unsigned long>)
ALL(rot,Math::Quaternion)
ALL(m33,Math::Matrix<double,3,3>)
ALL(epose,Math::ErrorPose)
ALL(epos,Math::ErrorVector<double,3>)
ALL(plist,std::vector<Math::Vector<double,3> >)
ALL(idlist,std::vector<Math::Scalar<unsigned long> >)
