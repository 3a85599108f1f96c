#include "vf.h"
#include <utMath/Util/RotationCast.h>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
typedef Matrix<double,3,3> M33; typedef Matrix<double,4,4> M44; typedef Matrix<double,3,4> M34;
VF(qmul){ put(o,Quaternion(Q(i)*Q(i+4))); }
VF(qrot){ put(o,Q(i)*V3(i+4)); }
VF(qmat){ M33 m; Q(i).toMatrix(m); put(o,m); }
VF(qmatf){ Matrix<float,3,3> m; Q(i).toMatrix(m); put(o,m); }
VF(qconj){ put(o,~Q(i)); }
VF(qinvert){ Quaternion q=Q(i); put(o,q.invert()); put(o,q); }
VF(qnorm){ Quaternion q=Q(i); put(o,q.normalize()); put(o,q);}
VF(qdef){ put(o,Quaternion()); put(o,Pose()); }
VF(qfrommat3){ put(o,Quaternion(MT<3,3>(i))); }
VF(qfrommat4){ put(o,Quaternion(MT<4,4>(i))); }
VF(qaxang){ put(o,Quaternion(V3(i),i[3])); }
VF(qtoaxang){ Vector<double,3> a; double g; Q(i).toAxisAngle(a,g); put(o,a); *o=g; }
VF(qangle){ *o=Q(i).angle(); }
VF(qlog){ put(o,Q(i).toLogarithm()); }
VF(qexp){ put(o,Quaternion::fromLogarithm(V3(i))); }
VF(qeuler3){ put(o,Quaternion(i[0],i[1],i[2])); }
VF(qneg){ put(o,Q(i).negateIfCloser(Q(i+4))); }
VF(qeul){ put(o,Q(i).getEulerAngles()); }
#define EUL(s) VF(qeul_##s){ put(o,Q(i).getEulerAngles(Quaternion::EULER_SEQUENCE_##s)); }
EUL(XYZ) EUL(YZX) EUL(ZXY) EUL(ZYX) EUL(XZY) EUL(YXZ)
VF(qtovec){ Vector<double,4> v; Q(i).toVector(v); put(o,v); }
VF(qfromvec){ put(o,Quaternion::fromVector(V4(i))); }
VF(slerp){ put(o,slerp(Q(i),Q(i+4),i[8])); }
VF(qlerp){ put(o,linearInterpolate(Q(i),Q(i+4),i[8])); }
// poses
VF(pmul){ put(o,PO(i)*PO(i+7)); }
VF(pinv){ put(o,~PO(i)); }
VF(pvec){ put(o,PO(i)*V3(i+7)); }
VF(pscale){ Pose p=PO(i); p.scalePose(i[7]); put(o,p); }
VF(ptovec){ Vector<double,7> v; PO(i).toVector(v); put(o,v); }
VF(pfromvec){ put(o,Pose::fromVector(VN<7>(i))); }
VF(pfrommat44){ put(o,Pose(MT<4,4>(i))); }
VF(pfrommat34){ put(o,Pose(MT<3,4>(i))); }
VF(m44pose){ put(o,M44(PO(i))); }
VF(m34pose){ put(o,M34(PO(i))); }
VF(m33quat){ put(o,M33(Q(i))); }
VF(m34qt){ put(o,M34(Q(i),V3(i+4))); }
VF(m44qt){ put(o,M44(Q(i),V3(i+4))); }
VF(lhrh){ M44 m=MT<4,4>(i); leftHandToRightHandMatrix(m); put(o,m); }
VF(marr){ put(o,M34(i)); }
VF(mid){ put(o,M33::identity()); put(o,M34::zeros()); put(o,Matrix<double,0,0>::identity(2)); put(o,Matrix<double,0,0>::zeros(2,3)); put(o,Matrix<double,0,0>::scalar(2,3,i[0])); }
VF(peq){ Pose a=PO(i),b=PO(i+7); o[0]= a==b ? 1:0; o[1]= a!=b ?1:0; }
VF(plerp){ put(o,linearInterpolate(PO(i),PO(i+7),i[14])); }
VF(plerpv){ std::vector<Pose> a,b; a.push_back(PO(i)); a.push_back(PO(i+7)); b.push_back(PO(i+14)); b.push_back(PO(i+21)); std::vector<Pose> r=linearInterpolate(a,b,i[28]); put(o,r[0]); put(o,r[1]); }
// RotationCast
using Ubitrack::Math::Util::RotationCast;
typedef Vector<double,3> W3; typedef Vector<double,4> W4;
VF(rc_q_m3){ put(o,RotationCast<Quaternion>()(MT<3,3>(i))); }
VF(rc_q_m4){ put(o,RotationCast<Quaternion>()(MT<4,4>(i))); }
VF(rc_q_a4){ put(o,RotationCast<Quaternion>()(V4(i))); }
VF(rc_q_a3){ put(o,RotationCast<Quaternion>()(V3(i))); }
VF(rc_q_q){ put(o,RotationCast<Quaternion>()(Q(i))); }
VF(rc_a4_q){ put(o,RotationCast<W4>()(Q(i))); }
VF(rc_a4_a3){ put(o,RotationCast<W4>()(V3(i))); }
VF(rc_a4_m3){ put(o,RotationCast<W4>()(MT<3,3>(i))); }
VF(rc_a4_m4){ put(o,RotationCast<W4>()(MT<4,4>(i))); }
VF(rc_a3_a4){ put(o,RotationCast<W3>()(V4(i))); }
VF(rc_a3_q){ put(o,RotationCast<W3>()(Q(i))); }
VF(rc_a3_m3){ put(o,RotationCast<W3>()(MT<3,3>(i))); }
VF(rc_m3_q){ put(o,RotationCast<M33>()(Q(i))); }
VF(rc_m3_a4){ put(o,RotationCast<M33>()(V4(i))); }
VF(rc_m3_a3){ put(o,RotationCast<M33>()(V3(i))); }
