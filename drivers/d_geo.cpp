// points, conics, quadrics
#include "vf.h"
#include <vector>
#include <functional>
#include <cmath>
#include <utUtil/Exception.h>
#include <utMath/Geometry/container_traits.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/QuadricFunctors.h>
using namespace Ubitrack::Math::Geometry;
#define TP(M,N,K) VF(tp##M##N##K){ put(o,TransformPoint()(MT<M,N>(i),VN<K>(i+M*N))); }
TP(2,3,2) TP(2,3,3) TP(3,3,2) TP(3,3,3) TP(3,4,2) TP(3,4,3) TP(3,4,4) TP(4,4,2) TP(4,4,3) TP(4,4,4)
#define TR(M,N,K) VF(tr##M##N##K){ std::vector<Vector<double,K> > p; std::vector<Vector<double,M> > r(2); p.push_back(VN<K>(i+M*N)); p.push_back(VN<K>(i+M*N+K)); \
 transform_points(MT<M,N>(i),p.begin(),p.end(),r.begin()); put(o,r[0]); put(o,r[1]); }
TR(2,3,2) TR(3,3,2) TR(3,4,3) TR(3,4,4) TR(4,4,3) TR(4,4,4)
#define TRM(M,N,K) VF(trm##M##N##K){ std::vector<Vector<double,K> > p; std::vector<Vector<double,M> > r(131); for(int k=0;k<131;k++) p.push_back(VN<K>(i+M*N+K*k)); \
 transform_points(MT<M,N>(i),p.begin(),p.end(),r.begin()); for(int k=0;k<131;k++) put(o,r[k]); }
TRM(2,3,2) TRM(3,3,2) TRM(3,4,3) TRM(3,4,4) TRM(4,4,3) TRM(4,4,4)
#define PPM(M,N,K) VF(ppm##M##N##K){ std::vector<Vector<double,K> > p; std::vector<Vector<double,2> > r(131); for(int k=0;k<131;k++) p.push_back(VN<K>(i+M*N+K*k)); project_points(MT<M,N>(i),p.begin(),p.end(),r.begin()); for(int k=0;k<131;k++) put(o,r[k]); }
PPM(3,3,2) PPM(3,4,2) PPM(3,4,3) PPM(3,4,4)
VF(trback){ std::vector<Vector<double,3> > p,r; p.push_back(VN<3>(i+12)); p.push_back(VN<3>(i+15)); transform_points(MT<3,4>(i),p.begin(),p.end(),std::back_inserter(r)); put(o,r[0]); put(o,r[1]); *o++=r.size(); }
#define PP(M,N,K) VF(pp##M##N##K){ put(o,ProjectPoint()(MT<M,N>(i),VN<K>(i+M*N))); put(o,ProjectPoint()(VN<K>(i+M*N),MT<M,N>(i))); \
 std::vector<Vector<double,K> > p; std::vector<Vector<double,2> > r(2); p.push_back(VN<K>(i+M*N)); p.push_back(VN<K>(i+M*N+K)); project_points(MT<M,N>(i),p.begin(),p.end(),r.begin()); put(o,r[0]); put(o,r[1]); }
PP(3,3,2) PP(3,4,2) PP(3,4,3) PP(3,4,4)
VF(norm2){ std::vector<Vector<double,2> > p; for(int k=0;k<4;k++) p.push_back(VN<2>(i+2*k)); Vector<double,2> s,c; estimateNormalizationParameters<2,double>(p.begin(),p.end(),s,c); put(o,s); put(o,c); }
VF(norm3){ std::vector<Vector<double,3> > p; for(int k=0;k<3;k++) p.push_back(VN<3>(i+3*k)); Vector<double,3> s,c; estimateNormalizationParameters<3,double>(p.begin(),p.end(),s,c); put(o,s); put(o,c); }
VF(norm2m){ std::vector<Vector<double,2> > p; for(int k=0;k<131;k++) p.push_back(VN<2>(i+2*k)); Vector<double,2> s,c; estimateNormalizationParameters<2,double>(p.begin(),p.end(),s,c); put(o,s); put(o,c); }
VF(norm3m){ std::vector<Vector<double,3> > p; for(int k=0;k<131;k++) p.push_back(VN<3>(i+3*k)); Vector<double,3> s,c; estimateNormalizationParameters<3,double>(p.begin(),p.end(),s,c); put(o,s); put(o,c); }
VF(nmat2){ put(o,generateNormalizationMatrix<2,double>(V2(i),V2(i+2),false)); put(o,generateNormalizationMatrix<2,double>(V2(i),V2(i+2),true)); }
VF(nmat3){ put(o,generateNormalizationMatrix<3,double>(V3(i),V3(i+3),false)); put(o,generateNormalizationMatrix<3,double>(V3(i),V3(i+3),true)); }
typedef Vector<double,6> C6;
static inline C6 c6(const double* p){ return VN<6>(p); }
VF(c_mat){ put(o,MatrixFromConic<double>()(c6(i))); }
VF(c_from){ put(o,ConicFromMatrix<double>()(MT<3,3>(i))); }
VF(c_inv){ put(o,ConicInverse<double>()(c6(i))); }
VF(c_det){ *o++=ConicDeterminant<double>()(c6(i)); }
VF(c_angle){ *o++=ConicAngle<double>()(c6(i)); }
VF(c_axes){ put(o,ConicSemiAxes<double>()(c6(i))); }
VF(c_center){ put(o,ConicCenter<double>()(c6(i))); }
VF(c_ecc){ *o++=ConicEccentricity<double>()(c6(i)); }
VF(c_area){ *o++=ConicArea<double>()(c6(i)); }
VF(c_class){ *o++=IsConicEllipse<double>()(c6(i)); *o++=IsConicHyperbola<double>()(c6(i)); }
VF(c_par){ *o++=IsConicParabola<double>(i[6])(c6(i)); *o++=IsConicDegenerate<double>(i[6])(c6(i)); }
VF(c_circ){ *o++=IsConicCircle<double>(i[6])(c6(i)); }
VF(c_scale){ put(o,ScaleConicUnsafe<double>(i[6],i[7])(c6(i))); put(o,ScaleConicUnsafe<double>(i[6])(c6(i))); }
VF(c_trans){ put(o,TranslateConic<double>()(V2(i+6),c6(i))); }
VF(c_pixel){ *o++=ConicPixel<double>()(c6(i),V2(i+6)); }
VF(c_flip){ put(o,FlipConicHorizontal<double>(i[6])(c6(i))); }
VF(c_ul){ put(o,ConicUpperLowerLimit<double>()(c6(i))); }
VF(c_lr){ put(o,ConicLeftRightLimit<double>()(c6(i))); }
VF(c_hi){ put(o,ConicHorizontalIntersection<double>()(c6(i),i[6])); }
VF(q_proj){ put(o,ProjectQuadric<double>()(MT<3,4>(i),VN<10>(i+12))); }
VF(q_ell){ put(o,Ellipsoid2Quadric<double>()(VN<6>(i))); }
VF(q_pell){ put(o,ProjectEllipsoid<double>()(MT<3,4>(i),VN<6>(i+12))); }
VF(q_psph){ put(o,ProjectSpheroid<double>()(MT<3,4>(i),VN<4>(i+12))); }
