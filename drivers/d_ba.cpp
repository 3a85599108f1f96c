// bundle adjustment: packing, residual, Jacobian and result; the optimiser is a contract stand-in
#include <vector>
#include <math.h>
#include "vf.h"
#include "mock_lm.h"
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/BundleAdjustment.cpp"
namespace AL = Ubitrack::Algorithm;
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }
// i: cams x 7 | pts x 3 | cams x pts x 2 | lm: cams x 7 + pts x 3 ; o: cams x 7 | pts x 3 | init | residual | J
template<class T,int C,int P> static inline void ba(const double* i,double* o){
  std::vector<Pose> c; std::vector<Vector<T,3> > p; std::vector<std::vector<Vector<T,2> > > z(C);
  for(int k=0;k<C;k++,i+=7) c.push_back(PO(i)); for(int k=0;k<P;k++,i+=3) p.push_back(Vector<T,3>(i[0],i[1],i[2]));
  for(int k=0;k<C;k++) for(int j=0;j<P;j++,i+=2) z[k].push_back(Vector<T,2>(i[0],i[1]));
  lm_in=i; lm_init=o+7*C+3*P; lm_out=lm_init+7*C+3*P; lm_J=lm_out+2*C*P;
  AL::simpleBundleAdjustment(z,c,p);
  for(int k=0;k<C;k++) put(o,c[k]); for(int k=0;k<P;k++) put(o,p[k]);
}
BOTH(ba22, { ba<T,2,2>(i,o); } )
BOTH(ba13, { ba<T,1,3>(i,o); } )
BOTH(ba31, { ba<T,3,1>(i,o); } )
BOTH(ba45, { ba<T,4,5>(i,o); } )
BOTH(ba17, { ba<T,1,12>(i,o); } )
template<class T> static inline void few(const double* i,int a,int b){ std::vector<Pose> c(2); std::vector<Vector<T,3> > p(2); std::vector<std::vector<Vector<T,2> > > z(2); z[0].resize(a); z[1].resize(b); double r[200]; lm_in=i; lm_out=r; AL::simpleBundleAdjustment(z,c,p); }
BOTH(few1, { few<T>(i,2,1); } )
BOTH(few2, { few<T>(i,1,2); } )
BOTH(few3, { few<T>(i,2,3); } )
