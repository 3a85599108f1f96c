// assignment problem: cost matrix -> matches
#include <vector>
#include <list>
#include <algorithm>
#include <cmath>
#include <cassert>
#include "vf.h"
#include <utMath/Graph/Munkres.h>
typedef Math::Matrix<double,0,0> MD;
// B: size of a problem the same object solved before
template<int R,int C,int B> static inline void mr(const double* i,double* o);
template<int R,int C> static inline void mu(const double* i,double* o){ mr<R,C,0>(i,o); }
template<int R,int C,int B> static inline void mr(const double* i,double* o){ const int N=R>C?R:C; MD m(R,C); for(int r=0;r<R;r++) for(int c=0;c<C;c++) m(r,c)=i[C*r+c]; MD f(B?B:R,B?B:C); if(B){ for(int r=0;r<B;r++) for(int c=0;c<B;c++) f(r,c)=1+(r+1)*(c+1); } else f=m;
 Math::Graph::Munkres<double> k(f); if(B){ k.solve(); k.setMatrix(m); } k.solve();
 std::vector<std::size_t> a=k.getRowMatchList(),b=k.getColMatchList(); MD w=k.getMaskMatrix(); *o++=(double)a.size(); *o++=(double)b.size(); for(int r=0;r<N;r++) *o++=(double)a[r]; for(int r=0;r<N;r++) *o++=(double)b[r]; for(int r=0;r<N;r++) for(int c=0;c<N;c++) *o++=w(r,c); for(int r=0;r<R;r++) for(int c=0;c<C;c++) *o++=m(r,c); }
VF(mu11){ mu<1,1>(i,o); }
VF(mu22){ mu<2,2>(i,o); }
VF(mu12){ mu<1,2>(i,o); }
VF(mu21){ mu<2,1>(i,o); }
VF(mu33){ mu<3,3>(i,o); }
VF(mu23){ mu<2,3>(i,o); }
VF(mu32){ mu<3,2>(i,o); }
VF(mu44){ mu<4,4>(i,o); }
VF(mu34){ mu<3,4>(i,o); }
VF(mr22){ mr<2,2,3>(i,o); } VF(mr33){ mr<3,3,2>(i,o); } VF(mr23){ mr<2,3,4>(i,o); } VF(mr32){ mr<3,2,3>(i,o); }
VF(mu55){ mu<5,5>(i,o); } VF(mu42){ mu<4,2>(i,o); } VF(mu25){ mu<2,5>(i,o); } VF(mu14){ mu<1,4>(i,o); } VF(mu41){ mu<4,1>(i,o); } VF(mu66){ mu<6,6>(i,o); }
