// linear-algebra kernels
#include "vf.h"
#include <vector>
#include <utMath/Blas1.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/VectorFunctions.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Scalar.h>
template<std::size_t N> static inline Vector<double> VD(const double* p){ Vector<double> v(N); for(std::size_t k=0;k<N;k++) v(k)=p[k]; return v; }
template<std::size_t M,std::size_t N> static inline Matrix<double,0,0> MD(const double* p){ Matrix<double,0,0> m(M,N); getm(p,m); return m; }
template<class V> static inline void b1(const V& a,const V& b,double* o){ o[0]=inner_product(a,b); o[1]=InnerProduct()(a); o[2]=norm_1(a); o[3]=norm_2(a); o[4]=Norm_2()(a); o[5]=Norm_1()(a); o[6]=InnerProduct()(a,b); }
VF(b1_2){ b1(VN<2>(i),VN<2>(i+2),o); }
VF(b1_3){ b1(VN<3>(i),VN<3>(i+3),o); }
VF(b1_4){ b1(VN<4>(i),VN<4>(i+4),o); }
VF(b1_7){ b1(VN<7>(i),VN<7>(i+7),o); }
VF(b1_d5){ b1(VD<5>(i),VD<5>(i+5),o); }
template<std::size_t M,std::size_t N> static inline void op(const double* i,double* o){ Matrix<double,M,N> r=outer_product(VN<M>(i),VN<N>(i+M)); put(o,r); Matrix<double,M,N> q; outer_product(VN<M>(i),VN<N>(i+M),q); put(o,q); }
VF(op22){ op<2,2>(i,o); }
VF(op33){ op<3,3>(i,o); }
VF(op23){ op<2,3>(i,o); }
VF(op34){ op<3,4>(i,o); }
VF(op42){ op<4,2>(i,o); }
template<std::size_t M,std::size_t N> static inline void mvp(const double* i,double* o){ Matrix<double,M,N> a(MT<M,N>(i)); Vector<double,N> v(VN<N>(i+M*N)); Vector<double,M> r; product(a,v,r); put(o,r);
  Vector<double,M> s=Product<Matrix<double,M,N>,Vector<double,N>,Vector<double,M> >()(a,v); put(o,s); }
VF(mv22){ mvp<2,2>(i,o); }
VF(mv33){ mvp<3,3>(i,o); }
VF(mv34){ mvp<3,4>(i,o); }
VF(mv44){ mvp<4,4>(i,o); }
VF(mv23){ mvp<2,3>(i,o); }
VF(mv52){ mvp<5,2>(i,o); }
template<std::size_t M,std::size_t K,std::size_t N> static inline void mmp(const double* i,double* o){ Matrix<double,M,K> a(MT<M,K>(i)); Matrix<double,K,N> b(MT<K,N>(i+M*K)); Matrix<double,M,N> r; product(a,b,r); put(o,r); }
VF(mm222){ mmp<2,2,2>(i,o); }
VF(mm333){ mmp<3,3,3>(i,o); }
VF(mm344){ mmp<3,4,4>(i,o); }
VF(mm444){ mmp<4,4,4>(i,o); }
VF(mm234){ mmp<2,3,4>(i,o); }
VF(mm532){ mmp<5,3,2>(i,o); }
template<class V> static inline void vf2(const V& a,const V& b,double* o){ o[0]=distance(a,b); o[1]=squared_distance(a,b); V n=normalize(a); put((o+=2,o),n); }
VF(vf2){ vf2(VN<2>(i),VN<2>(i+2),o); }
VF(vf3){ vf2(VN<3>(i),VN<3>(i+3),o); }
VF(vfd){ vf2(VD<4>(i),VD<4>(i+4),o); }
VF(vfit){ std::vector<Vector<double,3> > a,b; for(int k=0;k<3;k++){ a.push_back(VN<3>(i+3*k)); b.push_back(VN<3>(i+9+3*k)); }
  std::vector<double> r(3); distance(a.begin(),a.end(),b.begin(),r.begin()); for(int k=0;k<3;k++)*o++=r[k];
  squared_distance(a.begin(),a.end(),b.begin(),r.begin()); for(int k=0;k<3;k++)*o++=r[k];
  distance(a.begin(),a.end(),r.begin()); for(int k=0;k<3;k++)*o++=r[k];
  squared_distance(a.begin(),a.end(),r.begin()); for(int k=0;k<3;k++)*o++=r[k];
  std::vector<Vector<double,3> > n(3); normalize(a.begin(),a.end(),n.begin()); for(int k=0;k<3;k++) put(o,n[k]); }
VF(cross){ put(o,cross_product(VN<3>(i),VN<3>(i+3))); }
VF(rowmajor){ Matrix<double,2,3> a(i); put(o,a); Matrix<double,3,3> b(i); put(o,b); Matrix<double,3,4> c(i); put(o,c); Vector<double,3> v(i); put(o,v); }
VF(consts){ put(o,Matrix<double,3,3>::identity()); put(o,Matrix<double,2,3>::zeros()); put(o,Matrix<double,0,0>::identity(2)); put(o,Matrix<double,0,0>::zeros(1,2)); put(o,Matrix<double,0,0>::scalar(2,1,i[0])); put(o,Vector<double,3>::zeros()); }
VF(eqv){ o[0]=VN<3>(i)==VN<3>(i+3); o[1]=VD<3>(i)==VD<3>(i+3); o[2]=VD<2>(i)==VD<3>(i); }
VF(eqm){ o[0]=MT<2,3>(i)==MT<2,3>(i+6); o[1]=MD<2,3>(i)==MD<2,3>(i+6); o[2]=MD<2,3>(i)==MD<3,2>(i); }
VF(lt){ const Vector<double,3> a(VN<3>(i)), b(VN<3>(i+3)); o[0]=a<b; }
VF(lerpv){ put(o,linearInterpolate(VN<3>(i),VN<3>(i+3),i[6])); }
VF(vset){ put(o,V2(i)); put(o,V3(i)); put(o,V4(i)); Vector<double,3> v; v=VN<3>(i)+VN<3>(i+3); put(o,v); }
VF(det2){ o[0]=Functors::matrix_determinant()(MT<2,2>(i)); }
VF(det3){ o[0]=Functors::matrix_determinant()(MT<3,3>(i)); }
VF(inv2){ put(o,Matrix<double,2,2>(Functors::matrix_inverse()(MT<2,2>(i)))); }
VF(inv3){ put(o,Matrix<double,3,3>(Functors::matrix_inverse()(MT<3,3>(i)))); }
VF(ldet2){ o[0]=determinant(MT<2,2>(i)); }
VF(ldet3){ o[0]=determinant(MT<3,3>(i)); }
VF(ldet4){ o[0]=determinant(MT<4,4>(i)); }
VF(linv3){ put(o,invert_matrix(MT<3,3>(i))); }
VF(linv4){ put(o,invert_matrix(MT<4,4>(i))); }
VF(linvd){ put(o,invert_matrix(MD<3,3>(i))); }
VF(pinv33){ put(o,pseudoInvert_matrix(MT<3,3>(i))); }
VF(pinv42){ put(o,pseudoInvert_matrix(MT<4,2>(i))); }
VF(pinv23){ put(o,pseudoInvert_matrix(MT<2,3>(i))); }
VF(scalar){ Scalar<double> s(i[0]); o[0]=s; o[1]=s.m_value; }
