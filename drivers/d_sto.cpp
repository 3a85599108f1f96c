// statistics: Gaussians, clustering, correlation, covariance propagation from measurements to parameters, random values
#include <vector>
#include <list>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <cassert>
#include <stdexcept>
#include <iterator>
#include <functional>
#include <iostream>
#include <stdlib.h>
#include "mock_rnd.h"
#include "vf.h"
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/BackwardPropagation.h>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include <utAlgorithm/Correlation.cpp>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Matrix.h>
#include <utMath/Random/Rotation.h>
#include <utMath/Random/Pose.h>
#include <utMath/Pose.cpp>
#include <utMath/Quaternion.cpp>
using namespace Ubitrack::Math::Stochastic;
template<class T,std::size_t N> static inline void putg(double*& o,const Gaussian<T,N>& g){ for(std::size_t k=0;k<N;k++) *o++=g.mean[k]; for(std::size_t k=0;k<N*N;k++) *o++=g.covariance[k]; *o++=g.variance; *o++=g.standardDeviation; }
template<std::size_t N> static inline std::vector<Math::Vector<double,N> > pts(const double* i,int n){ std::vector<Math::Vector<double,N> > v; for(int k=0;k<n;k++) v.push_back(VN<N>(i+N*k)); return v; }
template<class G> static inline void junk(G& g,const double* i){ for(std::size_t k=0;k<G::size;k++) g.mean[k]=i[k]; for(std::size_t k=0;k<G::size*G::size;k++) g.covariance[k]=i[k]; g.variance=i[0]; g.standardDeviation=i[1]; }
template<std::size_t N> static inline void gau(const double* i,double* o,int n){ std::vector<Math::Vector<double,N> > v=pts<N>(i,n); Gaussian<double,N> g; junk(g,i); *o++=estimate_gaussian(v.begin(),v.end(),g); putg(o,g); }
VF(gau2){ gau<2>(i,o,3); }
VF(gau3){ gau<3>(i,o,4); }
VF(gau131){ gau<3>(i,o,131); }
VF(gau1){ gau<2>(i,o,1); }
VF(gau0){ gau<2>(i,o,0); }
VF(gaul){ std::vector<Math::Vector<double,2> > v=pts<2>(i,3); std::list<Math::Vector<double,2> > l(v.begin(),v.end()); Gaussian<double,2> g; *o++=estimate_gaussian(l.begin(),l.end(),g); putg(o,g); }
template<std::size_t N> static inline void gauw(const double* i,double* o,int n){ std::vector<Math::Vector<double,N> > v=pts<N>(i,n); Gaussian<double,N> g; junk(g,i); std::vector<double> w(i+N*n,i+N*n+n); *o++=estimate_gaussian(v.begin(),v.end(),w.begin(),g); putg(o,g); }
VF(gauw2){ gauw<2>(i,o,3); }
VF(gauw3){ gauw<3>(i,o,3); }
VF(gauw131){ gauw<2>(i,o,131); }
VF(gauw0){ gauw<2>(i,o,0); }
static inline void gaui(const double* i,double* o,std::size_t c){ std::vector<Math::Vector<double,2> > v=pts<2>(i,5); Gaussian<double,2> g; junk(g,i); std::size_t w[5]={1,0,1,2,1}; *o++=estimate_gaussian_index(v.begin(),v.end(),w,c,g); putg(o,g); }
VF(gaui0){ gaui(i,o,0); }
VF(gaui1){ gaui(i,o,1); }
VF(gaui3){ gaui(i,o,3); }
VF(reset){ Gaussian<double,2> g; junk(g,i); reset(g); putg(o,g); }
// distance and density: mean, covariance (row major), point
template<std::size_t N> static inline Gaussian<double,N> gin(const double*& i){ Gaussian<double,N> g; for(std::size_t k=0;k<N;k++) g.mean[k]=*i++; for(std::size_t k=0;k<N*N;k++) g.covariance[k]=*i++; g.variance=0; g.standardDeviation=0; return g; }
VF(mah2){ Gaussian<double,2> g=gin<2>(i); MahalanobisDistance<Gaussian<double,2> > d(g); *o++=d(VN<2>(i)); }
VF(mah3){ Gaussian<double,3> g=gin<3>(i); MahalanobisDistance<Gaussian<double,3> > d(g); *o++=d(VN<3>(i)); }
VF(mahs){ Gaussian<double,2> g=gin<2>(i); g.covariance[0]=1; g.covariance[1]=g.covariance[2]=2; g.covariance[3]=4; MahalanobisDistance<Gaussian<double,2> > d(g); *o++=d(VN<2>(i)); }
VF(mahz){ Gaussian<double,3> g=gin<3>(i); for(int k=0;k<9;k++) g.covariance[k]=0; MahalanobisDistance<Gaussian<double,3> > d(g); *o++=d(VN<3>(i)); }
template<std::size_t N> static inline void pro(const double* i,double* o){ Gaussian<double,N> g=gin<N>(i),h=gin<N>(i); Probability<Gaussian<double,N> > d(g),e(h); *o++=d(VN<N>(i)); *o++=d(VN<N>(g.mean)); *o++=e(VN<N>(h.mean)); }
VF(pro2){ pro<2>(i,o); }
VF(pro3){ pro<3>(i,o); }
template<std::size_t N> static inline void prs(const double* i,double* o){ Gaussian<double,N> g; for(std::size_t k=0;k<N;k++) g.mean[k]=0; for(std::size_t k=0;k<N*N;k++) g.covariance[k]=k%(N+1)==0; Probability<Gaussian<double,N> > d(g); *o++=d(VN<N>(g.mean)); }
VF(prs2){ prs<2>(i,o); }
VF(prs3){ prs<3>(i,o); }
// one-dimensional mixture of two Gaussians, three values: weights, means, variances, values
typedef Weighted<Gaussian<double,2>,double> WG;
static inline void wg(WG& w,const double* i){ const double* p=i; static_cast<Gaussian<double,2>&>(w)=gin<2>(p); w.weight=*p; }
VF(em){ std::vector<WG> m(2); wg(m[0],i); wg(m[1],i+7); std::vector<Math::Vector<double,2> > v=pts<2>(i+14,3); for(int k=0;k<2;k++){ Probability<WG> p(m[k]); for(int j=0;j<3;j++) *o++=p(v[j]); } double l=expectation_maximization(v.begin(),v.end(),m.begin(),m.end()); for(int k=0;k<2;k++){ *o++=m[k].weight; putg(o,m[k]); } double s=0; for(int j=0;j<3;j++){ double t=0; for(int k=0;k<2;k++) t+=m[k].weight*Probability<WG>(m[k])(v[j]); s+=std::log(t); } *o++=l; *o++=s; }
// correlation
VF(cor3){ std::vector<double> a(i,i+3),b(i+3,i+6); *o++=correlation(a.begin(),a.end(),b.begin(),b.end()); }
VF(corl){ std::vector<double> a(i,i+4),b(i+4,i+6); *o++=correlation(a.begin(),a.end(),b.begin(),b.end()); }
VF(corr){ std::list<double> a(i,i+3),b(i+3,i+8); *o++=correlation(a.begin(),a.end(),b.begin(),b.end()); }
VF(cor131){ std::vector<double> a(i,i+131),b(i+131,i+262); *o++=correlation(a.begin(),a.end(),b.begin(),b.end()); }
VF(cor0){ std::vector<double> a,b; *o++=Ubitrack::Algorithm::computeCorrelation(a,b); *o++=correlation(a.begin(),a.end(),b.begin(),b.end()); }
VF(cora){ std::vector<double> a(i,i+3),b(i+3,i+6); *o++=Ubitrack::Algorithm::computeCorrelation(a,b); }
// k-means: start means, values
template<std::size_t N> static inline void km(const double* i,double* o,int k,int n){ std::vector<Math::Vector<double,N> > m=pts<N>(i,k),v=pts<N>(i+N*k,n); std::vector<std::size_t> x; *o++=k_means(v.begin(),v.end(),m.begin(),m.end(),std::back_inserter(x),SquaredDistance<Math::Vector<double,N> >()); for(int j=0;j<k;j++) put(o,m[j]); *o++=(double)x.size(); for(std::size_t j=0;j<x.size();j++) *o++=(double)x[j]; }
VF(km23){ km<2>(i,o,2,3); }
VF(km34){ km<2>(i,o,3,4); }
VF(kg){ std::vector<Math::Vector<double,2> > v=pts<2>(i,4),m; copy_greedy(v.begin(),v.end(),3,std::back_inserter(m)); *o++=(double)m.size(); for(int k=0;k<3;k++) put(o,m[k]); }
template<int K> static inline void kp(const double* i,double* o,std::size_t f){ rnd_in=i+6; rnd_int=&f; std::vector<Math::Vector<double,2> > v=pts<2>(i,3); Math::Vector<double,2> m[K]; for(int k=0;k<K;k++) m[k]=Math::Vector<double,2>(0,0); std::size_t n=copy_probability(v.begin(),v.end(),K,m,Distance<Math::Vector<double,2> >()); *o++=(double)n; for(int k=0;k<K;k++) put(o,m[k]); }
VF(kp0){ kp<2>(i,o,0); }
VF(kp1){ kp<2>(i,o,1); }
VF(kp2){ kp<2>(i,o,2); }
VF(kp3){ kp<3>(i,o,1); }
// covariance of parameters from that of measurements
struct Lin { const double* j; std::size_t m,n; Lin(const double* p,std::size_t a,std::size_t b):j(p),m(a),n(b){} std::size_t size() const { return m; } template<class V,class J> void jacobian(const V&,J& x) const { for(std::size_t r=0;r<m;r++) for(std::size_t c=0;c<n;c++) x(r,c)=j[n*r+c]; } };
VF(bpi){ Math::Matrix<double,2,2> r; Math::Vector<double,2> p(0,0); backwardPropagationIdentity(r,i[0],Lin(i+1,3,2),p); put(o,r); }
VF(bpd){ Math::Matrix<double,2,2> r; Math::Vector<double,2> p(0,0); Math::Vector<double> e(3); for(int k=0;k<3;k++) e(k)=i[k]; backwardPropagationDiagonal(r,e,Lin(i+3,3,2),p); put(o,r); }
// weighted values are ordered by their weight
VF(wei){ WG a,b; a.weight=i[0]; b.weight=i[1]; *o++=a<b; *o++=a>b; *o++=a==b; *o++=a!=b; }
VF(weic){ const double* p=i; Gaussian<double,2> g=gin<2>(p); WG a(g,*p),b(g),c; putg(o,a); *o++=a.weight; putg(o,b); *o++=b.weight; *o++=c.weight; }
// random values: draws, limits
namespace R=Ubitrack::Math::Random;
VF(ru){ rnd_in=i; *o++=R::distribute_uniform<double>(i[4],i[5]); *o++=R::distribute_uniform<float>(i[4],i[5]); *o++=R::distribute_normal<double>(i[4],i[5]); *o++=R::distribute_normal<float>(i[4],i[5]); }
VF(ruv){ rnd_in=i; R::Vector<double,3>::Uniform a(i[12],i[13]); put(o,a()); R::Vector<double,3>::Uniform b(V3(i+14),V3(i+17)); put(o,b()); R::Matrix<double,2,3>::Uniform c(i[12],i[13]); put(o,c()); }
VF(rq){ rnd_in=i; Quaternion q=R::Quaternion<double>::Uniform()(); put(o,q); }
VF(rp){ rnd_in=i; R::Pose<double>::Uniform a(i[6],i[7]); put(o,a()); }
VF(rp3){ rnd_in=i; R::Pose<double>::Uniform a(V3(i+6),V3(i+9)); put(o,a()); }
VF(rvn){ rnd_in=i; R::Vector<double,3>::Normal a(i[9],i[10]); put(o,a()); R::Vector<double,3>::Normal b(V3(i+11),V3(i+14)); put(o,b()); put(o,R::distribute_normal<double,3>(i[9],i[10])); }
VF(rvu){ rnd_in=i; put(o,R::distribute_uniform<double,3>(i[3],i[4])); }
