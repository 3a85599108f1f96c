// selection of poses for hand-eye calibration; the clustering (decided elsewhere) is replaced by one chosen by the analysis
#include <vector>
#include <math.h>
#include "vf.h"
#define k_means k_means_real
#define copy_probability copy_probability_real
#include <utMath/Stochastic/k_means.h>
#undef k_means
#undef copy_probability
static const double* sel_mean; static const std::size_t* sel_idx; static double* sel_seen;
namespace Ubitrack { namespace Math { namespace Stochastic {
template<class I,class O,class D> std::size_t copy_probability(I b,I e,std::size_t n,O out,D){
	for(;b!=e;++b) for(int k=0;k<6;k++) *sel_seen++=(*b)[k];
	for(std::size_t c=0;c<n;c++){ typename I::value_type v; for(int k=0;k<6;k++) v[k]=*sel_mean++; *out++=v; }
	return n; }
template<class I,class M,class X,class D> double k_means(I b,I e,M,M,X out,D){
	for(;b!=e;++b){ for(int k=0;k<6;k++) *sel_seen++=(*b)[k]; *out++=*sel_idx++; }
	return 0; }
}}}
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
#include "utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"
namespace HE = Ubitrack::Algorithm::PoseEstimation6D6D;
static inline std::vector<Pose> poses(const double* i,int n){ std::vector<Pose> r; for(int k=0;k<n;k++) r.push_back(PO(i+7*k)); return r; }
template<class T,std::size_t N> static inline Vector<T,N> vec(const double* p){ Vector<T,N> v; for(std::size_t k=0;k<N;k++) v[k]=T(p[k]); return v; }
#define BOTH(name,...) VF(name##_d){ typedef double T; __VA_ARGS__ } VF(name##_f){ typedef float T; __VA_ARGS__ }

// conversions
BOTH(c6, put(o,pose_cast<Vector<T,6> >()(PO(i)));)
BOTH(c7, put(o,pose_cast<Vector<T,7> >()(PO(i)));)
BOTH(c8, put(o,pose_cast<Vector<T,8> >()(PO(i)));)
BOTH(c68, put(o,pose_cast<Vector<T,6> >()(vec<double,8>(i)));)
BOTH(p6, put(o,pose_cast<Pose>()(vec<T,6>(i)));)
BOTH(p8, put(o,pose_cast<Pose>()(vec<T,8>(i)));)
BOTH(hem, put(o,hemisphere_alignment<Vector<T,6>,true>()(vec<T,6>(i)));)
BOTH(dist, *o++=RotationDistance<Vector<T,6> >()(vec<T,6>(i),vec<T,6>(i+6));)
// relative poses, all pairs or neighbours, eye or hand direction
template<bool A,bool D> static inline void rel(const double* i,double* o,int n){ std::vector<Vector<double,8> > r; const std::vector<Pose> p=poses(i,n); HE::generate_relative_pose6D_impl<A,D>(p.begin(),p.end(),std::back_inserter(r)); *o++=r.size(); for(std::size_t k=0;k<r.size();k++) put(o,r[k]); }
VF(ra1_3){ rel<true,true>(i,o,3); } VF(ra0_4){ rel<true,false>(i,o,4); } VF(ra1_4){ rel<true,true>(i,o,4); } VF(ra0_3){ rel<true,false>(i,o,3); }
template<bool D> static inline void nbi(const double* i,double* o,int n){ std::vector<Vector<double,8> > r; const std::vector<Pose> p=poses(i,n); HE::generate_relative_pose6D_impl<false,D>(p.begin(),p.end(),std::back_inserter(r)); *o++=r.size(); for(std::size_t k=0;k<r.size();k++) put(o,r[k]); }
VF(ra1_24){ rel<true,true>(i,o,24); } VF(ra0_24){ rel<true,false>(i,o,24); } VF(nbi1_131){ nbi<true>(i,o,131); } VF(nbi0_131){ nbi<false>(i,o,131); }
VF(nbi1_4){ nbi<true>(i,o,4); } VF(nbi0_3){ nbi<false>(i,o,3); }
VF(app){ std::vector<Vector<double,8> > r; HE::generate_relative_6DPoses(poses(i,3),r,true); HE::generate_relative_6DPoses(poses(i+21,3),r,false); *o++=r.size(); for(std::size_t k=0;k<r.size();k++) put(o,r[k]); }
// selection from absolute poses: the relative poses as vectors and as poses, what the clustering saw, the selected pairs
static inline void sel(const double* i,double* o,int n,int c,const std::size_t* idx){
	const int m=n*(n-1)/2; const std::vector<Pose> e=poses(i,n),h=poses(i+7*n,n); sel_mean=i+14*n; sel_idx=idx; 
	std::vector<Vector<double,6> > d; HE::generate_relative_pose6D_impl<true,true>(e.begin(),e.end(),std::back_inserter(d));
	for(int k=0;k<m;k++) put(o,hemisphere_alignment<Vector<double,6>,true>()(d[k]));
	sel_seen=o; o+=12*m;
	std::vector<Pose> eo,ho; HE::select_6DPoses(e,h,c,eo,ho);
	*o++=eo.size(); *o++=ho.size(); for(std::size_t k=0;k<eo.size();k++){ put(o,eo[k]); put(o,ho[k]); } }
#define SEL(name,n,c,...) VF(name){ static const std::size_t x[]={__VA_ARGS__}; sel(i,o,n,c,x); }
SEL(s3a,3,2,0,1,0) SEL(s3b,3,2,1,1,1) SEL(s3c,3,1,0,0,0) SEL(s3d,3,5,0,1,1) SEL(s4a,4,3,2,0,2,1,0,2) SEL(s4b,4,3,0,2,0,2,0,2) SEL(s4c,4,2,1,0,0,1,0,0)
// selection from relative poses
template<class T,class P> static inline void ds(const double* i,double* o,const std::vector<P>& p,int c,const std::size_t* idx,const double* mean){
	sel_mean=mean; sel_idx=idx; sel_seen=o+p.size()*6; HE::DataSelection<T> s; 
	for(std::size_t k=0;k<p.size();k++) put(o,s(p[k]));
	o=sel_seen+p.size()*12;
	s.resetComparisonPoses(c,p); *o++=s.indexList.size(); for(std::size_t k=0;k<s.indexList.size();k++) *o++=s.indexList[k];
	*o++=s.comparisonPoseList.size(); *o++=s.clusterPoseList.size(); }
#define DSP(name,T,n,c,...) VF(name){ static const std::size_t x[]={__VA_ARGS__}; ds<T>(i,o,poses(i,n),c,x,i+7*n); }
DSP(d3a_d,double,3,2,0,1,0) DSP(d3a_f,float,3,2,0,1,0) DSP(d4a,double,4,2,1,0,0,1) DSP(d5a,double,5,3,2,0,2,1,0) DSP(d5b,double,5,1,0,0,0,0,0)
// chosen poses are those of the index list; poses added later extend the comparison list
VF(get){ HE::DataSelection<double> s; s.indexList.push_back(2); s.indexList.push_back(0); std::vector<Pose> r; s.getSelection(poses(i,3),std::back_inserter(r)); *o++=r.size(); for(std::size_t k=0;k<r.size();k++) put(o,r[k]); }
VF(twice){ static const std::size_t x[]={0,1,1,0,0}; sel_mean=i+21; sel_idx=x; double seen[60]; sel_seen=seen; HE::DataSelection<double> s; s.resetComparisonPoses(2,poses(i,2)); s.resetComparisonPoses(2,poses(i,3)); *o++=s.comparisonPoseList.size(); *o++=s.clusterPoseList.size(); for(int k=0;k<3;k++) put(o,s.comparisonPoseList[k]); for(int k=0;k<3;k++) put(o,s(PO(i+7*k))); for(std::size_t k=0;k<s.indexList.size();k++) *o++=s.indexList[k]; for(std::size_t k=0;k<s.clusterPoseList.size();k++) put(o,s.clusterPoseList[k]); }
