// helpers for analysis drivers: typed repo objects from scalar cells and back
#pragma once
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <cstddef>
using namespace Ubitrack;
using namespace Ubitrack::Math;
#define VF(name) extern "C" void vf_##name(const double* i, double* o)
static inline Quaternion Q(const double* p){ return Quaternion(p[0],p[1],p[2],p[3]); }
static inline Vector<double,3> V3(const double* p){ return Vector<double,3>(p[0],p[1],p[2]); }
static inline Vector<double,2> V2(const double* p){ return Vector<double,2>(p[0],p[1]); }
static inline Vector<double,4> V4(const double* p){ return Vector<double,4>(p[0],p[1],p[2],p[3]); }
static inline Pose PO(const double* p){ return Pose(Q(p),V3(p+4)); }
static inline void put(double*& o, const Quaternion& q){ *o++=q.x(); *o++=q.y(); *o++=q.z(); *o++=q.w(); }
template<class T,std::size_t N> static inline void put(double*& o, const Vector<T,N>& v){ for(std::size_t k=0;k<v.size();k++) *o++=v(k); }
static inline void put(double*& o, const Pose& p){ put(o,p.rotation()); put(o,p.translation()); }
template<class T,std::size_t M,std::size_t N> static inline void put(double*& o, const Matrix<T,M,N>& m){ for(std::size_t r=0;r<m.size1();r++)for(std::size_t c=0;c<m.size2();c++) *o++=m(r,c); }
template<class M> static inline void getm(const double* p, M& m){ for(std::size_t r=0;r<m.size1();r++)for(std::size_t c=0;c<m.size2();c++) m(r,c)=*p++; }
template<std::size_t M,std::size_t N> static inline Matrix<double,M,N> MT(const double* p){ Matrix<double,M,N> m; getm(p,m); return m; }
template<std::size_t N> static inline Vector<double,N> VN(const double* p){ Vector<double,N> v; for(std::size_t k=0;k<N;k++) v(k)=p[k]; return v; }
