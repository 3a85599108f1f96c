// taking data types apart into cells and building them from cells
#pragma once
typedef unsigned long long ull;
static std::size_t io_len=3;   // length of the lists that are built
// build an object from cells / take it apart again; every cell is one primitive
template<class T> struct io { static void mk(const double*& i, T& x){ x=*(const T*)i++; } static void un(double*& o,const T& x){ *(T*)o++=x; } };
template<> struct io<int> { static void mk(const double*& i,int& x){ x=(int)*i++; } static void un(double*& o,const int& x){ *o++=x; } };
template<> struct io<float> { static void mk(const double*& i,float& x){ x=(float)*i++; } static void un(double*& o,const float& x){ *o++=x; } };
template<> struct io<unsigned long> { static void mk(const double*& i,unsigned long& x){ x=*(const unsigned long*)i++; } static void un(double*& o,const unsigned long& x){ *o++=(double)x; } };
template<> struct io<unsigned long long> { static void mk(const double*& i,unsigned long long& x){ x=*(const unsigned long long*)i++; } static void un(double*& o,const unsigned long long& x){ *o++=(double)x; } };
template<class T,std::size_t N> struct io< Vector<T,N> > { static void mk(const double*& i, Vector<T,N>& x){ for(std::size_t k=0;k<N;k++) io<T>::mk(i,x(k)); } static void un(double*& o,const Vector<T,N>& x){ for(std::size_t k=0;k<N;k++) io<T>::un(o,x(k)); } };
template<> struct io< RotationVelocity > : io< Vector<double,3> > {};
template<class T,std::size_t M,std::size_t N> struct io< Matrix<T,M,N> > { static void mk(const double*& i, Matrix<T,M,N>& x){ for(std::size_t k=0;k<M;k++)for(std::size_t l=0;l<N;l++) io<T>::mk(i,x(k,l)); } static void un(double*& o,const Matrix<T,M,N>& x){ for(std::size_t k=0;k<M;k++)for(std::size_t l=0;l<N;l++) io<T>::un(o,x(k,l)); } };
template<> struct io< Quaternion > { static void mk(const double*& i, Quaternion& x){ x=Quaternion(i[0],i[1],i[2],i[3]); i+=4; } static void un(double*& o,const Quaternion& x){ put(o,x); } };
template<> struct io< Math::Pose > { static void mk(const double*& i, Math::Pose& x){ x=PO(i); i+=7; } static void un(double*& o,const Math::Pose& x){ put(o,x); } };
template<> struct io< Math::ErrorPose > { static void mk(const double*& i, Math::ErrorPose& x){ Math::Pose p; io<Math::Pose>::mk(i,p); Matrix<double,6,6> c; io<Matrix<double,6,6> >::mk(i,c); x=Math::ErrorPose(p,c); } static void un(double*& o,const Math::ErrorPose& x){ put(o,(const Math::Pose&)x); put(o,x.covariance()); } };
template<class T,std::size_t N> struct io< ErrorVector<T,N> > { static void mk(const double*& i, ErrorVector<T,N>& x){ io<Vector<T,N> >::mk(i,x.value); io<Matrix<T,N,N> >::mk(i,x.covariance); } static void un(double*& o,const ErrorVector<T,N>& x){ io<Vector<T,N> >::un(o,x.value); io<Matrix<T,N,N> >::un(o,x.covariance); } };
template<class T> struct io< Scalar<T> > { static void mk(const double*& i, Scalar<T>& x){ T v; io<T>::mk(i,v); x=Scalar<T>(v); } static void un(double*& o,const Scalar<T>& x){ T v=x; io<T>::un(o,v); } };
template<class T> struct io< std::vector<T> > { static void mk(const double*& i, std::vector<T>& x){ x.resize(io_len); for(std::size_t k=0;k<x.size();k++) io<T>::mk(i,x[k]); } static void un(double*& o,const std::vector<T>& x){ *o++=(double)x.size(); for(std::size_t k=0;k<x.size();k++) io<T>::un(o,x[k]); } };
template<class T> struct io< Measurement::Measurement<T> > { static void mk(const double*& i, Measurement::Measurement<T>& x){ ull t; io<ull>::mk(i,t); T v; io<T>::mk(i,v); x=Measurement::Measurement<T>(t,v); } static void un(double*& o,const Measurement::Measurement<T>& x){ io<ull>::un(o,x.time()); io<T>::un(o,*x); } };
