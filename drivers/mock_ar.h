// stand-in archives: every primitive written is one (kind, value) item on the wire
#pragma once
#include <boost/mpl/bool.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/collection_size_type.hpp>
#include <boost/serialization/item_version_type.hpp>
#include <boost/serialization/library_version_type.hpp>
#include <boost/type_traits/is_enum.hpp>
#include <boost/utility/enable_if.hpp>
#include <boost/serialization/version.hpp>
#include <utUtil/Exception.h>
struct Wire { double v[400]; double num[400]; int kind[400]; int n, r; Wire():n(0),r(0){} };
template<class T> struct KindOf; // code distinguishes every primitive type
template<> struct KindOf<double>{ enum{k=1}; }; template<> struct KindOf<float>{ enum{k=2}; };
template<> struct KindOf<int>{ enum{k=3}; }; template<> struct KindOf<unsigned int>{ enum{k=4}; };
template<> struct KindOf<long>{ enum{k=5}; }; template<> struct KindOf<unsigned long>{ enum{k=6}; };
template<> struct KindOf<long long>{ enum{k=7}; }; template<> struct KindOf<unsigned long long>{ enum{k=8}; };
template<> struct KindOf<short>{ enum{k=9}; }; template<> struct KindOf<unsigned short>{ enum{k=10}; };
template<> struct KindOf<char>{ enum{k=11}; }; template<> struct KindOf<signed char>{ enum{k=12}; };
template<> struct KindOf<unsigned char>{ enum{k=13}; }; template<> struct KindOf<bool>{ enum{k=14}; };
struct MockOut {
	Wire& w; MockOut(Wire& x):w(x){}
	typedef boost::mpl::bool_<false> is_loading; typedef boost::mpl::bool_<true> is_saving;
	template<class T> typename boost::enable_if<boost::is_arithmetic<T> >::type one(const T& v){ T* p=(T*)&w.v[w.n]; *p=v; w.num[w.n]=(double)v; w.kind[w.n++]=KindOf<T>::k; }
	template<class T> typename boost::enable_if<boost::is_enum<T> >::type one(const T& v){ one((int)v); }
	template<class T> typename boost::enable_if<boost::is_class<T> >::type one(const T& v){ boost::serialization::serialize_adl(*this,const_cast<T&>(v),boost::serialization::version<T>::value); }
	template<class T,std::size_t N> void one(const T (&v)[N]){ for(std::size_t k=0;k<N;k++) one(v[k]); }
	void one(const boost::serialization::collection_size_type& v){ one((std::size_t)v); }
	void one(const boost::serialization::item_version_type&){}
	template<class T> void one(const boost::serialization::nvp<T>& v){ one(v.const_value()); }
	template<class T> MockOut& operator<<(const T& v){ one(v); return *this; }
	template<class T> MockOut& operator&(const T& v){ one(v); return *this; }
	void save_binary(const void*,std::size_t){}
	boost::serialization::library_version_type get_library_version() const { return boost::serialization::library_version_type(18); }
};
struct MockIn {
	Wire& w; MockIn(Wire& x):w(x){}
	typedef boost::mpl::bool_<true> is_loading; typedef boost::mpl::bool_<false> is_saving;
	template<class T> typename boost::enable_if<boost::is_arithmetic<T> >::type one(T& v){ if(w.r>=w.n || w.kind[w.r]!=KindOf<T>::k) { w.r=-1000; return; } v=*(T*)&w.v[w.r++]; }
	template<class T> typename boost::enable_if<boost::is_enum<T> >::type one(T& v){ int x=0; one(x); v=(T)x; }
	template<class T> typename boost::enable_if<boost::is_class<T> >::type one(T& v){ boost::serialization::serialize_adl(*this,v,boost::serialization::version<T>::value); }
	template<class T,std::size_t N> void one(T (&v)[N]){ for(std::size_t k=0;k<N;k++) one(v[k]); }
	void one(boost::serialization::collection_size_type& v){ std::size_t n=0; one(n); v=boost::serialization::collection_size_type(n); }
	void one(boost::serialization::item_version_type& v){ v=boost::serialization::item_version_type(0); }
	template<class T> void one(const boost::serialization::nvp<T>& v){ one(v.value()); }
	template<class T> MockIn& operator>>(T& v){ one(v); return *this; }
	template<class T> MockIn& operator>>(const boost::serialization::nvp<T>& v){ one(v); return *this; }
	template<class T> MockIn& operator&(T& v){ one(v); return *this; }
	template<class T> MockIn& operator&(const boost::serialization::nvp<T>& v){ one(v); return *this; }
	void load_binary(void*,std::size_t){}
	void reset_object_address(const void*,const void*){}
	boost::serialization::library_version_type get_library_version() const { return boost::serialization::library_version_type(18); }
};
