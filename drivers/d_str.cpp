// string archives: the string streams are replaced by stand-ins that keep every token with the way it was written
#include <vector>
#include "vf.h"
#include <string>
#include <sstream>
#include <iomanip>
#include <limits>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/collection_size_type.hpp>
#include <boost/serialization/item_version_type.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <utUtil/Exception.h>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/RotationVelocity.h>
#include <utMeasurement/Measurement.h>
#include <utSerialization/BoostArchiveSerializer.h>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
// the text: tokens with value and type; glued: two numbers without a blank between them; lossy: a number written with too few digits
struct Text { double v[400]; double num[400]; int kind[400]; int n, r, blanks, glued, lossy; };
static Text tx;
template<class T> struct TK; template<> struct TK<double>{ enum{k=1,d=17}; }; template<> struct TK<float>{ enum{k=2,d=9}; }; template<> struct TK<int>{ enum{k=3,d=0}; }; template<> struct TK<unsigned>{ enum{k=4,d=0}; };
template<> struct TK<long>{ enum{k=5,d=0}; }; template<> struct TK<unsigned long>{ enum{k=6,d=0}; }; template<> struct TK<long long>{ enum{k=7,d=0}; }; template<> struct TK<unsigned long long>{ enum{k=8,d=0}; }; template<> struct TK<char>{ enum{k=11,d=0}; };
// integers of every width are the same text
template<bool OWN> struct cell { template<class T> static void put(double& c,T x){ *(T*)&c=x; } template<class T> static void get(double& c,T& x){ x=*(T*)&c; } };
template<> struct cell<false> { template<class T> static void put(double& c,T x){ *(long long*)&c=(long long)x; } template<class T> static void get(double& c,T& x){ x=(T)*(long long*)&c; } };
static inline int cls(int k){ return k<3 || k==11 ? k : 3; }
namespace std {
struct vf_ios { int prec; ios_base::fmtflags fl; bool eof_, fail_; vf_ios():prec(6),fl(ios_base::dec),eof_(false),fail_(false){}
	int precision() const { return prec; } int precision(int p){ int q=prec; prec=p; return q; }
	ios_base::fmtflags setf(ios_base::fmtflags f){ ios_base::fmtflags q=fl; fl=fl|f; return q; } ios_base::fmtflags setf(ios_base::fmtflags f,ios_base::fmtflags m){ ios_base::fmtflags q=fl; fl=(fl&~m)|(f&m); return q; } void unsetf(ios_base::fmtflags m){ fl=fl&~m; } ios_base::fmtflags flags() const { return fl; }
	bool good() const { return !eof_ && !fail_; } bool fail() const { return fail_; } bool bad() const { return false; } bool eof() const { return eof_; } bool operator!() const { return fail_; } explicit operator bool() const { return !fail_; } void clear(){ eof_=fail_=false; } };
struct vf_ostream : vf_ios {
	template<class T> void tok(const T& x){ if(tx.n && !tx.blanks) tx.glued++; tx.blanks=0; cell<TK<T>::d!=0||TK<T>::k==11>::put(tx.v[tx.n],x); tx.num[tx.n]=(double)x;
		if(TK<T>::d && prec<TK<T>::d && !((fl & ios_base::floatfield)==ios_base::scientific && prec>=TK<T>::d-1) && (fl & ios_base::floatfield)!=(ios_base::scientific|ios_base::fixed)) tx.lossy++;
		if(TK<T>::d && (fl & ios_base::floatfield)==ios_base::fixed) tx.lossy++;
		tx.kind[tx.n++]=TK<T>::k; }
	vf_ostream& operator<<(double x){ tok(x); return *this; } vf_ostream& operator<<(float x){ tok(x); return *this; } vf_ostream& operator<<(int x){ tok(x); return *this; } vf_ostream& operator<<(unsigned x){ tok(x); return *this; }
	vf_ostream& operator<<(long x){ tok(x); return *this; } vf_ostream& operator<<(unsigned long x){ tok(x); return *this; } vf_ostream& operator<<(long long x){ tok(x); return *this; } vf_ostream& operator<<(unsigned long long x){ tok(x); return *this; }
	vf_ostream& operator<<(char c){ if(c==' '||c=='\n'||c=='\t') tx.blanks++; else tok(c); return *this; } vf_ostream& operator<<(const char* s){ for(;*s;s++) *this<<*s; return *this; }
	vf_ostream& put(char c){ return *this<<c; }
	vf_ostream& operator<<(ios_base&(*m)(ios_base&)){ if(m==static_cast<ios_base&(*)(ios_base&)>(&scientific)) setf(ios_base::scientific,ios_base::floatfield); if(m==static_cast<ios_base&(*)(ios_base&)>(&fixed)) setf(ios_base::fixed,ios_base::floatfield); return *this; }
	vf_ostream& operator<<(_Setprecision p){ prec=p._M_n; return *this; } };
struct vf_ostringstream : vf_ostream { vf_ostringstream(){ tx.n=0; tx.r=0; tx.blanks=0; tx.glued=0; tx.lossy=0; } std::string str() const { return std::string(); } };
struct vf_istream : vf_ios {
	// a number at the very end of the text is recognised only at the end of the text
	template<class T> void tok(T& x){ if(fail_||eof_||tx.r>=tx.n||cls(tx.kind[tx.r])!=cls(TK<T>::k)){ fail_=true; if(tx.r>=tx.n) eof_=true; return; } cell<TK<T>::d!=0||TK<T>::k==11>::get(tx.v[tx.r++],x); if(tx.r==tx.n && TK<T>::k!=11) eof_=true; }
	vf_istream& operator>>(double& x){ tok(x); return *this; } vf_istream& operator>>(float& x){ tok(x); return *this; } vf_istream& operator>>(int& x){ tok(x); return *this; } vf_istream& operator>>(unsigned& x){ tok(x); return *this; }
	vf_istream& operator>>(long& x){ tok(x); return *this; } vf_istream& operator>>(unsigned long& x){ tok(x); return *this; } vf_istream& operator>>(long long& x){ tok(x); return *this; } vf_istream& operator>>(unsigned long long& x){ tok(x); return *this; } vf_istream& operator>>(char& x){ tok(x); return *this; } };
struct vf_istringstream : vf_istream { vf_istringstream(const std::string&){ tx.r=0; } };
}
#define ostringstream vf_ostringstream
#define istringstream vf_istringstream
#define ostream vf_ostream
#define istream vf_istream
#include <utUtil/SimpleStringOArchive.h>
#include <utUtil/SimpleStringIArchive.h>
#undef ostringstream
#undef istringstream
#undef ostream
#undef istream
#include "ser_io.h"
typedef Ubitrack::Util::SimpleStringOArchive OA; typedef Ubitrack::Util::SimpleStringIArchive IA;
// o: object, tokens written, glued, lossy, (kind,value) of each, tokens left, object read back
template<class T> static void rt(const double* i,double* o,T& x,T& y){ std::string s; { OA a; a<<x; s=a.str(); } { IA a(s); a>>y; } io<T>::un(o,x); *o++=tx.n; *o++=tx.glued; *o++=tx.lossy; for(int k=0;k<tx.n;k++){ *o++=tx.kind[k]; *o++=tx.num[k]; } *o++=tx.n-tx.r; io<T>::un(o,y); }
#define RT(name,...) VF(str_##name){ typedef __VA_ARGS__ T; T x; io<T>::mk(i,x); T y; rt(i,o,x,y); } \
 VF(strov_##name){ typedef __VA_ARGS__ T; T x,y; io<T>::mk(i,x); io_len=5; io<T>::mk(i,y); std::string s; { OA a; a<<x; s=a.str(); } { IA a(s); a>>y; } *o++=tx.n-tx.r; io<T>::un(o,y); io<T>::un(o,x); }
#define RL(name,n,...) VF(str_##name){ typedef __VA_ARGS__ T; io_len=n; T x; io<T>::mk(i,x); T y; rt(i,o,x,y); }
RL(lpL,20,std::vector<Math::Pose>) RL(lvL,40,std::vector<Vector<double,3> >) RL(lv0,0,std::vector<Vector<double,3> >) RL(mlvL,40,Measurement::PositionList) RL(ldL,131,std::vector<double>)
RT(d, double) RT(f, float) RT(i, int) RT(ull, unsigned long long)
RT(v2, Vector<double,2>) RT(v3, Vector<double,3>) RT(v3f, Vector<float,3>) RT(m33, Matrix<double,3,3>) RT(m34, Matrix<double,3,4>) RT(q, Quaternion) RT(p, Math::Pose) RT(ep, Math::ErrorPose) RT(ev3, ErrorVector<double,3>)
RT(sd, Scalar<double>) RT(si, Scalar<int>) RT(rv, Math::RotationVelocity) RT(lp, std::vector<Math::Pose>) RT(lv, std::vector<Vector<double,3> >) RT(ld, std::vector<double>) RT(mp, Measurement::Pose) RT(mr, Measurement::Rotation) RT(mb, Measurement::Button) RT(mlv, Measurement::PositionList)
// several values one after the other: unsigned, char, int, double
VF(str_seq){ unsigned u=(unsigned)*(const unsigned long*)i; char c='q'; int n=(int)i[1]; double d=i[2]; std::string s; { OA a; a<<u<<c<<n<<d; s=a.str(); } unsigned u2; char c2; int n2; double d2; { IA a(s); a>>u2>>c2>>n2>>d2; } *o++=tx.n; *o++=tx.glued; *o++=tx.lossy; *o++=tx.n-tx.r; *o++=u2==u; *o++=c2==c; *o++=n; *o++=n2; *o++=d2; }
// reading more than the text holds, or another type than written
VF(str_more){ Vector<double,3> v(i[0],i[1],i[2]); std::string s; { OA a; a<<v; s=a.str(); } Vector<double,4> w; IA a(s); a>>w; *o=1; }
VF(str_none){ std::string s; { OA a; s=a.str(); } double d; IA a(s); a>>d; *o=1; }
VF(str_after){ double d=i[0]; std::string s; { OA a; a<<d; s=a.str(); } int n; IA a(s); a>>d; a>>n; *o=1; }
VF(str_aftc){ char c='x'; std::string s; { OA a; a<<c; s=a.str(); } IA a(s); a>>c; a>>c; *o=1; }
VF(str_type){ char c='x'; double d=i[0]; std::string s; { OA a; a<<c; a<<d; s=a.str(); } IA a(s); a>>d; *o=1; }
VF(str_list){ unsigned n=3; double d=i[0]; std::string s; { OA a; a<<n; a<<d; s=a.str(); } std::vector<double> w; IA a(s); a>>w; *o=1; }
