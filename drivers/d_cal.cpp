// calibration files: streams and archives are replaced by stand-ins whose failures are chosen by the analysis
#include <vector>
#include "vf.h"
#include <utMath/ErrorPose.h>
#include <utMeasurement/Measurement.h>
#include <utUtil/Exception.h>
#include <string>
#include <fstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <log4cpp/Category.hh>
#include "utMath/Quaternion.cpp"
#include "utMath/Pose.cpp"
extern "C" int vf_chk(int what); // 1: this step fails.  0 open for reading, 1 archive header, 2 data, 3 open for writing, 4 header written, 5 data written, 6 buffered data reaches the file
extern "C" void vf_log(int what);
#include <stdexcept>
#include <new>
namespace std {
struct vf_base { bool bad; bool good() const { return !bad; } bool fail() const { return bad; } bool operator!() const { return bad; } explicit operator bool() const { return !bad; } };
struct vf_ifstream : vf_base { bool op; vf_ifstream(const char* n,int m=0){ bad=vf_chk(0); op=!bad; vf_log(m & (int)ios::binary ? 11:10); } vf_ifstream(const string& n,int m=0){ bad=vf_chk(0); op=!bad; vf_log(m & (int)ios::binary ? 11:10);} bool is_open() const { return op; } void close(){ op=false; } ~vf_ifstream(){} };
struct vf_ofstream : vf_base { bool op,dirty; vf_ofstream(const char* n,int m=0){ bad=vf_chk(3); op=!bad; dirty=false; vf_log(m & (int)ios::binary ? 13:12); } vf_ofstream(const string& n,int m=0){ bad=vf_chk(3); op=!bad; dirty=false; vf_log(m & (int)ios::binary ? 13:12); } bool is_open() const { return op; } 
	void sync(){ if(dirty){ dirty=false; if(vf_chk(7)){ bad=true; throw std::bad_cast(); } if(vf_chk(6)) bad=true; else vf_log(20); } } vf_ofstream& flush(){ sync(); return *this; } void close(){ if(op){ sync(); op=false; } } ~vf_ofstream(){ try { close(); } catch(...) {} } };
}
static const double* src; static double* dst;
namespace boost { namespace archive {
// kinds of failure of an archive: its own exception, an impossible size, no memory
static inline void vf_raise(int k,archive_exception::exception_code c){ if(k==1) throw archive_exception(c); if(k==2) throw std::length_error("vf"); if(k==3) throw std::bad_alloc(); }
template<int BIN> struct vf_iar { std::vf_ifstream& s; vf_iar(std::vf_ifstream& t,unsigned f=0):s(t){ vf_log(30+BIN); vf_raise(vf_chk(1),archive_exception::invalid_signature); }
	template<class T> vf_iar& operator>>(T& x){ get(x); return *this; } template<class T> vf_iar& operator&(T& x){ get(x); return *this; }
	void get(double& x){ vf_raise(vf_chk(2),archive_exception::input_stream_error); x=*src++; }
	void get(Ubitrack::Math::Pose& x){ vf_raise(vf_chk(2),archive_exception::input_stream_error); x=PO(src); src+=7; }
	template<class T> void get(Ubitrack::Measurement::Measurement<T>& m){ m.time(*(const unsigned long long*)src++); get(*m); } };
template<int BIN> struct vf_oar { std::vf_ofstream& s; vf_oar(std::vf_ofstream& t,unsigned f=0):s(t){ vf_log(40+BIN); vf_raise(vf_chk(4),archive_exception::output_stream_error); s.dirty=true; }
	template<class T> vf_oar& operator<<(const T& x){ put(x); return *this; } template<class T> vf_oar& operator&(const T& x){ put(x); return *this; }
	void put(const double& x){ vf_raise(vf_chk(5),archive_exception::output_stream_error); *dst++=x; s.dirty=true; }
	void put(const Ubitrack::Math::Pose& x){ vf_raise(vf_chk(5),archive_exception::output_stream_error); ::put(dst,x); s.dirty=true; }
	template<class T> void put(const Ubitrack::Measurement::Measurement<T>& m){ *dst++=(double)m.time(); put(*m); }
	~vf_oar(){ s.dirty=true; } };
typedef vf_iar<0> vf_text_iarchive; typedef vf_iar<1> vf_binary_iarchive; typedef vf_oar<0> vf_text_oarchive; typedef vf_oar<1> vf_binary_oarchive;
}}
#define ifstream vf_ifstream
#define ofstream vf_ofstream
#define text_iarchive vf_text_iarchive
#define text_oarchive vf_text_oarchive
#define binary_iarchive vf_binary_iarchive
#define binary_oarchive vf_binary_oarchive
#include <utUtil/CalibFile.h>
namespace U=Ubitrack::Util; namespace M=Ubitrack::Measurement;
template<class F> static inline void tr(F f,double*& o){ int r; try { f(); r=0; } catch(const U::Exception&) { r=1; } catch(...) { r=2; } *o++=r; }
typedef M::Measurement<Math::Pose> MP;
struct Rd { double* p; void operator()(){ Math::Pose x; U::readCalibFile(std::string("f"),x); put(p,x); } };
struct RdB { double* p; void operator()(){ Math::Pose x; U::readBinaryCalibFile(std::string("f"),x); put(p,x); } };
struct RdM { double* p; void operator()(){ MP x; U::readCalibFile(std::string("f"),x); *p++=(double)x.time(); put(p,*x); } };
struct RdD { double* p; void operator()(){ Math::Pose x; U::readCalibFileDropMeasurement(std::string("f"),x); put(p,x); } };
struct Wr { const double* i; void operator()(){ Math::Pose x=PO(i); U::writeCalibFile(std::string("f"),x); } };
struct WrB { const double* i; void operator()(){ Math::Pose x=PO(i); U::writeBinaryCalibFile(std::string("f"),x); } };
struct WrM { const double* i; void operator()(){ MP x(*(const unsigned long long*)i,PO(i+1)); U::writeCalibFile(std::string("f"),x); } };
VF(rd){ src=i; Rd f={o+1}; tr(f,o); }
VF(rdb){ src=i; RdB f={o+1}; tr(f,o); }
VF(rdm){ src=i; RdM f={o+1}; tr(f,o); }
VF(rdd){ src=i; RdD f={o+1}; tr(f,o); }
VF(wr){ dst=o+1; Wr f={i}; tr(f,o); }
VF(wrb){ dst=o+1; WrB f={i}; tr(f,o); }
VF(wrm){ dst=o+1; WrM f={i}; tr(f,o); }
