// choice of the storage protocol: archives are stand-ins that log which one was used
#include <vector>
#include "vf.h"
#include <utUtil/Exception.h>
#include <utSerialization/BoostArchiveSerializer.h>
#include <utSerialization/MsgpackSerializer.h>
static const double* src; static double* dst; static int used, nuse, strm;
struct Stream { int id; };
namespace boost { namespace archive {
template<int K> struct vf_oar { Stream& s; vf_oar(Stream& t,unsigned=0):s(t){} template<class T> vf_oar& operator<<(const T& x){ used=K; nuse++; strm=s.id; *dst=x; return *this; } template<class T> vf_oar& operator&(const T& x){ return *this<<x; } };
template<int K> struct vf_iar { Stream& s; vf_iar(Stream& t,unsigned=0):s(t){} template<class T> vf_iar& operator>>(T& x){ used=K; nuse++; strm=s.id; x=*src; return *this; } template<class T> vf_iar& operator&(T& x){ return *this>>x; } };
typedef vf_oar<1> vf_text_oarchive; typedef vf_oar<2> vf_binary_oarchive; typedef vf_iar<11> vf_text_iarchive; typedef vf_iar<12> vf_binary_iarchive;
}}
namespace Ubitrack { namespace Serialization { namespace vf_Msgpack {
template<class S,class T> void serialize(S& s,const T& t){ used=3; nuse++; strm=s.id; *dst=t; }
template<class S,class T> void deserialize(S& s,T& t){ used=13; nuse++; strm=s.id; t=*src; }
}}}
#define text_iarchive vf_text_iarchive
#define text_oarchive vf_text_oarchive
#define binary_iarchive vf_binary_iarchive
#define binary_oarchive vf_binary_oarchive
#define MsgpackArchive vf_Msgpack
#include <utSerialization/Serialization.h>
namespace S=Ubitrack::Serialization;
#define PW(n,P) VF(pw##n){ dst=o+3; nuse=0; Stream s={1}; double x=i[0]; S::serialize(S::SerializationProtocol(P),s,x); o[0]=nuse; o[1]=used; o[2]=strm; } VF(pr##n){ src=i; nuse=0; Stream s={1}; double x; S::deserialize(S::SerializationProtocol(P),s,x); o[0]=nuse; o[1]=used; o[2]=strm; o[3]=x; }
PW(1,S::PROTOCOL_BOOST_TEXT) PW(2,S::PROTOCOL_BOOST_BINARY) PW(3,S::PROTOCOL_MSGPACK) PW(0,S::PROTOCOL_UNKNOWN) PW(4,S::PROTOCOL_MSGPACK+1)
