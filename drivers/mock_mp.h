// stand-in for the msgpack byte stream: a packer that builds the object tree a parser would deliver
#pragma once
#include <msgpack.hpp>
struct MStream { msgpack::object pool[400]; int n; int root[8]; int nroot; int todo[8]; int depth; int at[8];
	MStream():n(0),nroot(0),depth(0){}
	msgpack::object* slot(){ // where the next item goes
		if(depth==0){ root[nroot++]=n; return &pool[n++]; }
		msgpack::object* p=&pool[at[depth-1]++]; if(--todo[depth-1]==0) --depth; return p; }
	void arr(unsigned k){ msgpack::object* p=slot(); p->type=msgpack::type::ARRAY; p->via.array.size=k; p->via.array.ptr=&pool[n]; if(k){ at[depth]=n; todo[depth]=k; ++depth; n+=k; } }
	void write(const char*,size_t){}
};
namespace msgpack { MSGPACK_API_VERSION_NAMESPACE(v1) {
template<> class packer<MStream> { public:
	MStream& s; packer(MStream& x):s(x){} packer(MStream* x):s(*x){}
	typedef packer<MStream> P;
	template<class T> typename std::enable_if<std::is_class<T>::value,P&>::type pack(const T& v){ msgpack::adaptor::pack<T>()(*this,v); return *this; }
	template<class T> typename std::enable_if<std::is_floating_point<T>::value,P&>::type pack(const T& v){ msgpack::object* p=s.slot(); p->type=sizeof(T)==4?msgpack::type::FLOAT32:msgpack::type::FLOAT64; p->via.f64=v; return *this; }
	template<class T> typename std::enable_if<std::is_integral<T>::value&&std::is_unsigned<T>::value,P&>::type pack(const T& v){ msgpack::object* p=s.slot(); p->type=msgpack::type::POSITIVE_INTEGER; p->via.u64=v; return *this; }
	template<class T> typename std::enable_if<std::is_integral<T>::value&&std::is_signed<T>::value,P&>::type pack(const T& v){ msgpack::object* p=s.slot(); p->type=v<0?msgpack::type::NEGATIVE_INTEGER:msgpack::type::POSITIVE_INTEGER; p->via.i64=v; return *this; }
	template<class T> P& operator<<(const T& v){ return pack(v); }
	P& pack_array(uint32_t k){ s.arr(k); return *this; }
	P& pack_nil(){ s.slot()->type=msgpack::type::NIL; return *this; }
	P& pack_double(double v){ return pack(v); } P& pack_float(float v){ return pack(v); }
	P& pack_int(int v){ return pack(v); } P& pack_uint64(uint64_t v){ return pack(v); } P& pack_unsigned_long_long(unsigned long long v){ return pack(v); }
};
} }
struct MParser { MStream& s; int k; MParser(MStream& x):s(x),k(0){} bool next(msgpack::object_handle& oh){ if(k>=s.nroot) return false; oh.set(s.pool[s.root[k++]]); return true; } };
