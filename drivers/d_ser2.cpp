// serial port: every operation in every port state, against a model of the descriptor and the terminal
#include <string>
#include <utUtil/Exception.h>
#include "utUtil/SerialPort.cpp"
#undef N
#undef O
#undef E
#define VF(name) extern "C" void vf_##name(const double* i, double* o)
typedef Ubitrack::Util::SerialPort SP;
extern "C" void vf_mark(int); // tells the model that the current operation is over
template<class F> static inline int tr(F f){ int r; try { f(); r=0; } catch(const Ubitrack::Util::Exception&) { r=1; } catch(...) { r=2; } vf_mark(r); return r; }
static unsigned char buf[16];
struct Open { SP& p; void operator()(){ p.open(); } };
struct Open2 { SP& p; int t,m; void operator()(){ p.open(t,m); } };
struct Close { SP& p; void operator()(){ p.close(); } };
struct Read { SP& p; double* o; void operator()(){ *o=-7; *o=(double)p.read(buf,11); } };
struct Send { SP& p; double* o; void operator()(){ *o=-7; *o=(double)p.send(buf,13); } };
struct Bytes { SP& p; double* o; void operator()(){ *o=-7; *o=(double)p.bytesOnRead(); } };
struct Break { SP& p; void operator()(){ p.sendBreak(); } };
struct Flush { SP& p; void operator()(){ p.flush(); } };
#define OP(X) { X f={p}; *o++=tr(f); }
#define OPV(X) { X f={p,o+1}; *o=tr(f); o+=2; }
template<unsigned long B,int BITS,int PAR,int STOP> static inline void conf(double* o){ SP p("/dev/x",B,BITS,PAR,STOP); Open2 f={p,7,3}; *o++=tr(f); *o++=p.getBaudRate(); }
VF(sp_9600_8n1){ conf<9600,8,0,1>(o); }
VF(sp_19200_7e1){ conf<19200,7,2,1>(o); }
VF(sp_38400_7o2){ conf<38400,7,1,2>(o); }
VF(sp_57600_6n2){ conf<57600,6,0,2>(o); }
VF(sp_115200_5e1){ conf<115200,5,2,1>(o); }
VF(sp_230400_8o1){ conf<230400,8,1,1>(o); }
VF(sp_1234){ conf<1234,8,0,1>(o); }
VF(sp_deflt){ SP p("/dev/x",9600); OP(Open) }
// use of a port in every state
VF(sp_cycle){ { SP p("/dev/x",9600); OP(Open) OP(Open) OPV(Read) OPV(Send) OPV(Bytes) OP(Break) OP(Flush) OP(Close) OP(Close) OPV(Read) OPV(Send) OPV(Bytes) OP(Break) OP(Flush) OP(Open) OPV(Read) } vf_mark(9); }
VF(sp_closed){ { SP p("/dev/x",9600); OPV(Read) OPV(Send) OPV(Bytes) OP(Break) OP(Flush) OP(Close) } vf_mark(9); }
VF(sp_retry){ { SP p("/dev/x",9600); OP(Open) OPV(Read) OP(Open) OPV(Read) } vf_mark(9); }
