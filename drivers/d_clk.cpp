// clocks: system time, sleeping, block timer, synchronisation of clocks (filter)
#include <cmath>
#include "utMeasurement/Timestamp.cpp"
#include "utMeasurement/TimestampSync.cpp"
#include "utUtil/OS.cpp"
#include "utUtil/BlockTimer.cpp"
#define VF(name) extern "C" void vf_##name(const double* i, double* o)
typedef unsigned long long ull;
namespace M=Ubitrack::Measurement;
namespace U=Ubitrack::Util;
VF(now){ *o++=(double)M::now(); }
VF(hpc){ *o++=(double)U::getHighPerformanceCounter(); *o++=U::getHighPerformanceFrequency(); }
VF(sleep){ U::sleep(*(const unsigned*)i,*(const unsigned*)(i+1)); *o=0; }
// i: nativeFreq, localFreq, then (native,local) per event
template<int N> static inline void run(M::TimestampSync& s,const double* i,double* o){ for(int k=0;k<N;k++) *o++=(double)s.convertNativeToLocal(i[2*k],*(const ull*)(i+2*k+1)); *o++=s.getEventCount(); }
VF(ts_one){ M::TimestampSync s(i[0],i[1]); run<1>(s,i+2,o); }
VF(ts_hist){ M::TimestampSync s(i[0],i[1]); run<190>(s,i+2,o); }
VF(ts_def){ M::TimestampSync s(i[0]); run<3>(s,i+1,o); }
VF(ts_freq){ M::TimestampSync s(i[0],i[1]); s.setFrequency(i[2],i[3]); run<3>(s,i+4,o); }
VF(ts_now){ M::TimestampSync s(i[0],i[1]); *o++=(double)s.convertNativeToLocal(i[2]); *o++=(double)s.convertNativeToLocal(i[3]); }
// block timer
VF(bt){ U::BlockTimer t("x"); *o++=(double)t.getRuns(); *o++=(double)t.getStartTime(); t.addMeasurement(*(const ull*)i); t.addMeasurement(*(const ull*)(i+1)); { U::BlockTimer::Time x(t); } *o++=(double)t.getRuns(); *o++=t.getTotalTime(); *o++=t.getAvgTime(); }
