// synchronisation of clocks (recursive least squares)
#include <cmath>
#include "utMeasurement/TimestampSyncLS.h"
#define VF(name) extern "C" void vf_##name(const double* i, double* o)
typedef unsigned long long ull;
namespace M=Ubitrack::Measurement;
VF(ls_hist){ M::TimestampSyncLS s; for(int k=0;k<150;k++) *o++=(double)s.convertNativeToLocal(i[2*k],*(const ull*)(i+2*k+1)); *o++=s.getEventCount(); }
