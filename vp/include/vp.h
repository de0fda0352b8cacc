// Harness primitives.  Symbolic build: externals interpreted by vp/ext.py.  Native build (-DVP_NATIVE): replay of one model.
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cmath>
#include <complex>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <limits>
#ifndef VP_NATIVE
extern "C" {
 uint8_t vp_u8(const char*); uint16_t vp_u16(const char*); uint32_t vp_u32(const char*); uint64_t vp_u64(const char*);
 double vp_real(const char*);
 void vp_assume(bool); void vp_assert(bool,int); void vp_reach(int);
 uint64_t vp_split(uint64_t);
 uint64_t vp_pin(uint64_t);
}
#else
extern "C" {
 double vp__get(const char*,int);  uint64_t vp__geti(const char*);
 void vp_assume(bool); void vp_assert(bool,int);
 uint8_t vp_u8(const char*); uint16_t vp_u16(const char*); uint32_t vp_u32(const char*); uint64_t vp_u64(const char*); double vp_real(const char*);
 static inline void vp_reach(int){}
 static inline uint64_t vp_split(uint64_t x){return x;}
static inline uint64_t vp_pin(uint64_t x){return x;}
}
#endif
#define VPI static inline __attribute__((always_inline))
// an integer in [lo,hi]
VPI int vp_int(const char*n,int lo,int hi){ int x=(int)vp_u32(n); vp_assume(x>=lo && x<=hi); return x; }
// digit i of a state of an n-site, sps-level system: symbolic, or (when SYMD is given) symbolic on the listed sites and fixed elsewhere
VPI int vp_digit(const char*n,int i,int sps){
#ifdef SYMD
	static const int symd[]={SYMD}; for(unsigned k=0;k<sizeof(symd)/sizeof(int);k++) if(symd[k]==i) return (int)vp_split(vp_int(n,0,sps-1));
	return (5*i+i/3+1)%sps;
#else
	return vp_int(n,0,sps-1);
#endif
}
VPI bool vp_bool(const char*n){ return vp_u8(n)&1; }
VPI bool vp_close(double a,double b,double eps=1e-8){ if(a!=a||b!=b) return false; double d=a-b; return d<=eps && d>=-eps; }
typedef std::complex<double> cplx;
VPI bool vp_close(cplx a,cplx b,double eps=1e-8){ return vp_close(a.real(),b.real(),eps)&&vp_close(a.imag(),b.imag(),eps); }
#endif
