// Shared harness helpers for the general-basis engine: concrete lattice maps, symbolic states, explicit group sums.
#ifndef VP_BASIS_H
#define VP_BASIS_H
#include "vp.h"
#include "vp_rb.h"
#include "hcb_basis_core.h"
#include "boson_basis_core.h"
#include "higher_spin_basis_core.h"
#include "spinless_fermion_basis_core.h"
#include "spinful_fermion_basis_core.h"
using namespace basis_general;
#ifndef IT
#define IT npy_uint32
#endif
#ifndef NS
#define NS 6
#endif
#ifndef SPS
#define SPS 2
#endif
typedef IT I;
static const int KHCB=0,KSPF=1,KSPINFUL=2,KBOSON=3,KHSPIN=4;
#ifndef KIND
#define KIND KHCB
#endif
static I ipow(int b,int e){ I r=1; for(int k=0;k<e;k++) r*=b; return r; }
template<int K> struct mk{};
template<> struct mk<KHCB>{ typedef hcb_basis_core<I> T; static T get(int nt,const int*m,const int*p,const int*q){ if(nt) return T(NS,nt,m,p,q); return T(NS);} };
template<> struct mk<KSPF>{ typedef spinless_fermion_basis_core<I> T; static T get(int nt,const int*m,const int*p,const int*q){ if(nt) return T(NS,nt,m,p,q); return T(NS);} };
template<> struct mk<KSPINFUL>{ typedef spinful_fermion_basis_core<I> T; static T get(int nt,const int*m,const int*p,const int*q){ if(nt) return T(NS/2,nt,m,p,q,true); return T(NS/2,true);} };
template<> struct mk<KBOSON>{ typedef boson_basis_core<I> T; static T get(int nt,const int*m,const int*p,const int*q){ if(nt) return T(NS,SPS,nt,m,p,q); return T(NS,SPS);} };
template<> struct mk<KHSPIN>{ typedef higher_spin_basis_core<I> T; static T get(int nt,const int*m,const int*p,const int*q){ if(nt) return T(NS,SPS,nt,m,p,q); return T(NS,SPS);} };
typedef mk<KIND>::T BT;
// an arbitrary state of the full space
VPI I vp_state(const char*n){
	if(KIND==KBOSON||KIND==KHSPIN){ I s=0; for(int i=0;i<NS;i++) s+=(I)vp_digit(n,i,SPS)*ipow(SPS,NS-1-i); return s; }
	I s=(I)vp_u64(n); if(NS<(int)sizeof(I)*8) vp_assume((s>>(NS<(int)sizeof(I)*8?NS:0))==0); return s; }
#ifndef NEGQ
#define NEGQ 0
#endif
#ifdef MAPS
static const int maps0[][NS]={MAPS};
static const int pers0[]={PERS};
static const int NT=sizeof(pers0)/sizeof(pers0[0]);
#ifdef QS
static const int qs0[]={QS};
#endif
static int qs_[NT];
VPI void vp_qs(){
	for(int k=0;k<NT;k++){
#ifdef QS
		qs_[k]=qs0[k];
#elif defined(QREAL)
		{ int h=(int)vp_split((uint64_t)vp_int("q",0,NEGQ?2:1)); if(pers0[k]%2) h=0; qs_[k]=(h==2?-1:h)*(pers0[k]/2); }
#else
		qs_[k]=(int)(unsigned)vp_split((uint64_t)(unsigned)vp_int("q",NEGQ?-1:0,pers0[k]-1));
#endif
	}
}
static int gsize(){ int G=1; for(int k=0;k<NT;k++) G*=pers0[k]; return G; }
// explicit group orbit: element e = (g_0..g_{NT-1}), t[e]=T^g s, sg[e] accumulated sign
struct orbit { int G; std::vector<I> t; std::vector<signed char> sg; std::vector<int> g; };
template<class B> static void make_orbit(B &b,I s,orbit&o){
	o.G=gsize(); o.t.resize(o.G); o.sg.resize(o.G); o.g.resize(o.G*NT);
	o.t[0]=s; o.sg[0]=1; for(int k=0;k<NT;k++) o.g[k]=0;
	int n=1;
	for(int k=0;k<NT;k++){ int n0=n;
		for(int p=1;p<pers0[k];p++) for(int e=0;e<n0;e++){ int f=n++, prev=(p-1)*n0+e;
			signed char sg=o.sg[prev]; o.t[f]=b.map_state(o.t[prev],k,sg); o.sg[f]=sg;
			for(int j=0;j<NT;j++) o.g[f*NT+j]=o.g[prev*NT+j]; o.g[f*NT+k]=p; }
	}
}
static double angle(const int*g){ double a=0; for(int k=0;k<NT;k++) a+=2.0*M_PI*((g[k]*qs_[k])%pers0[k])/pers0[k]; return a; }
#endif
#endif
