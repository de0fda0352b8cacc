// Action of operator strings on a basis state: implementation vs. definition.
#include "vp.h"
#include "hcb_basis_core.h"
#include "boson_basis_core.h"
#include "higher_spin_basis_core.h"
#include "spinless_fermion_basis_core.h"
#include "spinful_fermion_basis_core.h"
using namespace basis_general;
#ifndef NOP
#define NOP 2
#endif
#ifndef NS
#define NS 32
#endif
#ifndef IT
#define IT npy_uint32
#endif
#ifndef SPS
#define SPS 3
#endif
typedef IT I;

static bool in(char c,const char*set){ for(;*set;set++) if(*set==c) return true; return false; }

// reference: bit i of site i is bit NS-1-i
template<bool FERMI> static void ref_bits(I s,I&r,cplx&m,int n,const char*op,const int*ix){
	r=s; m=cplx(1,0);
	for(int j=n-1;j>=0;j--){
		const int pos=NS-1-ix[j];
		const bool occ=(r>>pos)&1;
		int sg=1;
		if(FERMI){ int c=0; for(int k=0;k<NS;k++) if(k<pos) c^=(int)((r>>k)&1); sg=c?-1:1; }
		cplx f(0,0);
		switch(op[j]){
			case 'I': f=1; break;
			case 'z': f=occ?0.5:-0.5; break;
			case 'n': f=occ?1.0:0.0; break;
			case 'x': f=0.5; r^=((I)1<<pos); break;
			case 'y': f=occ?cplx(0,0.5):cplx(0,-0.5); r^=((I)1<<pos); break;
			case '+': f=occ?0.0:(double)sg; r^=((I)1<<pos); break;
			case '-': f=occ?(double)sg:0.0; r^=((I)1<<pos); break;
		}
		m=cplx(m.real()*f.real()-m.imag()*f.imag(),m.real()*f.imag()+m.imag()*f.real());
	}
}

template<bool FERMI,class B> VPI void run_bits(B &b,const char*allowed){
	I s=(I)vp_u64("s"); if(NS<64) vp_assume(((uint64_t)s>>(NS<64?NS:0))==0);
	char op[NOP]; int ix[NOP];
	for(int j=0;j<NOP;j++){ op[j]=(char)vp_u8("op"); vp_assume(in(op[j],allowed)); ix[j]=vp_int("ix",0,NS-1); }
	I r=s,rr; cplx m(1,0),mm;
	int err=b.op(r,m,NOP,op,ix);
	ref_bits<FERMI>(s,rr,mm,NOP,op,ix);
	vp_assert(err==0,1);
	vp_assert(vp_close(m,mm),2);
	bool zero=mm.real()==0&&mm.imag()==0;
	vp_assert(zero||r==rr,3);
	vp_reach(1);
}
extern "C" void h_hcb(){ hcb_basis_core<I> b(NS); run_bits<false>(b,"Iznxy+-"); }
extern "C" void h_spf(){ spinless_fermion_basis_core<I> b(NS); run_bits<true>(b,"Izn+-"); }
extern "C" void h_spinful(){ spinful_fermion_basis_core<I> b(NS/2,true); run_bits<true>(b,"Izn+-"); }
extern "C" void h_badchar(){
	hcb_basis_core<I> a(NS); spinless_fermion_basis_core<I> b(NS); boson_basis_core<I> c(4,SPS); higher_spin_basis_core<I> d(4,SPS);
	char op[1]={(char)vp_u8("op")}; int ix[1]={vp_int("ix",0,3)}; I r; cplx m;
	ix[0]=(int)vp_split(ix[0]);
	r=0;m=1; vp_assert((a.op(r,m,1,op,ix)!=0)==!in(op[0],"Iznxy+-"),1);
	r=0;m=1; vp_assert((b.op(r,m,1,op,ix)!=0)==!in(op[0],"Izn+-"),2);
	r=0;m=1; vp_assert((c.op(r,m,1,op,ix)!=0)==!in(op[0],"Izn+-"),3);
	r=0;m=1; vp_assert((d.op(r,m,1,op,ix)!=0)==!in(op[0],"Iz+-"),4);
}
// digits
static I ipow(int b,int e){ I r=1; for(int k=0;k<e;k++) r*=b; return r; }
template<bool SPIN,class B> VPI void run_digits(B &b,const char*allowed){
	int d[NS]; I s=0;
	for(int i=0;i<NS;i++){ d[i]=vp_digit("d",i,SPS); s+=(I)d[i]*ipow(SPS,NS-1-i); }
	char op[NOP]; int ix[NOP];
	for(int j=0;j<NOP;j++){ op[j]=(char)vp_u8("op"); vp_assume(in(op[j],allowed)); ix[j]=(int)vp_split(vp_int("ix",0,NS-1)); }
	I r=s; cplx m(1,0);
	int err=b.op(r,m,NOP,op,ix);
	vp_assert(err==0,1);
	double f=1,S=(SPS-1)/2.0; bool zero=false;
	for(int j=NOP-1;j>=0;j--){
		int &n=d[ix[j]];
		switch(op[j]){
			case 'z': f*=n-S; break;
			case 'n': f*=n; break;
			case '+': if(n==SPS-1){zero=true;} else { f*=SPIN? std::sqrt(S*(S+1)-(n-S)*(n-S+1)) : std::sqrt(n+1.0); n++; } break;
			case '-': if(n==0){zero=true;} else { f*=SPIN? std::sqrt(S*(S+1)-(n-S)*(n-S-1)) : std::sqrt((double)n); n--; } break;
		}
		if(zero){ f=0; break; }
	}
	I rr=0; for(int i=0;i<NS;i++) rr+=(I)d[i]*ipow(SPS,NS-1-i);
	vp_assert(vp_close(m,cplx(f,0)),2);
	vp_assert(f==0||r==rr,3);
	vp_reach(1);
}
extern "C" void h_boson(){ boson_basis_core<I> b(NS,SPS); run_digits<false>(b,"In+-z"); }
extern "C" void h_hspin(){ higher_spin_basis_core<I> b(NS,SPS); run_digits<true>(b,"Iz+-"); }
