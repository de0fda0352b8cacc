// 1D bases on the full width of the integer type: site maps, fermionic signs, enumeration, operator action.
#include <Python.h>
#include "vp.h"
#undef PyMODINIT_FUNC
#define PyMODINIT_FUNC static PyObject*
#define VP_I IT
#include "vp1d.h"
#include CYCPP
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define VB(x) CAT(PFX,x)
typedef IT I;
#ifndef BG
#define BG 0x9e3779b97f4a7c15ULL
#endif
#ifndef NOP
#define NOP 2
#endif
#ifndef SPS
#define SPS 2
#endif
VPI __Pyx_memviewslice mv(void*p,int n,int w){ __Pyx_memviewslice m; memset(&m,0,sizeof(m)); m.memview=0; m.data=(char*)p; m.shape[0]=n; m.strides[0]=w; m.suboffsets[0]=-1; return m; }
static I pars[80];
static const int NTOT=KIND==2?2*LL:LL;
static I ipow(int b,int e){ I r=1; for(int k=0;k<e;k++) r*=(I)b; return r; }
static void setpars(){
	if(KIND==3){ pars[0]=LL; for(int i=0;i<=LL;i++) pars[1+i]=ipow(SPS,i); pars[LL+2]=SPINME; return; }
	I full=0,A=0,B=0; for(int i=0;i<LL;i++){ full|=((I)1<<i); if(i%2) B|=((I)1<<i); else A|=((I)1<<i); }
	if(KIND==2){ pars[0]=LL; pars[1]=full; pars[3]=(((I)1)<<NDN)-1; pars[2]=pars[3]<<(LL-NDN); pars[4]=DBL; return; }
	pars[0]=KIND==1; pars[1]=LL; pars[2]=full; pars[3]=A; pars[4]=B; }
static int8_t rsgn; // sign of the permutation sending the particle at position p to position m(p)
VPI I permute(I s,const int*m,const bool fermi){
	I r=0; for(int p=0;p<NTOT;p++) if((s>>p)&1) r|=(I)1<<m[p];
	bool o=false; if(fermi) for(int p=0;p<NTOT;p++) for(int q=0;q<p;q++) if(m[q]>m[p]) o^=(bool)((s>>p)&(s>>q)&1);
	rsgn=o?-1:1; return r; }
// an arbitrary state, or (SPARSE) an arbitrary choice of some bits on a fixed background
VPI I state(){
#ifdef SPARSE
	static const int pos[]={SPARSE}; uint64_t bg=BG; I r=(I)bg; if(NTOT<(int)(8*sizeof(I))) r&=(((I)1)<<(NTOT%64))-1;
	for(unsigned k=0;k<sizeof(pos)/sizeof(int);k++){ I b=(I)vp_bool("b"); r=(r&~((I)1<<pos[k]))|(b<<pos[k]); }
	return r;
#else
	I r=(I)vp_u64("s"); if(NTOT<(int)(8*sizeof(I))) vp_assume((r>>(NTOT%64))==0); return r;
#endif
}
#ifndef OPSRC
extern "C" void h_wmap(){
	setpars(); I s=state(); __Pyx_memviewslice P=mv(pars,80,sizeof(I)); int m[NTOT]; const bool fermi=KIND!=0; int8_t g; I r;
	for(int p=0;p<NTOT;p++) m[p]=(p/LL)*LL+(p%LL+LL-SHIFT)%LL; // site i -> i+SHIFT
	r=permute(s,m,fermi); g=1; I t=VB(vpb_shift)(s,-SHIFT,LL,&g,P); vp_assert(t==r,1); vp_assert(g==rsgn,2);
	const int8_t fs=rsgn; g=1; t=VB(vpb_shift)(r,SHIFT,LL,&g,P); vp_assert(t==s,3); vp_assert(g==fs,4);
	vp_reach(1);
}
extern "C" void h_wflip(){
	setpars(); I s=state(); __Pyx_memviewslice P=mv(pars,80,sizeof(I)); int m[NTOT]; const bool fermi=KIND!=0; int8_t g=1; I r,t;
	for(int p=0;p<NTOT;p++) m[p]=(p/LL)*LL+LL-1-p%LL;
	r=permute(s,m,fermi); t=VB(vpb_fliplr)(s,LL,&g,P); vp_assert(t==r,1); vp_assert(g==rsgn,2);
	if(KIND==2){ for(int p=0;p<NTOT;p++) m[p]=(p+LL)%NTOT; r=permute(s,m,true); g=1; t=VB(vpb_flip_all)(s,LL,&g,P); vp_assert(t==r,3); vp_assert(g==rsgn,4); }
	if(KIND==0){ g=1; t=VB(vpb_flip_all)(s,LL,&g,P); bool ok=true; for(int p=0;p<LL;p++) ok=ok&((((t^s)>>p)&1)==1); vp_assert(ok&&(NTOT>=(int)(8*sizeof(I))||(t>>(NTOT%64))==0)&&g==1,5);
		g=1; t=VB(vpb_flip_A)(s,LL,&g,P); ok=true; for(int p=0;p<LL;p++) ok=ok&((((t^s)>>p)&1)==(I)(p%2==0)); vp_assert(ok&&g==1,6);
		g=1; t=VB(vpb_flip_B)(s,LL,&g,P); ok=true; for(int p=0;p<LL;p++) ok=ok&((((t^s)>>p)&1)==(I)(p%2==1)); vp_assert(ok&&g==1,7); }
	vp_reach(1);
}
VPI int popc(I x){ int c=0; for(int p=0;p<NTOT;p++) c+=(int)((x>>p)&1); return c; }
VPI int popr(I x,int a,int b){ int c=0; for(int p=a;p<b;p++) c+=(int)((x>>p)&1); return c; }
// successor with the same particle number: nothing in between is skipped
extern "C" void h_wnext(){
	setpars(); I s=state(), u=(I)vp_u64("u"); __Pyx_memviewslice P=mv(pars,80,sizeof(I));
	if(NTOT<(int)(8*sizeof(I))) vp_assume((u>>(NTOT%64))==0);
	if(KIND==2){ const int a=popr(s,0,LL),b=popr(s,LL,2*LL); vp_assume(a==NDN&&b==NUP); vp_assume(popr(u,0,LL)==a&&popr(u,LL,2*LL)==b); }
	else { const int c=popc(s); vp_assume(popc(u)==c); }
	vp_assume(u>s); // a successor exists
	I t=VB(vpb_next)(s,P);
	vp_assert(t>s,1); vp_assert(t<=u,2);
	if(KIND==2) vp_assert(popr(t,0,LL)==NDN&&popr(t,LL,2*LL)==NUP,3); else vp_assert(popc(t)==popc(s),3);
	vp_reach(1);
}
static int vp_op1d(npy_intp,const I*,I*,void*){ return 0; }
// digits
VPI I digits(int*d){ I s=0; for(int i=0;i<LL;i++){ d[i]=vp_digit("d",i,SPS); s+=(I)d[i]*ipow(SPS,LL-1-i); } return s; }
VPI I undigits(const int*d){ I s=0; for(int i=0;i<LL;i++) s+=(I)d[i]*ipow(SPS,LL-1-i); return s; }
extern "C" void h_bmap(){
	setpars(); int d[LL],e[LL]; I s=digits(d); __Pyx_memviewslice P=mv(pars,80,sizeof(I)); int8_t g=1; I t;
	for(int i=0;i<LL;i++) e[(i+SHIFT)%LL]=d[i];
	t=VB(vpb_shift)(s,-SHIFT,LL,&g,P); vp_assert(t==undigits(e)&&g==1,1);
	t=VB(vpb_shift)(t,SHIFT,LL,&g,P); vp_assert(t==s&&g==1,2);
	for(int i=0;i<LL;i++) e[LL-1-i]=d[i];
	t=VB(vpb_fliplr)(s,LL,&g,P); vp_assert(t==undigits(e)&&g==1,3);
	for(int i=0;i<LL;i++) e[i]=SPS-1-d[i];
	t=VB(vpb_flip_all)(s,LL,&g,P); vp_assert(t==undigits(e)&&g==1,4);
	for(int i=0;i<LL;i++) e[i]=(LL-1-i)%2==0?SPS-1-d[i]:d[i];
	t=VB(vpb_flip_A)(s,LL,&g,P); vp_assert(t==undigits(e)&&g==1,5);
	for(int i=0;i<LL;i++) e[i]=(LL-1-i)%2==1?SPS-1-d[i]:d[i];
	t=VB(vpb_flip_B)(s,LL,&g,P); vp_assert(t==undigits(e)&&g==1,6);
	vp_reach(1);
}
extern "C" void h_bnext(){
	setpars(); int d[LL],f[LL]; I s=digits(d); I u=0; int n=0,k=0; for(int i=0;i<LL;i++){ f[i]=vp_int("f",0,SPS-1); u+=(I)f[i]*ipow(SPS,LL-1-i); n+=d[i]; k+=f[i]; }
	vp_assume(n==k&&u>s); I t=VB(vpb_next)(s,mv(pars,80,sizeof(I))); t=(I)t;
	vp_assert(t>s&&t<=u,1); int c=0; for(int i=0;i<LL;i++) c+=(int)((t/ipow(SPS,i))%SPS); vp_assert(c==n,2);
	vp_reach(1);
}
#else
static unsigned char ops[NOP+1]; static int vp_oplen(){ return NOP; } static unsigned char*vp_opchars(){ return ops; }
static bool in(char c,const char*set){ for(;*set;set++) if(*set==c) return true; return false; }
static I bas[2],row[2]; static cplx ME[2]; static int ix[NOP];
typedef decltype(__pyx_t_double_complex_from_parts(0,0)) PC;
VPI int run(I s,double jr,double ji){ bas[0]=s; row[0]=0; ME[0]=cplx(7,7); return VB(vpo_op)(1,mv(bas,1,sizeof(I)),ix,__pyx_t_double_complex_from_parts(jr,ji),mv(row,1,sizeof(I)),(PC*)ME,mv(pars,80,sizeof(I))); }
extern "C" void h_op(){
	setpars(); I s=state(); const bool fermi=KIND!=0;
	for(int j=0;j<NOP;j++){ ops[j]=vp_u8("op"); vp_assume(in((char)ops[j],KIND==0?"Iznxy+-":"Izn+-")); ix[j]=vp_int("ix",0,NTOT-1); }
	int err=run(s,JR,JI); vp_assert(err==0,1);
	I r=s; cplx m(1,0);
	for(int j=NOP-1;j>=0;j--){
		const int pos=NTOT-1-ix[j]; const bool occ=(r>>pos)&1; int sg=1;
		if(fermi){ int c=0; for(int k=0;k<NTOT;k++) if(k<pos) c^=(int)((r>>k)&1); sg=c?-1:1; }
		cplx f(0,0);
		switch((char)ops[j]){
			case 'I': f=1; break; case 'z': f=occ?0.5:-0.5; break; case 'n': f=occ?1.0:0.0; break;
			case 'x': f=0.5; r^=((I)1<<pos); break; case 'y': f=occ?cplx(0,0.5):cplx(0,-0.5); r^=((I)1<<pos); break;
			case '+': f=occ?0.0:(double)sg; r^=((I)1<<pos); break; case '-': f=occ?(double)sg:0.0; r^=((I)1<<pos); break; }
		m=cplx(m.real()*f.real()-m.imag()*f.imag(),m.real()*f.imag()+m.imag()*f.real()); }
	const bool zero=m.real()==0&&m.imag()==0; m=cplx(m.real()*JR-m.imag()*JI,m.real()*JI+m.imag()*JR);
	vp_assert(vp_close(ME[0],m),2); vp_assert(zero||row[0]==r,3);
	vp_reach(1);
}
extern "C" void h_bop(){
	setpars(); int d[LL]; I s=0; for(int i=0;i<LL;i++){ d[i]=vp_digit("d",i,SPS); s+=(I)d[i]*ipow(SPS,LL-1-i); }
	for(int j=0;j<NOP;j++){ ops[j]=vp_u8("op"); vp_assume(in((char)ops[j],SPINME?"Iz+-":"Izn+-")); 
#ifdef IXS
		{ static const int c[]={0,1,LL/2,LL-1}; ix[j]=c[(int)vp_split(vp_int("ix",0,3))]; }
#else
		ix[j]=(int)vp_split(vp_int("ix",0,LL-1));
#endif
	}
	int err=run(s,JR,JI); vp_assert(err==0,1);
	double f=1,S=(SPS-1)/2.0; bool zero=false;
	for(int j=NOP-1;j>=0;j--){ int &n=d[ix[j]];
		switch((char)ops[j]){
			case 'z': f*=n-S; break; case 'n': f*=n; break;
			case '+': if(n==SPS-1) zero=true; else { f*=SPINME? std::sqrt(S*(S+1)-(n-S)*(n-S+1)) : std::sqrt(n+1.0); n++; } break;
			case '-': if(n==0) zero=true; else { f*=SPINME? std::sqrt(S*(S+1)-(n-S)*(n-S-1)) : std::sqrt((double)n); n--; } break; }
		if(zero){ f=0; break; } }
	I rr=0; for(int i=0;i<LL;i++) rr+=(I)d[i]*ipow(SPS,LL-1-i);
	vp_assert(vp_close(ME[0],cplx(f*JR,f*JI)),2); vp_assert(f==0||row[0]==rr,3);
	vp_reach(1);
}
extern "C" void h_opchar(){
	setpars(); ops[0]=vp_u8("op"); ix[0]=(int)vp_split(vp_int("ix",0,NTOT-1)); const char c=(char)ops[0];
	int err=run(1,1,0); const char*A=KIND==0||KIND==1?"Iznxy+-":"Izn+-"; vp_assert((err!=0)==!in(c,A),1); vp_reach(1);
}
#endif
