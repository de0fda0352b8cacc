// Symmetry sectors of the one-dimensional bases: membership of an arbitrary state, matrix elements for an arbitrary operator action.
#include <Python.h>
#include "vp.h"
#undef PyMODINIT_FUNC
#define PyMODINIT_FUNC static PyObject*
#include "vp1d.h"
#include CYCPP
#include TABLES
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define VPM CAT(PFX,VM)
#define VPO CAT(PFX,VO)
typedef uint32_t I;
VPI __Pyx_memviewslice mv(void*p,int n,int w){ __Pyx_memviewslice m; memset(&m,0,sizeof(m)); m.memview=0; m.data=(char*)p; m.shape[0]=n; m.strides[0]=w; m.suboffsets[0]=-1; return m; }
static unsigned pars[64]; static const int PARS_[]={PARS};
static void setpars(){ for(unsigned i=0;i<sizeof(PARS_)/sizeof(int);i++) pars[i]=(unsigned)PARS_[i]; }
static int8_t N[2*NR+4],Nr[2*NR+4]; static uint8_t m1[2*NR+4],m1r[2*NR+4]; static uint16_t m2[2*NR+4],m2r[2*NR+4]; static I basis[2*NR+4],row[2*NR+4],col[2*NR+4],basisr[2*NR+4]; static cplx ME[2*NR+4];
VPI int make(int q,long MAX,I s){ return (int)VPM(mv(pars,64,4),LL,QK[q],QP[q],QZ[q],QZ2[q],AA,N,m1,m2,mv(basis,2*NR+4,4),MAX,s); }
static I src,dst; static cplx val;
static int vp_op1d(npy_intp Ns,const unsigned*b,unsigned*row,void*ME_){ cplx*M=(cplx*)ME_; for(npy_intp i=0;i<Ns;i++){ if(b[i]==src){ row[i]=dst; M[i]=val; } else { row[i]=b[i]; M[i]=0; } } return 0; }
VPI I anystate(const char*n){ I s=vp_u32(n); vp_assume(s<DIM); return s; }
VPI int sector(){ return (int)vp_split((uint64_t)vp_int("sector",0,NSEC-1)); }
// membership: one arbitrary state is offered to the construction
extern "C" void h_member(){
	setpars(); int q=sector(); I s=anystate("s"); vp_assume(INS[s]!=0||DBL==0);
	for(int k=0;k<4;k++){ N[k]=0; basis[k]=12345; }
	int n=make(q,1,s); const int c=CNT[q][s]; vp_assert(n==(c&1)+(c>>1),1);
	if(n>=1){ vp_assert(basis[0]==s,2); if(NORMED) vp_assert(N[0]!=0,3);
		if(SEMI[q]&&n==1) vp_assert((N[0]>0)==(c==1),4);
		if(n==2) vp_assert(basis[1]==s&&((N[0]>0)!=(N[1]>0)),5); }
	vp_assert(basis[n]==12345,6);
	vp_reach(1);
}
static int build(int q){ // complete sector, reversed into descending order
	int n=make(q,MAXS,S0_); vp_assert(n==NB_[q],10);
	for(int i=0;i<n;i++){ int j=n-1-i; basisr[i]=basis[j]; Nr[i]=N[j]; m1r[i]=m1[j]; m2r[i]=m2[j]; }
	for(int i=0;i<n;i++) vp_assert(basisr[i]==BAS[q][i]&&(!SEMI[q]||(Nr[i]>0)==(SG[q][i]>0)),11);
	return n; }
extern "C" void h_basis(){ setpars(); int q=sector(); build(q); vp_reach(1); }
extern "C" void h_me(){
	setpars(); int q=sector(); int n=build(q); if(n==0) return;
	const int c=COLS>=n?(int)vp_split((uint64_t)vp_int("col",0,n-1)):(int)(vp_split((uint64_t)vp_int("col",0,COLS-1))*(n-1)/(COLS>1?COLS-1:1));
	src=basisr[c]; dst=anystate("t"); vp_assume(INS[dst]!=0); val=cplx(1,0);
	for(int i=0;i<2*n;i++){ row[i]=col[i]=9999; ME[i]=0; }
	int ix[1]={0}; int err=VPO(mv(pars,64,4),LL,QK[q],QP[q],QZ[q],QZ2[q],AA,Nr,m1r,m2r,mv(basisr,n,4),n,ix,mv(row,2*n,4),mv(col,2*n,4),(decltype(__pyx_t_double_complex_from_parts(0,0))*)ME);
	vp_assert(err==0,1);
	const I td=(I)vp_pin(dst); const int ne=SEMI2?2*n:n; bool ok=true,in=true; const int sg=SG[q][c]>0?0:NSG-1;
	static double X[NR],Y[NR]; for(int r=0;r<n;r++){ X[r]=-UR[q][sg][r][td]*AN[q][c]; Y[r]=-UI[q][sg][r][td]*AN[q][c]; }
	for(int e=0;e<ne;e++){ const double x=ME[e].real(),y=ME[e].imag(); if(!(x==x&&y==y)) continue;
		if(row[e]>=(I)n||col[e]>=(I)n){ in=in&(x==0&&y==0&&SEMI2); continue; }
		if(x==0&&y==0) continue;
		if(col[e]!=(I)c){ if(basisr[col[e]]!=src) ok=false; continue; }
		X[row[e]]+=x; Y[row[e]]+=y; }
	for(int r=0;r<n;r++) ok=ok&(X[r]<=1e-9)&(X[r]>=-1e-9)&(Y[r]<=1e-9)&(Y[r]>=-1e-9);
	vp_assert(ok,2); vp_assert(in,4);
	vp_reach(1);
}
// single transformations
#define VB(x) CAT(PFX,x)
extern "C" void h_maps(){
	setpars(); I s=anystate("s"); __Pyx_memviewslice P=mv(pars,64,4); int8_t g; const int sg0=(int)vp_split(vp_bool("neg"))?-1:1;
	g=sg0; I r=VB(vpb_shift)(s,-AA,LL,&g,P); vp_assert(r==GT[s],1); vp_assert(g==sg0*GTS[s],2);
	g=sg0; I w=VB(vpb_shift)(r,AA,LL,&g,P); vp_assert(w==s,3); vp_assert(g==sg0*GTS[s],4);
	g=sg0; r=VB(vpb_fliplr)(s,LL,&g,P); vp_assert(r==GP[s],5); vp_assert(g==sg0*GPS[s],6);
	if(!FERM){ g=sg0; r=VB(vpb_flip_all)(s,LL,&g,P); vp_assert(r==GZ[s],7); vp_assert(g==sg0*GZS[s],8); }
	if(SUBL){ g=sg0; r=VB(vpb_flip_A)(s,LL,&g,P); vp_assert(r==GA[s]&&g==sg0*GAS[s],9); r=VB(vpb_flip_B)(s,LL,&g,P); vp_assert(r==GB[s]&&g==sg0*GBS[s],10); }
	vp_reach(1);
}
